//! Graph specifications, the graph the simulator presents, and audits of real graphs.
use std::cell::Cell;
use std::collections::BTreeMap;

use gamma::graph::{DefaultGraph, Error, Graph};

use crate::rng::mix2;
use crate::sim::{At, Sim};

/// How a graph is presented.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Backing {
    /// The harness's own `Graph`, neighbour order permuted by `adjseed`.
    Model,
    /// A `DefaultGraph` filled with add_node and add_edge.
    Inserted,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Spec {
    pub backing: Backing,
    pub nodes: Vec<usize>,
    pub edges: Vec<(usize, usize)>,
    pub adjseed: u64,
    pub hash: u64,
}

/// Plain adjacency structure: the harness's idea of a graph.
#[derive(Clone, Debug, Default)]
pub struct Plain {
    pub nodes: Vec<usize>,
    pub edges: Vec<(usize, usize)>,
    pub pos: BTreeMap<usize, usize>,
    pub adj: Vec<Vec<usize>>,
}

impl Plain {
    pub fn from_spec(s: &Spec) -> Plain {
        let mut p = Plain::default();
        for &n in &s.nodes {
            p.add_node(n).unwrap();
        }
        for &(a, b) in &s.edges {
            p.add_edge(a, b).unwrap();
        }
        if s.backing == Backing::Model && s.adjseed != 0 {
            for i in 0..p.nodes.len() {
                let id = p.nodes[i] as u64;
                p.adj[i].sort_by_key(|&x| (mix2(s.adjseed ^ id, x as u64), x));
            }
        }
        p
    }
    pub fn add_node(&mut self, id: usize) -> Result<(), Error> {
        if self.pos.contains_key(&id) {
            return Err(Error::DuplicateNode(id));
        }
        self.pos.insert(id, self.nodes.len());
        self.nodes.push(id);
        self.adj.push(vec![]);
        Ok(())
    }
    pub fn add_edge(&mut self, a: usize, b: usize) -> Result<(), Error> {
        let &i = self.pos.get(&a).ok_or(Error::MissingNode(a))?;
        let &j = self.pos.get(&b).ok_or(Error::MissingNode(b))?;
        let linked = if self.adj[i].len() <= self.adj[j].len() { self.adj[i].contains(&b) } else { self.adj[j].contains(&a) };
        if linked {
            return Err(Error::DuplicateEdge(a, b));
        }
        self.adj[i].push(b);
        self.adj[j].push(a);
        self.edges.push((a, b));
        Ok(())
    }
    pub fn has(&self, id: usize) -> bool {
        self.pos.contains_key(&id)
    }
    pub fn nbrs(&self, id: usize) -> &[usize] {
        &self.adj[self.pos[&id]]
    }
    pub fn linked(&self, a: usize, b: usize) -> bool {
        self.pos.get(&a).map_or(false, |&i| self.adj[i].contains(&b))
    }
    pub fn index_adj(&self) -> Vec<Vec<usize>> {
        self.adj.iter().map(|v| v.iter().map(|x| self.pos[x]).collect()).collect()
    }
}

pub enum Inner {
    Model,
    Real(DefaultGraph),
}

pub struct Ctx {
    pub plain: Plain,
    pub inner: Inner,
    pub best: Option<usize>,
}

impl Ctx {
    pub fn build(s: &Spec, want_best: bool) -> Result<Ctx, String> {
        let plain = Plain::from_spec(s);
        let inner = match s.backing {
            Backing::Model => Inner::Model,
            Backing::Inserted => {
                let mut g = DefaultGraph::new();
                for &n in &s.nodes {
                    g.add_node(n).map_err(|e| format!("add_node({}) failed: {:?}", n, e))?;
                }
                for &(a, b) in &s.edges {
                    g.add_edge(a, b).map_err(|e| format!("add_edge({},{}) failed: {:?}", a, b, e))?;
                }
                Inner::Real(g)
            }
        };
        let best = if want_best { Some(crate::model::max_matching_size(&plain.index_adj())) } else { None };
        Ok(Ctx { plain, inner, best })
    }
}

/// The graph handed to the library: every access is a seam point.
pub struct SimGraph<'a> {
    pub sim: &'a Sim,
    pub ctx: &'a Ctx,
    pub edges_calls: Cell<u32>,
    /// Runs a library operation inside an access.
    pub nest: Option<&'a dyn Fn(u64)>,
    /// Calls and items so far.
    pub accesses: Cell<u64>,
    /// How many steps the client has asked for.
    pub progress: Cell<usize>,
    /// The step that reaches each node: before it, its neighbours are none of the library's business.
    pub levels: BTreeMap<usize, usize>,
    /// A node whose neighbours were asked for too early, and the progress then.
    pub early: Cell<Option<(usize, usize)>>,
    /// This access fails, with a panic or (where it can) an error.
    pub cut: Option<(u64, bool)>,
    /// Presented ids are the graph's, exclusive-or this.
    pub mask: usize,
    /// An operation that makes more accesses than this does not end.
    pub limit: u64,
}

unsafe impl Send for SimGraph<'_> {}
unsafe impl Sync for SimGraph<'_> {}

impl<'a> SimGraph<'a> {
    pub fn new(sim: &'a Sim, ctx: &'a Ctx) -> Self {
        SimGraph {
            sim,
            ctx,
            edges_calls: Cell::new(0),
            nest: None,
            accesses: Cell::new(0),
            progress: Cell::new(0),
            levels: BTreeMap::new(),
            early: Cell::new(None),
            cut: None,
            mask: 0,
            limit: u64::MAX,
        }
    }
    fn point(&self, at: At) -> Result<(), ()> {
        self.accesses.set(self.accesses.get() + 1);
        if self.accesses.get() > self.limit {
            self.sim.give_up();
        }
        let r = self.sim.point(at);
        if let Some(x) = self.sim.take_nest() {
            if let Some(f) = self.nest {
                let _mine = crate::seam::Lib::new(false);
                f(x);
            }
        }
        match self.cut {
            Some((k, panic)) if k == self.accesses.get() => self.sim.inject(at, panic),
            _ => r,
        }
    }
    /// An access that can return an error.
    fn attempt(&self, at: At, id: usize, other: usize) -> Result<(), Error> {
        self.point(at).map_err(|_| match self.sim.flavour() % 4 {
            2 => Error::MissingEdge(id, other),
            3 => Error::DuplicateNode(id),
            _ => Error::MissingNode(id),
        })
    }
    fn call(&self) {
        let _ = self.point(At::Call);
    }
}

struct Items<'a, T> {
    g: &'a SimGraph<'a>,
    inner: Box<dyn Iterator<Item = T> + 'a>,
}

impl<T> Iterator for Items<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let _ = self.g.point(At::Item);
        self.inner.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.g.ctx.inner {
            Inner::Model => (0, None),
            Inner::Real(_) => self.inner.size_hint(),
        }
    }
}

impl Graph for SimGraph<'_> {
    fn is_empty(&self) -> bool {
        self.call();
        match &self.ctx.inner {
            Inner::Model => self.ctx.plain.nodes.is_empty(),
            Inner::Real(g) => g.is_empty(),
        }
    }
    fn order(&self) -> usize {
        self.call();
        match &self.ctx.inner {
            Inner::Model => self.ctx.plain.nodes.len(),
            Inner::Real(g) => g.order(),
        }
    }
    fn size(&self) -> usize {
        self.call();
        match &self.ctx.inner {
            Inner::Model => self.ctx.plain.edges.len(),
            Inner::Real(g) => g.size(),
        }
    }
    fn nodes(&self) -> Box<dyn Iterator<Item = usize> + '_> {
        self.call();
        let inner: Box<dyn Iterator<Item = usize> + '_> = match &self.ctx.inner {
            Inner::Model => Box::new(self.ctx.plain.nodes.iter().copied()),
            Inner::Real(g) => g.nodes(),
        };
        let mask = self.mask;
        if mask == 0 {
            return Box::new(Items { g: self, inner });
        }
        Box::new(Items { g: self, inner: Box::new(inner.map(move |x| x ^ mask)) })
    }
    fn neighbors(&self, id: usize) -> Result<Box<dyn Iterator<Item = usize> + '_>, Error> {
        if self.levels.get(&id).map_or(false, |&l| l > self.progress.get()) && self.early.get().is_none() {
            self.early.set(Some((id, self.progress.get())));
        }
        self.attempt(At::Fallible, id, id)?;
        let mask = self.mask;
        let id = id ^ mask;
        let inner: Box<dyn Iterator<Item = usize> + '_> = match &self.ctx.inner {
            Inner::Model => match self.ctx.plain.pos.get(&id) {
                Some(&i) => Box::new(self.ctx.plain.adj[i].iter().copied()),
                None => return Err(Error::MissingNode(id)),
            },
            Inner::Real(g) => g.neighbors(id)?,
        };
        if mask == 0 {
            return Ok(Box::new(Items { g: self, inner }));
        }
        Ok(Box::new(Items { g: self, inner: Box::new(inner.map(move |x| x ^ mask)) }))
    }
    fn has_node(&self, id: usize) -> bool {
        self.call();
        let id = id ^ self.mask;
        match &self.ctx.inner {
            Inner::Model => self.ctx.plain.has(id),
            Inner::Real(g) => g.has_node(id),
        }
    }
    fn degree(&self, id: usize) -> Result<usize, Error> {
        self.attempt(At::Fallible, id, id)?;
        let id = id ^ self.mask;
        match &self.ctx.inner {
            Inner::Model => match self.ctx.plain.pos.get(&id) {
                Some(&i) => Ok(self.ctx.plain.adj[i].len()),
                None => Err(Error::MissingNode(id)),
            },
            Inner::Real(g) => g.degree(id),
        }
    }
    fn edges(&self) -> Box<dyn Iterator<Item = (usize, usize)> + '_> {
        self.call();
        self.edges_calls.set(self.edges_calls.get() + 1);
        let inner: Box<dyn Iterator<Item = (usize, usize)> + '_> = match &self.ctx.inner {
            Inner::Model => Box::new(self.ctx.plain.edges.iter().copied()),
            Inner::Real(g) => g.edges(),
        };
        let mask = self.mask;
        if mask == 0 {
            return Box::new(Items { g: self, inner });
        }
        Box::new(Items { g: self, inner: Box::new(inner.map(move |x| (x.0 ^ mask, x.1 ^ mask))) })
    }
    fn has_edge(&self, sid: usize, tid: usize) -> Result<bool, Error> {
        self.attempt(At::EdgeQuery, sid, tid)?;
        let (sid, tid) = (sid ^ self.mask, tid ^ self.mask);
        match &self.ctx.inner {
            Inner::Model => {
                if !self.ctx.plain.has(sid) {
                    Err(Error::MissingNode(sid))
                } else if !self.ctx.plain.has(tid) {
                    Err(Error::MissingNode(tid))
                } else {
                    Ok(self.ctx.plain.linked(sid, tid))
                }
            }
            Inner::Real(g) => g.has_edge(sid, tid),
        }
    }
}

/// What every query of a graph says, in order.
#[derive(Clone, PartialEq, Debug)]
pub struct Snap {
    pub nodes: Vec<usize>,
    pub edges: Vec<(usize, usize)>,
    pub adj: Vec<Vec<usize>>,
}

/// Reads a real graph through every query; an error if the queries contradict each other.
/// Whether an iterator's size hint is true of `n` items.
pub fn hint(h: (usize, Option<usize>), n: usize) -> bool {
    h.0 <= n && h.1.map_or(true, |m| m >= n)
}

pub fn audit(g: &DefaultGraph) -> Result<Snap, String> {
    let nodes: Vec<usize> = g.nodes().collect();
    let edges: Vec<(usize, usize)> = g.edges().collect();
    if g.order() != nodes.len() {
        return Err(format!("order() is {} but nodes() has {}", g.order(), nodes.len()));
    }
    if g.size() != edges.len() {
        return Err(format!("size() is {} but edges() has {}", g.size(), edges.len()));
    }
    if !hint(g.nodes().size_hint(), nodes.len()) || !hint(g.edges().size_hint(), edges.len()) {
        return Err(format!("the size hints of nodes() and edges() are {:?} and {:?} for {} and {}", g.nodes().size_hint(), g.edges().size_hint(), nodes.len(), edges.len()));
    }
    // However the lists are read.
    let (i, j) = (nodes.len() / 2, edges.len() / 2);
    let read = (g.nodes().count(), g.nodes().last(), g.nodes().nth(i), g.nodes().skip(i).next());
    if read != (nodes.len(), nodes.last().copied(), nodes.get(i).copied(), nodes.get(i).copied()) {
        return Err(format!("nodes() gives {:?} by count, last, nth and skip for {:?}", read, nodes));
    }
    let read = (g.edges().count(), g.edges().last(), g.edges().nth(j), g.edges().skip(j).next());
    if read != (edges.len(), edges.last().copied(), edges.get(j).copied(), edges.get(j).copied()) {
        return Err(format!("edges() gives {:?} by count, last, nth and skip for {:?}", read, edges));
    }
    if g.is_empty() != nodes.is_empty() {
        return Err(format!("is_empty() is {} with {} nodes", g.is_empty(), nodes.len()));
    }
    let mut pos = BTreeMap::new();
    for (i, &n) in nodes.iter().enumerate() {
        if pos.insert(n, i).is_some() {
            return Err(format!("node {} listed twice", n));
        }
        if !g.has_node(n) {
            return Err(format!("has_node({}) is false for a listed node", n));
        }
    }
    let mut expect: Vec<Vec<usize>> = vec![vec![]; nodes.len()];
    for &(a, b) in &edges {
        for (x, y) in [(a, b), (b, a)] {
            match pos.get(&x) {
                Some(&i) => expect[i].push(y),
                None => return Err(format!("edge ({},{}) has an end that is no node", a, b)),
            }
            if g.has_edge(x, y) != Ok(true) {
                return Err(format!("has_edge({},{}) is {:?} for a listed edge", x, y, g.has_edge(x, y)));
            }
        }
    }
    let mut adj = vec![];
    for (i, &n) in nodes.iter().enumerate() {
        let v: Vec<usize> = match g.neighbors(n) {
            Ok(it) => {
                let h = it.size_hint();
                let v: Vec<usize> = it.collect();
                if !hint(h, v.len()) {
                    return Err(format!("the size hint of neighbors({}) is {:?} for {}", n, h, v.len()));
                }
                v
            }
            Err(e) => return Err(format!("neighbors({}) failed: {:?}", n, e)),
        };
        if g.degree(n) != Ok(v.len()) {
            return Err(format!("degree({}) is {:?} but it has {} neighbours", n, g.degree(n), v.len()));
        }
        let (mut x, mut y) = (v.clone(), std::mem::take(&mut expect[i]));
        x.sort_unstable();
        y.sort_unstable();
        if x != y {
            return Err(format!("neighbours of {} are {:?} but its edges lead to {:?}", n, x, y));
        }
        adj.push(v);
    }
    // Pairs that are no edges: all of them in small graphs, a stride in large ones.
    let n = nodes.len();
    let stride = 1 + n * n / 4000;
    let mut k = 0;
    while k < n * n {
        let (i, j) = (k / n, k % n);
        k += stride;
        if i != j && !adj[i].contains(&nodes[j]) {
            if g.has_edge(nodes[i], nodes[j]) != Ok(false) {
                return Err(format!("has_edge({},{}) is {:?} for no edge", nodes[i], nodes[j], g.has_edge(nodes[i], nodes[j])));
            }
        }
    }
    Ok(Snap { nodes, edges, adj })
}
