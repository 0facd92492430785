//! Reference oracles, independent of the library.
use std::collections::{BTreeMap, BTreeSet, VecDeque};

use gamma::graph::DefaultGraph;
use gamma::matching::Pairing;

use crate::graph::{audit, Plain, Snap};

pub type StepT = (usize, usize, bool);
pub type Fail = (&'static str, String);

/// Depth-first steps: recursion in neighbour order; every edge reported once, from the
/// end whose neighbour list is scanned first.
pub fn dfs(g: &Plain, root: usize) -> Vec<StepT> {
    let mut out = vec![];
    let mut seen = BTreeSet::from([root]);
    let mut done: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut path = vec![(root, 0usize)];
    while let Some((u, i)) = path.pop() {
        let nb = g.nbrs(u);
        if i == nb.len() {
            continue;
        }
        path.push((u, i + 1));
        let v = nb[i];
        if !done.insert((u.min(v), u.max(v))) {
            continue;
        }
        let cut = !seen.insert(v);
        out.push((u, v, cut));
        if !cut {
            path.push((v, 0));
        }
    }
    out
}

/// Breadth-first steps: sources in the order they are reached, each edge from the end
/// reached first.
pub fn bfs(g: &Plain, root: usize) -> Vec<StepT> {
    let mut out = vec![];
    let mut rank = BTreeMap::from([(root, 0usize)]);
    let mut queue = VecDeque::from([root]);
    while let Some(u) = queue.pop_front() {
        for &v in g.nbrs(u) {
            match rank.get(&v) {
                None => {
                    rank.insert(v, rank.len());
                    queue.push_back(v);
                    out.push((u, v, false));
                }
                Some(r) if *r > rank[&u] => out.push((u, v, true)),
                _ => {}
            }
        }
    }
    out
}

pub fn component(g: &Plain, root: usize) -> BTreeSet<usize> {
    let mut seen = BTreeSet::from([root]);
    let mut todo = vec![root];
    while let Some(u) = todo.pop() {
        for &v in g.nbrs(u) {
            if seen.insert(v) {
                todo.push(v);
            }
        }
    }
    seen
}

fn und(a: usize, b: usize) -> (usize, usize) {
    (a.min(b), a.max(b))
}

/// Checks a traversal (complete, or a prefix) against the statement, then exactly.
pub fn check_steps(g: &Plain, root: usize, got: &[StepT], complete: bool, deep: bool) -> Result<(), Fail> {
    let comp = component(g, root);
    let mut seen = BTreeSet::from([root]);
    let mut done = BTreeSet::new();
    for (i, &(s, t, cut)) in got.iter().enumerate() {
        if !g.linked(s, t) {
            return Err(("wrong-steps", format!("step {} ({},{}) is no edge", i, s, t)));
        }
        if !done.insert(und(s, t)) {
            return Err(("wrong-steps", format!("step {} reports edge ({},{}) again", i, s, t)));
        }
        if !seen.contains(&s) {
            return Err(("wrong-steps", format!("step {} leaves from {} before it is reached", i, s)));
        }
        if cut == seen.insert(t) {
            return Err(("wrong-steps", format!("step {} ({},{}) has cut={} but the target was {}reached before", i, s, t, cut, if cut { "not " } else { "" })));
        }
    }
    if complete {
        if let Some(n) = comp.iter().find(|n| !seen.contains(n)) {
            return Err(("wrong-steps", format!("node {} of the root's component is never reached", n)));
        }
        let want = g.edges.iter().filter(|e| comp.contains(&e.0)).count();
        if done.len() != want {
            let e = g.edges.iter().find(|e| comp.contains(&e.0) && !done.contains(&und(e.0, e.1)));
            return Err(("wrong-steps", format!("edge {:?} is never reported", e)));
        }
    }
    let want = if deep { dfs(g, root) } else { bfs(g, root) };
    for i in 0..got.len() {
        if i >= want.len() || got[i] != want[i] {
            return Err(("wrong-steps", format!("step {} is {:?}, should be {:?}", i, got[i], want.get(i))));
        }
    }
    Ok(())
}

/// The components, in the order of their first nodes.
pub fn partition(g: &Plain) -> Vec<BTreeSet<usize>> {
    let mut left: BTreeSet<usize> = BTreeSet::new();
    let mut order = vec![];
    for &n in &g.nodes {
        if left.insert(n) {
            let c = component(g, n);
            left.extend(c.iter().copied());
            order.push(c);
        }
    }
    order
}

/// Components taken so far, audited; `complete` if the iterator ended.
pub fn check_components(g: &Plain, got: &[Result<Snap, String>], complete: bool) -> Result<(), Fail> {
    let parts = Parts::new(g);
    for (i, c) in got.iter().enumerate() {
        parts.check(i, c)?;
    }
    if complete && got.len() != parts.nodes.len() {
        return Err(("wrong-components", format!("{} components, should be {}", got.len(), parts.nodes.len())));
    }
    Ok(())
}

/// What the components of a graph are.
pub struct Parts {
    pub nodes: Vec<BTreeSet<usize>>,
    edges: Vec<BTreeSet<(usize, usize)>>,
}

impl Parts {
    pub fn new(g: &Plain) -> Parts {
        let nodes = partition(g);
        let mut place = BTreeMap::new();
        for (i, c) in nodes.iter().enumerate() {
            place.extend(c.iter().map(|&n| (n, i)));
        }
        let mut edges: Vec<BTreeSet<(usize, usize)>> = vec![BTreeSet::new(); nodes.len()];
        for &(a, b) in &g.edges {
            edges[place[&a]].insert(und(a, b));
        }
        Parts { nodes, edges }
    }

    pub fn check(&self, i: usize, c: &Result<Snap, String>) -> Result<(), Fail> {
        let c = c.as_ref().map_err(|e| ("wrong-components", format!("component {} is malformed: {}", i, e)))?;
        let nodes: BTreeSet<usize> = c.nodes.iter().copied().collect();
        let Some(want) = self.nodes.get(i) else {
            return Err(("wrong-components", format!("surplus component {:?}", nodes)));
        };
        if nodes != *want {
            return Err(("wrong-components", format!("component {} has nodes {:?}, should have {:?}", i, nodes, want)));
        }
        let edges: BTreeSet<_> = c.edges.iter().map(|&(a, b)| und(a, b)).collect();
        let should = &self.edges[i];
        if edges != *should || c.edges.len() != edges.len() {
            return Err(("wrong-components", format!("component {} has edges {:?}, should have {:?}", i, edges, should)));
        }
        Ok(())
    }
}

/// Every view of a pairing agrees and is a matching of edges of the graph.
pub fn check_pairing(g: &Plain, p: &Pairing) -> Result<BTreeSet<(usize, usize)>, Fail> {
    let set = pairing_views(p, g.nodes.iter().copied())?;
    for &(a, b) in &set {
        if !g.linked(a, b) {
            return Err(("bad-matching", format!("pair ({},{}) is no edge of the graph", a, b)));
        }
    }
    Ok(set)
}

/// The pair list, if order, membership and mate of the pairing agree with it.
pub fn pairing_views(p: &Pairing, ids: impl Iterator<Item = usize>) -> Result<BTreeSet<(usize, usize)>, Fail> {
    let mut set = BTreeSet::new();
    let mut mate = BTreeMap::new();
    for (a, b) in p.edges() {
        if a == b || !set.insert(und(a, b)) {
            return Err(("bad-matching", format!("pair ({},{}) listed twice or degenerate", a, b)));
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(z) = mate.insert(x, y) {
                return Err(("bad-matching", format!("node {} is paired with {} and {}", x, y, z)));
            }
        }
    }
    if !crate::graph::hint(p.edges().size_hint(), set.len()) {
        return Err(("bad-matching", format!("the size hint of edges() is {:?} for {} pairs", p.edges().size_hint(), set.len())));
    }
    let k = set.len() / 2;
    let read = (p.edges().count(), p.edges().last(), p.edges().nth(k), p.edges().skip(k).next());
    if read.0 != set.len() || [read.1, read.2, read.3].iter().any(|e| e.map_or(!set.is_empty(), |(a, b)| !set.contains(&und(a, b)))) {
        return Err(("bad-matching", format!("edges() gives {:?} by count, last, nth and skip for {:?}", read, set)));
    }
    if p.order() != 2 * set.len() {
        return Err(("bad-matching", format!("order() is {} with {} pairs {:?}", p.order(), set.len(), set)));
    }
    let mut all: BTreeSet<usize> = ids.collect();
    all.extend(mate.keys());
    for &n in &all {
        if p.has_node(n) != mate.contains_key(&n) {
            return Err(("bad-matching", format!("has_node({}) is {}, pairs {:?}", n, p.has_node(n), set)));
        }
    }
    for (&x, &y) in &mate {
        if p.mate(x) != y {
            return Err(("bad-matching", format!("mate({}) is {}, pairs {:?}", x, p.mate(x), set)));
        }
    }
    Ok(set)
}

pub fn check_maximal(g: &Plain, set: &BTreeSet<(usize, usize)>) -> Result<(), Fail> {
    let used: BTreeSet<usize> = set.iter().flat_map(|e| [e.0, e.1]).collect();
    for e in &g.edges {
        if !used.contains(&e.0) && !used.contains(&e.1) {
            return Err(("not-maximal", format!("edge {:?} has both ends unmatched by {:?}", e, set)));
        }
    }
    Ok(())
}

/// Edmonds' algorithm, O(V^3), the textbook array version.
pub fn max_matching(adj: &[Vec<usize>]) -> Vec<Option<usize>> {
    // Component by component: the search's cost is that of the component.
    let mut out = vec![None; adj.len()];
    let mut at = vec![usize::MAX; adj.len()];
    for root in 0..adj.len() {
        if at[root] != usize::MAX {
            continue;
        }
        let mut part = vec![root];
        at[root] = 0;
        let mut i = 0;
        while i < part.len() {
            for &x in &adj[part[i]] {
                if at[x] == usize::MAX {
                    at[x] = part.len();
                    part.push(x);
                }
            }
            i += 1;
        }
        let sub: Vec<Vec<usize>> = part.iter().map(|&x| adj[x].iter().map(|&y| at[y]).collect()).collect();
        for (i, m) in max_matching_connected(&sub).into_iter().enumerate() {
            out[part[i]] = m.map(|m| part[m]);
        }
    }
    out
}

fn max_matching_connected(adj: &[Vec<usize>]) -> Vec<Option<usize>> {
    let n = adj.len();
    const NO: usize = usize::MAX;
    let mut mate = vec![NO; n];
    // A greedy start shortens the search; it does not change the result's size.
    for u in 0..n {
        if mate[u] == NO {
            if let Some(&v) = adj[u].iter().find(|&&v| mate[v] == NO) {
                mate[u] = v;
                mate[v] = u;
            }
        }
    }
    for root in 0..n {
        if mate[root] != NO {
            continue;
        }
        let mut used = vec![false; n];
        let mut par = vec![NO; n];
        let mut base: Vec<usize> = (0..n).collect();
        used[root] = true;
        let mut q = VecDeque::from([root]);
        let mut end = NO;
        'search: while let Some(v) = q.pop_front() {
            for &to in &adj[v] {
                if base[v] == base[to] || mate[v] == to {
                    continue;
                }
                if to == root || (mate[to] != NO && par[mate[to]] != NO) {
                    let b = {
                        let mut seen = vec![false; n];
                        let mut a = v;
                        loop {
                            a = base[a];
                            seen[a] = true;
                            if mate[a] == NO {
                                break;
                            }
                            a = par[mate[a]];
                        }
                        let mut c = to;
                        loop {
                            c = base[c];
                            if seen[c] {
                                break c;
                            }
                            c = par[mate[c]];
                        }
                    };
                    let mut inb = vec![false; n];
                    for (start, other) in [(v, to), (to, v)] {
                        let (mut x, mut child) = (start, other);
                        while base[x] != b {
                            inb[base[x]] = true;
                            inb[base[mate[x]]] = true;
                            par[x] = child;
                            child = mate[x];
                            x = par[mate[x]];
                        }
                    }
                    for i in 0..n {
                        if inb[base[i]] {
                            base[i] = b;
                            if !used[i] {
                                used[i] = true;
                                q.push_back(i);
                            }
                        }
                    }
                } else if par[to] == NO {
                    par[to] = v;
                    if mate[to] == NO {
                        end = to;
                        break 'search;
                    }
                    used[mate[to]] = true;
                    q.push_back(mate[to]);
                }
            }
        }
        let mut v = end;
        while v != NO {
            let pv = par[v];
            let next = mate[pv];
            mate[v] = pv;
            mate[pv] = v;
            v = next;
        }
    }
    mate.into_iter().map(|m| if m == NO { None } else { Some(m) }).collect()
}

pub fn max_matching_size(adj: &[Vec<usize>]) -> usize {
    max_matching(adj).iter().flatten().count() / 2
}

/// Exact size by dynamic programming over subsets (n <= 16): checks the above.
pub fn max_matching_dp(adj: &[Vec<usize>]) -> usize {
    let n = adj.len();
    let mask: Vec<usize> = adj.iter().map(|v| v.iter().fold(0, |m, &x| m | 1 << x)).collect();
    let mut dp = vec![0usize; 1 << n];
    for m in 1..1usize << n {
        let v = m.trailing_zeros() as usize;
        let mut best = dp[m & !(1 << v)];
        let mut t = mask[v] & m;
        while t != 0 {
            let w = t.trailing_zeros() as usize;
            t &= t - 1;
            best = best.max(1 + dp[m & !(1 << v) & !(1 << w)]);
        }
        dp[m] = best;
    }
    dp[(1 << n) - 1]
}

/// A graph built from a depth-first traversal, against the reference steps.
pub fn check_built(g: &Plain, root: usize, built: &Result<Snap, String>) -> Result<(), Fail> {
    let s = built.as_ref().map_err(|e| ("wrong-graph", e.clone()))?;
    let steps = dfs(g, root);
    let mut want = Plain::default();
    want.add_node(root).unwrap();
    for &(a, b, cut) in &steps {
        if !cut {
            want.add_node(b).unwrap();
        }
        want.add_edge(a, b).unwrap();
    }
    if s.nodes != want.nodes {
        return Err(("wrong-graph", format!("nodes {:?}, should be {:?}", s.nodes, want.nodes)));
    }
    if s.edges != want.edges {
        return Err(("wrong-graph", format!("edges {:?}, should be {:?}", s.edges, want.edges)));
    }
    if s.adj != want.adj {
        return Err(("wrong-graph", format!("neighbours {:?}, should be {:?}", s.adj, want.adj)));
    }
    Ok(())
}

pub fn check_table(g: &Plain, root: usize, nodes: &[usize], edges: &[(usize, usize)]) -> Result<(), Fail> {
    let steps = dfs(g, root);
    let mut n = vec![root];
    n.extend(steps.iter().filter(|s| !s.2).map(|s| s.1));
    let e: Vec<_> = steps.iter().map(|s| (s.0, s.1)).collect();
    if nodes != n {
        return Err(("wrong-table", format!("nodes {:?}, should be {:?}", nodes, n)));
    }
    if edges != e {
        return Err(("wrong-table", format!("edges {:?}, should be {:?}", edges, e)));
    }
    Ok(())
}

/// A shared graph against the model, through every query.
pub fn check_graph(m: &Plain, g: &DefaultGraph) -> Result<(), Fail> {
    let s = audit(g).map_err(|e| ("wrong-state", e))?;
    if s.nodes != m.nodes {
        return Err(("wrong-state", format!("nodes {:?}, should be {:?}", s.nodes, m.nodes)));
    }
    if s.edges != m.edges {
        return Err(("wrong-state", format!("edges {:?}, should be {:?}", s.edges, m.edges)));
    }
    if s.adj != m.adj {
        return Err(("wrong-state", format!("neighbours {:?}, should be {:?}", s.adj, m.adj)));
    }
    Ok(())
}

/// The pairing model: pairing two nodes frees their previous mates.
#[derive(Clone, Default, Debug)]
pub struct Pairs(pub BTreeMap<usize, usize>);

impl Pairs {
    pub fn pair(&mut self, a: usize, b: usize) {
        for x in [a, b] {
            if let Some(y) = self.0.remove(&x) {
                self.0.remove(&y);
            }
        }
        self.0.insert(a, b);
        self.0.insert(b, a);
    }
    pub fn set(&self) -> BTreeSet<(usize, usize)> {
        self.0.iter().filter(|p| p.0 < p.1).map(|(a, b)| (*a, *b)).collect()
    }
}
