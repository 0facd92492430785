//! Minimises a violating scenario; every candidate runs in a fresh process.
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

use crate::scenario::*;
use crate::sim::{Action, Key};

pub struct Shrinker<'a> {
    pub test: &'a dyn Fn(&[Scenario]) -> bool,
    pub until: Instant,
    pub tried: usize,
}

impl Shrinker<'_> {
    /// Time is up: candidates are no longer even made.
    fn late(&self) -> bool {
        Instant::now() > self.until
    }

    fn ok(&mut self, pre: &[Scenario], s: &Scenario) -> bool {
        if self.late() {
            return false;
        }
        self.tried += 1;
        let mut v = pre.to_vec();
        v.push(s.clone());
        (self.test)(&v)
    }

    pub fn run(&mut self, pre: Vec<Scenario>, s: Scenario) -> (Vec<Scenario>, Scenario) {
        let pre = self.prelude(pre, &s);
        let mut s = s;
        loop {
            let before = s.to_text();
            s = self.tape(&pre, s);
            s = self.clients(&pre, s);
            s = self.ops(&pre, s);
            s = self.attempts(&pre, s);
            s = self.commands(&pre, s);
            s = self.graphs(&pre, s);
            s = self.plain(&pre, s);
            if s.to_text() == before || self.late() {
                break;
            }
        }
        let pre = self.prelude(pre, &s);
        (pre, s)
    }

    fn prelude(&mut self, mut pre: Vec<Scenario>, s: &Scenario) -> Vec<Scenario> {
        let mut k = (pre.len() + 1) / 2;
        while k >= 1 && !pre.is_empty() && !self.late() {
            let mut i = 0;
            while i < pre.len() && !self.late() {
                let mut t = pre.clone();
                t.drain(i..(i + k).min(t.len()));
                if self.ok(&t, s) {
                    pre = t;
                } else {
                    i += k;
                }
            }
            k /= 2;
        }
        pre
    }

    fn tape(&mut self, pre: &[Scenario], mut s: Scenario) -> Scenario {
        let mut keys: Vec<Key> = s.tape.keys().copied().collect();
        let mut k = keys.len();
        while k >= 1 && !self.late() {
            let mut i = 0;
            while i < keys.len() && !self.late() {
                let mut t = s.clone();
                for x in &keys[i..(i + k).min(keys.len())] {
                    t.tape.remove(x);
                }
                if self.ok(pre, &t) {
                    s = t;
                    keys.drain(i..(i + k).min(keys.len()));
                } else {
                    i += k;
                }
            }
            k /= 2;
        }
        s
    }

    fn clients(&mut self, pre: &[Scenario], mut s: Scenario) -> Scenario {
        let mut c = 0;
        while c < s.clients.len() && s.clients.len() > 1 && !self.late() {
            let mut t = s.clone();
            t.clients.remove(c);
            let shift = |x: usize| if x > c { x - 1 } else { x };
            t.tape = s
                .tape
                .iter()
                .filter(|(k, a)| k.c != c && !matches!(a, Action::Switch(x) if *x == c))
                .map(|(k, a)| {
                    (
                        Key { c: shift(k.c), ..*k },
                        match a {
                            Action::Switch(x) => Action::Switch(shift(*x)),
                            a => *a,
                        },
                    )
                })
                .collect();
            if self.ok(pre, &t) {
                s = t;
            } else {
                c += 1;
            }
        }
        s
    }

    fn ops(&mut self, pre: &[Scenario], mut s: Scenario) -> Scenario {
        for c in 0..s.clients.len() {
            let mut o = 0;
            while o < s.clients[c].ops.len() && !self.late() {
                let mut t = s.clone();
                t.clients[c].ops.remove(o);
                t.tape = s
                    .tape
                    .iter()
                    .filter(|(k, _)| !(k.c == c && k.o == o))
                    .map(|(k, a)| (if k.c == c && k.o > o { Key { o: k.o - 1, ..*k } } else { *k }, *a))
                    .collect();
                if self.ok(pre, &t) {
                    s = t;
                } else {
                    o += 1;
                }
            }
        }
        s
    }

    fn attempts(&mut self, pre: &[Scenario], mut s: Scenario) -> Scenario {
        for c in 0..s.clients.len() {
            for o in 0..s.clients[c].ops.len() {
                let mut a = 0;
                while a < s.clients[c].ops[o].faulty() && !self.late() {
                    let mut t = s.clone();
                    *t.clients[c].ops[o].faulty_mut() -= 1;
                    t.tape = s
                        .tape
                        .iter()
                        .filter(|(k, _)| !(k.c == c && k.o == o && k.a == a))
                        .map(|(k, x)| (if k.c == c && k.o == o && k.a > a { Key { a: k.a - 1, ..*k } } else { *k }, *x))
                        .collect();
                    if self.ok(pre, &t) {
                        s = t;
                    } else {
                        a += 1;
                    }
                }
            }
        }
        s
    }

    /// Commands of transactions, starting pairs, initial lists.
    fn commands(&mut self, pre: &[Scenario], mut s: Scenario) -> Scenario {
        for c in 0..s.clients.len() {
            for o in 0..s.clients[c].ops.len() {
                let n = list_len(&s.clients[c].ops[o]);
                let mut k = n;
                while k >= 1 && !self.late() {
                    let mut i = 0;
                    while i < list_len(&s.clients[c].ops[o]) && !self.late() {
                        let mut t = s.clone();
                        list_cut(&mut t.clients[c].ops[o], i, k);
                        if self.ok(pre, &t) {
                            s = t;
                        } else {
                            i += k;
                        }
                    }
                    k /= 2;
                }
                if let Op::Weave { subs, order, .. } = s.clients[c].ops[o].clone() {
                    // One iterator alone, fewer iterators, round robin.
                    let mut cands: Vec<Op> = subs
                        .iter()
                        .map(|x| {
                            let mut x = x.clone();
                            *x.faulty_mut() = s.clients[c].ops[o].faulty();
                            x
                        })
                        .collect();
                    let faulty = s.clients[c].ops[o].faulty();
                    if subs.len() > 2 {
                        for i in 0..subs.len() {
                            let mut v = subs.clone();
                            v.remove(i);
                            let ord = order.iter().filter(|x| **x % subs.len() != i).map(|x| x % subs.len() - (x % subs.len() > i) as usize).collect();
                            cands.push(Op::Weave { faulty, subs: v, order: ord });
                        }
                    }
                    cands.push(Op::Weave { faulty, subs: subs.clone(), order: vec![] });
                    for x in cands {
                        if x == s.clients[c].ops[o] {
                            continue;
                        }
                        let mut t = s.clone();
                        t.clients[c].ops[o] = x;
                        if self.ok(pre, &t) {
                            s = t;
                            break;
                        }
                    }
                }
                if let Op::Dfs { take: Some(_), .. } | Op::Bfs { take: Some(_), .. } | Op::Comps { take: Some(_), .. } = &s.clients[c].ops[o] {
                    let mut t = s.clone();
                    if let Op::Dfs { take, .. } | Op::Bfs { take, .. } | Op::Comps { take, .. } = &mut t.clients[c].ops[o] {
                        *take = None;
                    }
                    if self.ok(pre, &t) {
                        s = t;
                    }
                }
            }
        }
        if s.init != Init::New {
            let mut t = s.clone();
            t.init = Init::New;
            if self.ok(pre, &t) {
                s = t;
            }
            let mut k = match &s.init {
                Init::Edges(e) => e.len() / 2,
                _ => 0,
            };
            while k >= 1 && !self.late() {
                let mut i = 0;
                while let Init::Edges(e) = &s.init {
                    if i >= e.len() || self.late() {
                        break;
                    }
                    let mut e = e.clone();
                    e.drain(i..(i + k).min(e.len()));
                    let mut t = s.clone();
                    t.init = Init::Edges(e);
                    if self.ok(pre, &t) {
                        s = t;
                    } else {
                        i += k;
                    }
                }
                k /= 2;
            }
        }
        s
    }

    fn graphs(&mut self, pre: &[Scenario], mut s: Scenario) -> Scenario {
        // Unused graphs.
        let mut g = 0;
        while g < s.graphs.len() && !self.late() {
            let used = s.clients.iter().flat_map(|c| &c.ops).flat_map(|o| o.parts()).any(|o| o.graph() == Some(g));
            if !used {
                let mut t = s.clone();
                t.graphs.remove(g);
                for o in t.clients.iter_mut().flat_map(|c| &mut c.ops).flat_map(|o| o.parts_mut()) {
                    if let Some(x) = o.graph_mut() {
                        if *x > g {
                            *x -= 1;
                        }
                    }
                }
                if self.ok(pre, &t) {
                    s = t;
                    continue;
                }
            }
            g += 1;
        }
        for g in 0..s.graphs.len() {
            // Nodes, in blocks.
            let mut k = s.graphs[g].nodes.len() / 2;
            while k >= 1 && !self.late() {
                let mut i = 0;
                while i < s.graphs[g].nodes.len() && !self.late() {
                    let end = (i + k).min(s.graphs[g].nodes.len());
                    let cut: BTreeSet<usize> = s.graphs[g].nodes[i..end].iter().copied().collect();
                    match without(&s, g, &cut, &BTreeSet::new()) {
                        Some(t) if self.ok(pre, &t) => s = t,
                        _ => i += k,
                    }
                }
                k /= 2;
            }
            // Edges, in blocks.
            let mut k = s.graphs[g].edges.len() / 2;
            while k >= 1 && !self.late() {
                let mut i = 0;
                while i < s.graphs[g].edges.len() && !self.late() {
                    let end = (i + k).min(s.graphs[g].edges.len());
                    let cut: BTreeSet<(usize, usize)> = s.graphs[g].edges[i..end].iter().copied().collect();
                    match without(&s, g, &BTreeSet::new(), &cut) {
                        Some(t) if self.ok(pre, &t) => s = t,
                        _ => i += k,
                    }
                }
                k /= 2;
            }
        }
        s
    }

    /// Simpler ids, orders and hash keys.
    fn plain(&mut self, pre: &[Scenario], mut s: Scenario) -> Scenario {
        for g in 0..s.graphs.len() {
            if s.graphs[g].adjseed != 0 {
                let mut t = s.clone();
                t.graphs[g].adjseed = 0;
                if self.ok(pre, &t) {
                    s = t;
                }
            }
        }
        let mut t = s.clone();
        for g in &mut t.graphs {
            g.hash = 1;
        }
        for c in &mut t.clients {
            c.hash = 1;
        }
        t.seed = 1;
        if t != s && self.ok(pre, &t) {
            s = t;
        }
        let mut ids = BTreeSet::new();
        for g in &s.graphs {
            ids.extend(g.nodes.iter().copied());
        }
        if !s.graphs.is_empty() {
            let map: BTreeMap<usize, usize> = ids.iter().enumerate().map(|(i, &x)| (x, i)).collect();
            let f = |x: usize| map.get(&x).copied().unwrap_or(x);
            let mut t = s.clone();
            for g in &mut t.graphs {
                g.nodes.iter_mut().for_each(|x| *x = f(*x));
                g.edges.iter_mut().for_each(|x| *x = (f(x.0), f(x.1)));
            }
            for o in t.clients.iter_mut().flat_map(|c| &mut c.ops).flat_map(|o| o.parts_mut()) {
                match o {
                    Op::Max { start: Start::Pairs(p), .. } => p.iter_mut().for_each(|x| *x = (f(x.0), f(x.1))),
                    Op::Dfs { root, .. } | Op::Bfs { root, .. } | Op::Table { root, .. } | Op::Build { root, .. } => *root = f(*root),
                    _ => {}
                }
            }
            if t != s && self.ok(pre, &t) {
                s = t;
            }
        }
        s
    }
}

fn list_len(o: &Op) -> usize {
    match o {
        Op::Max { start: Start::Pairs(p), .. } => p.len(),
        Op::GTx { cmds, .. } => cmds.len(),
        Op::GRead { qs, .. } => qs.len(),
        Op::PTx { cmds, .. } => cmds.len(),
        Op::Weave { order, .. } => order.len(),
        _ => 0,
    }
}

fn list_cut(o: &mut Op, i: usize, k: usize) {
    fn cut<T>(v: &mut Vec<T>, i: usize, k: usize) {
        let end = (i + k).min(v.len());
        v.drain(i..end);
    }
    match o {
        Op::Max { start: Start::Pairs(p), .. } => cut(p, i, k),
        Op::GTx { cmds, .. } => cut(cmds, i, k),
        Op::GRead { qs, .. } => cut(qs, i, k),
        Op::PTx { cmds, .. } => cut(cmds, i, k),
        Op::Weave { order, .. } => cut(order, i, k),
        _ => {}
    }
}

/// The scenario with nodes and edges of graph `g` removed, if it stays meaningful.
fn without(s: &Scenario, g: usize, nodes: &BTreeSet<usize>, edges: &BTreeSet<(usize, usize)>) -> Option<Scenario> {
    let mut t = s.clone();
    t.graphs[g].nodes.retain(|n| !nodes.contains(n));
    t.graphs[g].edges.retain(|e| !edges.contains(e) && !nodes.contains(&e.0) && !nodes.contains(&e.1));
    let have: BTreeSet<(usize, usize)> = t.graphs[g].edges.iter().flat_map(|&(a, b)| [(a, b), (b, a)]).collect();
    for o in t.clients.iter_mut().flat_map(|c| &mut c.ops).flat_map(|o| o.parts_mut()) {
        if o.graph() != Some(g) {
            continue;
        }
        match o {
            Op::Max { start: Start::Pairs(p), .. } => p.retain(|e| have.contains(e)),
            Op::Dfs { root, .. } | Op::Bfs { root, .. } => {
                if nodes.contains(root) {
                    return None;
                }
            }
            // These two speak about roots with a neighbour.
            Op::Table { root, .. } | Op::Build { root, .. } => {
                if nodes.contains(root) || (t.graphs[g].nodes.contains(root) && !have.iter().any(|e| e.0 == *root)) {
                    return None;
                }
            }
            _ => {}
        }
    }
    Some(t)
}

impl PartialEq for Scenario {
    fn eq(&self, o: &Self) -> bool {
        self.to_text() == o.to_text()
    }
}

pub fn limit(secs: u64) -> Instant {
    Instant::now() + Duration::from_secs(secs)
}
