//! C15: an operation over and over. What the library holds while it works is bounded, and
//! it keeps nothing once everything it returned is dropped.
//! C16: an operation on deep graphs. The stack it takes does not depend on them.
use std::panic::{catch_unwind, AssertUnwindSafe};

use gamma::graph::{DefaultGraph, Graph};
use gamma::matching::{greedy, maximum_matching, Pairing};
use gamma::selection::components;
use gamma::traversal::{BreadthFirst, DepthFirst};

use crate::exec::{Where, World};
use crate::graph::SimGraph;
use crate::rng::mix2;
use crate::scenario::{GCmd, Op, PCmd};
use crate::seam;
use crate::sim::{stat, At, Outcome};

/// Repetitions; many more if memory grew over these.
const REPS: usize = 12;
const MORE: usize = 416;

/// Bytes for nothing: small tables, boxed iterators, the machinery of panics.
const BASE: i64 = 6000;

/// Stack for every operation, however large the graph (the simulator's own part included).
const STACK_MOST: usize = 40 << 10;

struct Standing {
    graph: DefaultGraph,
    pairing: Pairing,
}

impl World<'_> {
    pub fn soak(&self, at: Where, op: &Op) {
        let key = mix2(mix2(self.scn.seed, 0x50AC), (at.c as u64) << 32 | at.o as u64);
        let start = match op {
            Op::Max { g, start, .. } => match self.start(&self.ctxs[*g], start) {
                Ok(s) => s,
                Err(_) => return,
            },
            _ => vec![],
        };
        let parts = op.parts();
        let unit = self.unit(op);
        seam::lib_forget();
        let mut standing = {
            let _lib = seam::Lib::new(true);
            Standing { graph: DefaultGraph::new(), pairing: Pairing::new() }
        };
        let mut cut = None;
        let mut held: Vec<i64> = Vec::with_capacity(MORE);
        let deep = self.scn.prop == "C16";
        let mut reps = if deep { 1 + (op.faulty() > 0) as usize } else { REPS };
        let mut k = 0;
        while k < reps {
            self.sim.begin(at.o, k, false);
            // Other graphs of the same size, or the same one.
            let mask = if key & 1 == 1 { mix2(key, k as u64) as usize } else { 0 };
            let sgs: Vec<SimGraph> = parts
                .iter()
                .filter_map(|o| o.graph())
                .map(|g| {
                    let mut sg = SimGraph::new(self.sim, &self.ctxs[g]);
                    sg.mask = mask;
                    sg
                })
                .collect();
            let mut sgs = sgs;
            if let (Some((sub, n, panic)), false) = (cut, k == 0) {
                let sg: &mut SimGraph = &mut sgs[sub];
                sg.cut = Some((n, panic));
            }
            let (before, _) = seam::lib_memory();
            let top = if deep { seam::stack_paint() } else { 0 };
            let bad = {
                let _lib = seam::Lib::new(true);
                let out = self.sim.run(|| self.once(op, &sgs, &start, &mut standing, mix2(key, 1 << 40 | k as u64)));
                match &out {
                    Outcome::Done(..) => {
                        self.sim.count(stat::OPS);
                        false
                    }
                    Outcome::Cut { .. } => {
                        self.sim.count(stat::CUT);
                        false
                    }
                    Outcome::Panicked(_, fired) => *fired == 0,
                    Outcome::Endless(_) => true,
                }
            };
            if bad {
                // For the other properties.
                break;
            }
            if deep {
                let used = seam::stack_used(top);
                self.share(used as f64 / STACK_MOST as f64);
                if used > STACK_MOST {
                    self.violate(at, "C16", "stack", format!("repetition {} of {:?} took more than {} bytes of stack", k, op, STACK_MOST));
                    break;
                }
            }
            let (now, peak) = seam::lib_memory();
            held.push(now);
            self.sim.observe(mix2(now as u64, peak as u64));
            self.share((peak - before) as f64 / unit as f64);
            if peak - before > unit && !deep {
                self.violate(at, "C15", "peak", format!("repetition {} of {:?} held {} bytes at a time, {} are plenty", k, op, peak - before, unit));
                break;
            }
            if k == 0 && op.faulty() > 0 {
                let sub = (key >> 32) as usize % sgs.len().max(1);
                if let Some(n) = sgs.get(sub).map(|g| g.accesses.get()).filter(|&n| n > 0) {
                    cut = Some((sub, 1 + (key >> 8) % n, key >> 2 & 1 == 1));
                }
            }
            k += 1;
            if k == REPS && !deep && held[REPS - 1] > held[3] {
                let cost: u64 = sgs.iter().map(|g| g.accesses.get()).sum();
                reps = if cost > 20_000 { 104 } else { MORE };
            }
        }
        if held.len() > REPS && !deep && held.len() == reps {
            let marks: Vec<i64> = [16, 8, 4, 2, 1].iter().map(|d| held[reps / d - 1]).collect();
            if marks.windows(2).all(|w| w[0] < w[1]) {
                let what = cut.map_or("".to_string(), |c| format!(", cut short at access {} of part {}", c.1, c.0));
                let m = format!("{:?}{}: bytes kept after {}, {}, {}, {} and {} repetitions: {:?}", op, what, reps / 16, reps / 8, reps / 4, reps / 2, reps, marks);
                self.violate(at, "C15", "leak", m);
            }
        }
        if let Some(h) = held.last() {
            if *h > unit {
                self.violate(at, "C15", "leak", format!("{} bytes kept after {} repetitions of {:?}, {} are plenty", h, held.len(), op, unit));
            }
        }
        let _lib = seam::Lib::new(true);
        drop(standing);
    }

    /// Plenty of memory for an operation.
    fn unit(&self, op: &Op) -> i64 {
        let size = |o: &Op| {
            let g = &self.ctxs[o.graph().unwrap()].plain;
            (g.nodes.len() as i64, g.edges.len() as i64)
        };
        match op {
            Op::Max { .. } => {
                let (n, m) = size(op);
                BASE + 100 * (n + 4) * (n + 2 * m + 4)
            }
            Op::GTx { cmds, .. } => {
                let n: usize = cmds
                    .iter()
                    .map(|c| match c {
                        GCmd::Edges(v) => 3 * v.len(),
                        GCmd::Adj(v) => v.iter().map(|x| x.len() + 1).sum(),
                        _ => 1,
                    })
                    .sum();
                BASE + 500 * n as i64
            }
            Op::PTx { cmds, .. } => {
                let n: usize = cmds
                    .iter()
                    .map(|c| match c {
                        PCmd::Augment(v) => v.len(),
                        _ => 2,
                    })
                    .sum();
                BASE + 500 * n as i64
            }
            _ => op
                .parts()
                .into_iter()
                .map(|o| {
                    let (n, m) = size(o);
                    let per = match o {
                        Op::Dfs { .. } | Op::Bfs { .. } => 150,
                        Op::Table { .. } => 250,
                        _ => 600,
                    };
                    BASE + per * (n + m)
                })
                .sum(),
        }
    }

    /// The operation once; everything it returns is dropped.
    fn once(&self, op: &Op, sgs: &[SimGraph], start: &[(usize, usize)], st: &mut Standing, fresh: u64) {
        let step = || {
            let _ = self.sim.point(At::Step);
        };
        let mask = sgs.first().map_or(0, |g| g.mask);
        match op {
            Op::Max { .. } => {
                let mut p = Pairing::new();
                for &(a, b) in start {
                    p.pair(a ^ mask, b ^ mask);
                }
                maximum_matching(&sgs[0], &mut p);
            }
            Op::Greedy { .. } => drop(greedy(&sgs[0])),
            Op::Table { root, .. } => {
                if let Ok(it) = DepthFirst::new(&sgs[0], root ^ mask) {
                    drop(it.into_table());
                }
            }
            Op::Build { root, .. } => {
                if let Ok(it) = DepthFirst::new(&sgs[0], root ^ mask) {
                    drop(DefaultGraph::try_from(it));
                }
            }
            Op::Dfs { .. } | Op::Bfs { .. } | Op::Comps { .. } => {
                if let Some((mut it, most)) = live(op, &sgs[0]) {
                    for _ in 0..most {
                        step();
                        if !it() {
                            break;
                        }
                    }
                }
            }
            Op::Weave { subs, order, .. } => {
                let mut all: Vec<_> = subs.iter().zip(sgs).map(|(o, g)| live(o, g)).collect();
                let mut i = 0;
                while all.iter().any(|l| l.is_some()) {
                    let t = order.get(i).copied().unwrap_or(i) % all.len();
                    i += 1;
                    if let Some((it, left)) = &mut all[t] {
                        step();
                        if *left == 0 || !it() {
                            all[t] = None;
                        } else {
                            *left -= 1;
                        }
                    }
                }
            }
            Op::GTx { cmds, .. } => {
                let mut known = None;
                for c in cmds {
                    step();
                    match c {
                        GCmd::Node(a) => {
                            known = Some(*a);
                            let _ = st.graph.add_node(*a);
                        }
                        GCmd::Edge(a, b) => {
                            let _ = st.graph.add_edge(*a, *b);
                        }
                        GCmd::Edges(v) => {
                            if let Ok(g) = DefaultGraph::try_from(v.clone()) {
                                st.graph = g;
                            }
                        }
                        GCmd::Adj(v) => {
                            if let Ok(g) = DefaultGraph::try_from(v.clone()) {
                                st.graph = g;
                            }
                        }
                    }
                }
                // Rejections and queries, each time with other ids.
                let (x, y) = (fresh as usize, mix2(fresh, 1) as usize);
                let g = &mut st.graph;
                if let Some(a) = known {
                    let _ = (g.add_edge(a, x), g.add_edge(y, a), g.add_node(a));
                    let _ = (g.has_edge(a, x), g.has_edge(y, a), g.degree(a));
                    drop(g.neighbors(a));
                }
                let _ = (g.add_edge(x, y), g.has_edge(x, y), g.has_node(x), g.degree(y));
                drop(g.neighbors(x));
                step();
                if self.scn.prop == "C16" {
                    let same: &DefaultGraph = g;
                    let _ = *same == *same;
                }
                let n = g.nodes().count() + g.edges().count() + g.order() + g.size();
                for id in g.nodes().take(3) {
                    for _ in BreadthFirst::new(g, id).into_iter().flatten().take(n) {}
                    for _ in DepthFirst::new(g, id).into_iter().flatten().take(n) {}
                }
            }
            Op::PTx { cmds, .. } => {
                let p = &mut st.pairing;
                let mut known = None;
                for c in cmds {
                    step();
                    // Rejections are panics.
                    let _ = catch_unwind(AssertUnwindSafe(|| match c {
                        PCmd::Pair(a, b) => {
                            known = Some(*a);
                            p.pair(*a, *b);
                        }
                        PCmd::Augment(v) => p.augment(v.clone()),
                        PCmd::Mate(a) => drop(p.mate(*a)),
                        PCmd::Has(a) => drop(p.has_node(*a)),
                        PCmd::Audit => drop(p.edges().count()),
                    }));
                }
                let (x, y) = (fresh as usize, mix2(fresh, 1) as usize);
                let _ = catch_unwind(AssertUnwindSafe(|| p.mate(x)));
                let _ = catch_unwind(AssertUnwindSafe(|| p.augment(vec![x])));
                let _ = (p.has_node(y), p.order());
                if let Some(a) = known {
                    // The same node with ever new mates: they come and go.
                    p.pair(a, y);
                    p.augment(vec![x, a]);
                }
            }
            Op::GRead { .. } => {}
        }
    }
}

/// A lazy operation, one step per call, and how many steps the client takes.
fn live<'a>(op: &Op, sg: &'a SimGraph<'a>) -> Option<(Box<dyn FnMut() -> bool + 'a>, usize)> {
    let cap = 2 * sg.ctx.plain.edges.len() + sg.ctx.plain.nodes.len() + 16;
    match op {
        Op::Dfs { root, take, .. } => {
            let mut it = DepthFirst::new(sg, root ^ sg.mask).ok()?;
            Some((Box::new(move || it.next().is_some()), take.unwrap_or(cap)))
        }
        Op::Bfs { root, take, .. } => {
            let mut it = BreadthFirst::new(sg, root ^ sg.mask).ok()?;
            Some((Box::new(move || it.next().is_some()), take.unwrap_or(cap)))
        }
        Op::Comps { take, .. } => {
            let mut it = components(sg);
            Some((Box::new(move || it.next().is_some()), take.unwrap_or(cap)))
        }
        _ => None,
    }
}
