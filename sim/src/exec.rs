//! Executes one scenario under the simulator and judges it.
use std::collections::hash_map::DefaultHasher;
use std::cell::Cell;
use std::collections::BTreeSet;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Mutex, RwLock};

use gamma::graph::{DefaultGraph, Error, Graph};
use gamma::matching::{greedy, maximum_matching, Pairing};
use gamma::selection::components;
use gamma::traversal::{BreadthFirst, DepthFirst, Step};

use crate::graph::{audit, Ctx, Inner, Plain, SimGraph, Snap};
use crate::model::{self, Fail, Pairs, StepT};
use crate::rng::{mix2, Rng};
use crate::scenario::*;
use crate::seam;
use crate::sim::{panic_text, stat, At, Mode, Outcome, Sim, Solo};

/// What a thread gets by default.
pub const STACK: usize = 2 << 20;

/// Largest graph a nested maximum matching is run on.
const NEST_MAX: usize = 24;

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub struct RunResult {
    pub violation: Option<Violation>,
    pub inconclusive: Option<String>,
    pub digest: u64,
    pub sched: u64,
    pub nontrivial: bool,
    pub stats: [u64; crate::sim::N],
    pub sim_ns: u64,
    pub log: Vec<String>,
    pub allocs: u64,
    pub budget: u64,
}

/// What an operation returned.
#[derive(Clone, Debug, Hash, PartialEq)]
enum Val {
    Refused(usize, String),
    Steps { steps: Vec<StepT>, ended: bool },
    Table(Vec<usize>, Vec<(usize, usize)>),
    Built(Result<SnapH, String>),
    Comps { got: Vec<Result<SnapH, String>>, ended: bool },
    Matching(Vec<(usize, usize)>),
    TooMuch,
    /// What an iterator said about how much was left was wrong.
    Misled(String),
    /// Some taken one by one, the rest not.
    Rest(Box<Val>, Rest),
}

/// What became of the rest of an iterator.
#[derive(Clone, Debug, PartialEq, Hash)]
enum Rest {
    Count(usize),
    Last(Option<Box<Val>>),
    /// This one of what was left, and how many came after it.
    Nth(usize, Option<Box<Val>>, usize),
    Folded(Vec<Val>),
}

impl Rest {
    fn of<I: Iterator>(mut it: I, x: u64, one: impl Fn(I::Item) -> Val) -> Rest {
        match x % 4 {
            0 => Rest::Count(it.count()),
            1 => Rest::Last(it.last().map(|v| Box::new(one(v)))),
            2 => {
                let k = (x >> 2) as usize % 6;
                let v = it.nth(k).map(|v| Box::new(one(v)));
                Rest::Nth(k, v, it.count())
            }
            _ => Rest::Folded(it.fold(vec![], |mut v, x| {
                v.push(one(x));
                v
            })),
        }
    }

    /// Against what should be left: how many, and whether this is the i-th of them.
    fn judge(&self, left: usize, is: impl Fn(usize, &Val) -> Result<(), Fail>) -> Result<(), Fail> {
        let wrong = |what: String| Err(("wrong-rest", format!("{}, {} should be left", what, left)));
        match self {
            Rest::Count(n) if *n != left => wrong(format!("count() of the rest is {}", n)),
            Rest::Last(v) if v.is_some() != (left > 0) => wrong(format!("last() of the rest is {:?}", v)),
            Rest::Last(Some(v)) => is(left - 1, v),
            Rest::Nth(k, v, after) if v.is_some() != (left > *k) || *after != left.saturating_sub(k + 1) => wrong(format!("nth({}) of the rest is {:?}, and {} after it", k, v, after)),
            Rest::Nth(k, Some(v), _) => is(*k, v),
            Rest::Folded(v) if v.len() != left => wrong(format!("fold() over the rest gives {:?}", v)),
            Rest::Folded(v) => v.iter().enumerate().try_for_each(|(i, v)| is(i, v)),
            _ => Ok(()),
        }
    }
}

/// What an iterator says, before each step, about how many are left.
struct Hints(Vec<(usize, Option<usize>)>);

impl Hints {
    fn ask(&mut self, it: &impl Iterator) {
        self.0.push(it.size_hint());
    }
    /// `v` as the answer, unless the hints were wrong for it.
    fn judge(self, total: usize, ended: bool, v: Val) -> Val {
        for (k, (lo, hi)) in self.0.into_iter().enumerate() {
            let left = total.saturating_sub(k);
            if (ended && lo > left) || hi.map_or(false, |h| h < left) {
                return Val::Misled(format!("after {} steps size_hint() is {:?}, {} {} came", k, (lo, hi), if ended { "exactly" } else { "at least" }, left));
            }
        }
        v
    }
}

#[derive(Clone, Debug, PartialEq)]
struct SnapH(Snap);
impl Hash for SnapH {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.nodes.hash(h);
        self.0.edges.hash(h);
        self.0.adj.hash(h);
    }
}

fn err_id(e: &Error) -> (usize, String) {
    match e {
        Error::MissingNode(n) => (*n, format!("{:?}", e)),
        _ => (usize::MAX, format!("{:?}", e)),
    }
}

fn hash_of<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// The graph an edge list describes, or why it is refused.
fn from_edges(e: &[(usize, usize)]) -> Result<Plain, Vec<Error>> {
    let mut m = Plain::default();
    for &(a, b) in e {
        for x in [a, b] {
            if !m.has(x) {
                m.add_node(x).unwrap();
            }
        }
        m.add_edge(a, b).map_err(|e| vec![e])?;
    }
    Ok(m)
}

/// The graph an adjacency list describes, or the reasons to refuse it.
fn from_adj(a: &[Vec<usize>]) -> Result<Plain, Vec<Error>> {
    let mut m = Plain::default();
    let mut bad = vec![];
    for (s, v) in a.iter().enumerate() {
        m.add_node(s).unwrap();
        for (i, &t) in v.iter().enumerate() {
            if t >= a.len() {
                bad.push(Error::MissingNode(t));
                continue;
            }
            if v[i + 1..].contains(&t) {
                bad.push(Error::DuplicateEdge(s, t));
            }
            if !a[t].contains(&s) {
                bad.push(Error::MissingEdge(t, s));
            }
            if s < t {
                m.edges.push((s, t));
            }
        }
    }
    m.adj = a.to_vec();
    if bad.is_empty() {
        Ok(m)
    } else {
        Err(bad)
    }
}

/// Compares a graph with another one: the same built in another order, or one that
/// differs by a node or an edge.
fn equality(g: &DefaultGraph, m: &Plain, x: u64) -> Result<(), String> {
    let mut r = Rng::new(x);
    let (mut nodes, mut edges) = (m.nodes.clone(), m.edges.clone());
    let other = |r: &mut Rng| {
        let mut x = r.below(m.nodes.len() + 2);
        while m.has(x) {
            x = r.next() as usize;
        }
        x
    };
    let kind = r.below(6);
    match kind {
        2 if !edges.is_empty() => {
            let i = r.below(edges.len());
            edges.remove(i);
        }
        3 => nodes.push(other(&mut r)),
        4 if !nodes.is_empty() => {
            let (i, y) = (r.below(nodes.len()), other(&mut r));
            let x = std::mem::replace(&mut nodes[i], y);
            for e in &mut edges {
                *e = (if e.0 == x { y } else { e.0 }, if e.1 == x { y } else { e.1 });
            }
        }
        5 if !edges.is_empty() => {
            let i = r.below(edges.len());
            for _ in 0..20 {
                let (a, b) = (*r.pick(&nodes), *r.pick(&nodes));
                if a != b && !m.linked(a, b) {
                    edges[i] = (a, b);
                    break;
                }
            }
        }
        _ => {}
    }
    let alike = nodes.len() == m.nodes.len()
        && nodes.iter().all(|&n| m.has(n))
        && edges.len() == m.edges.len()
        && edges.iter().all(|&(a, b)| m.linked(a, b));
    r.shuffle(&mut nodes);
    r.shuffle(&mut edges);
    let mut h = DefaultGraph::new();
    for n in nodes {
        h.add_node(n).map_err(|e| format!("building the other graph: {:?}", e))?;
    }
    for (a, b) in edges {
        let (a, b) = if r.pct(50) { (a, b) } else { (b, a) };
        h.add_edge(a, b).map_err(|e| format!("building the other graph: {:?}", e))?;
    }
    let got = (*g == h, h == *g, *g == *g);
    if got == (alike, alike, true) {
        Ok(())
    } else {
        Err(format!("g == h, h == g, g == g are {:?}; g and h are alike: {}; h is {:?} {:?}", got, alike, h.nodes().collect::<Vec<_>>(), h.edges().collect::<Vec<_>>()))
    }
}

pub struct World<'a> {
    pub scn: &'a Scenario,
    pub sim: &'a Sim,
    pub ctxs: &'a [Ctx],
    shared: RwLock<DefaultGraph>,
    gmodel: Mutex<Plain>,
    pairing: RwLock<Pairing>,
    pmodel: Mutex<Pairs>,
    viol: Mutex<Option<Violation>>,
    inconclusive: Mutex<Option<String>>,
    share: Mutex<f64>,
}

#[derive(Clone, Copy)]
pub struct Where {
    pub c: usize,
    pub o: usize,
}

fn brief(s: String) -> String {
    match s.char_indices().nth(3000) {
        Some((i, _)) => format!("{}... ({} characters)", &s[..i], s.len()),
        None => s,
    }
}

/// Simulated work (allocations) a scenario may take: far above what any run needs.
pub fn budget(s: &Scenario) -> u64 {
    if s.prop == "C15" {
        return 500 * work(s);
    }
    work(s)
}

/// More accesses to the graph than this are taken for an operation that does not end:
/// far above what C14 allows.
fn limit(op: &Op, g: &Plain) -> u64 {
    let (n, m) = (g.nodes.len() as u64, g.edges.len() as u64);
    let all = 2 * m + 4 * n;
    let most = match op {
        Op::Max { .. } => (n / 2 + 1) * (all + g.adj.iter().map(|v| (v.len() * v.len()) as u64).sum::<u64>()),
        _ => n + all,
    };
    20 * most + 20_000
}

fn work(s: &Scenario) -> u64 {
    let mut b = 1_000_000u64;
    let shared = match &s.init {
        Init::New => 0,
        Init::Edges(e) => 3 * e.len() as u64,
        Init::Adj(a) => 2 * a.iter().map(|v| 1 + v.len() as u64).sum::<u64>(),
    };
    for c in &s.clients {
        for o in &c.ops {
            b += match o {
                Op::Max { g, faulty, .. } => {
                    let (n, m) = (s.graphs[*g].nodes.len() as u64 + 4, s.graphs[*g].edges.len() as u64);
                    120 * n * n * (n + m) * (2 + *faulty as u64)
                }
                Op::GTx { cmds, .. } => (20_000 + 40 * shared) * (cmds.len() as u64 + 1),
                Op::GRead { qs, .. } => (100_000 + 400 * shared) * (qs.len() as u64 + 1),
                Op::PTx { cmds, .. } => 20_000 * (cmds.len() as u64 + 1),
                Op::Weave { faulty, .. } => o
                    .parts()
                    .iter()
                    .map(|p| {
                        let g = &s.graphs[p.graph().unwrap()];
                        12_000 * (g.nodes.len() as u64 + g.edges.len() as u64 + 10) * (2 + *faulty as u64)
                    })
                    .sum(),
                _ => {
                    let g = o.graph().unwrap();
                    let (n, m) = (s.graphs[g].nodes.len() as u64, s.graphs[g].edges.len() as u64);
                    12_000 * (n + m + 10) * (2 + o.faulty() as u64)
                }
            };
        }
    }
    b
}

pub fn run(scn: &Scenario, mode: Mode, log: bool) -> RunResult {
    let n = scn.clients.len();
    let sim = Sim::new(n, mode, log);
    let want_best = matches!(scn.prop.as_str(), "C01" | "C10");
    let mut inconclusive = None;
    seam::CLOCK_NS.store(0, std::sync::atomic::Ordering::Relaxed);
    seam::arm(u64::MAX / 2);
    let built = sim.outside(mix2(scn.seed, 77), || {
        catch_unwind(AssertUnwindSafe(|| -> Result<(Vec<Ctx>, DefaultGraph, Plain), String> {
            let uses_max: BTreeSet<usize> = scn.clients.iter().flat_map(|c| &c.ops).filter(|o| matches!(o, Op::Max { .. })).filter_map(|o| o.graph()).collect();
            let mut v = vec![];
            for (i, s) in scn.graphs.iter().enumerate() {
                v.push(Ctx::build(s, want_best && (uses_max.contains(&i) || s.nodes.len() <= NEST_MAX))?);
            }
            let mut m = Plain::default();
            let g = match &scn.init {
                Init::New => DefaultGraph::new(),
                Init::Edges(e) => {
                    m = from_edges(e).expect("initial list is well-formed");
                    DefaultGraph::try_from(e.clone()).map_err(|x| format!("INIT edge list refused: {:?}", x))?
                }
                Init::Adj(a) => {
                    m = from_adj(a).expect("initial list is well-formed");
                    DefaultGraph::try_from(a.clone()).map_err(|x| format!("INIT adjacency refused: {:?}", x))?
                }
            };
            Ok((v, g, m))
        }))
        .unwrap_or_else(|e| Err(format!("INIT panicked: {}", panic_text(&*e))))
    });
    let mut viol = None;
    let (ctxs, shared, gmodel) = match built {
        Ok(x) => x,
        Err(e) => {
            if e.starts_with("INIT") && scn.prop == "C08" {
                viol = Some(Violation { class: "init".into(), msg: e.clone() });
            }
            inconclusive = Some(e);
            (vec![], DefaultGraph::new(), Plain::default())
        }
    };
    let before = seam::allocs();
    let budget = budget(scn);
    let w = World {
        scn,
        sim: &sim,
        ctxs: &ctxs,
        shared: RwLock::new(shared),
        gmodel: Mutex::new(gmodel),
        pairing: RwLock::new(Pairing::new()),
        pmodel: Mutex::new(Pairs::default()),
        viol: Mutex::new(viol),
        inconclusive: Mutex::new(inconclusive.clone()),
        share: Mutex::new(0.0),
    };
    if inconclusive.is_none() && n > 0 {
        seam::arm(budget);
        std::thread::scope(|s| {
            let mut hs = vec![];
            for c in 0..n {
                let name = seam::thread_name(w.scn.clients[c].hash);
                let w = Solo(&w);
                let h = std::thread::Builder::new()
                    .name(name)
                    .stack_size(STACK)
                    .spawn_scoped(s, move || {
                        let w = w.take();
                        seam::enter_thread(w.scn.clients[c].hash, true);
                        w.sim.join(c);
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            for o in 0..w.scn.clients[c].ops.len() {
                                w.op(Where { c, o });
                            }
                        }));
                        w.sim.finish();
                        if let Err(e) = r {
                            *w.inconclusive.lock().unwrap_or_else(|e| e.into_inner()) = Some(format!("HARNESS: {}", panic_text(&*e)));
                        }
                    })
                    .expect("spawn");
                sim.register(c, h.thread().clone());
                hs.push(h);
            }
            sim.drive();
        });
        if scn.prop == "C08" || scn.prop == "C09" {
            w.final_audit();
        }
    }
    seam::disarm();
    let mut used = seam::allocs() - before;
    if scn.prop == "C15" || scn.prop == "C16" {
        used = (*w.share.lock().unwrap_or_else(|e| e.into_inner()) * budget as f64) as u64;
    }
    let viol = w.viol.lock().unwrap_or_else(|e| e.into_inner()).take();
    let inconclusive = w.inconclusive.lock().unwrap_or_else(|e| e.into_inner()).take();
    drop(w);
    let sim_ns = sim.clock();
    let mut c = sim.core();
    let st = c.stats;
    let digest = mix2(c.digest, mix2(c.sched, hash_of(&viol.as_ref().map(|v| (v.class.clone(), v.msg.clone())))));
    RunResult {
        violation: viol,
        inconclusive,
        digest,
        sched: c.sched,
        nontrivial: st[stat::SWITCH_IN] + st[stat::ERR] + st[stat::PANIC] + st[stat::ITEM] + st[stat::KILL] + st[stat::STALL] > 0,
        stats: st,
        sim_ns,
        log: c.log.take().unwrap_or_default(),
        allocs: used,
        budget,
    }
}

impl World<'_> {
    fn judges(&self, p: &str) -> bool {
        self.scn.prop == p
    }

    pub fn violate(&self, at: Where, prop: &str, class: &str, msg: String) {
        if !self.judges(prop) {
            return;
        }
        let msg = brief(msg);
        self.sim.note(|| format!("VIOLATION {} {}: {}", prop, class, msg));
        let mut v = self.viol.lock().unwrap_or_else(|e| e.into_inner());
        if v.is_none() {
            *v = Some(Violation { class: class.into(), msg: format!("client {} operation {}: {}", at.c, at.o, msg) });
        }
    }

    /// Runs an oracle; a panic inside (a query of the library) is a failed check.
    fn oracle(&self, f: impl FnOnce() -> Result<(), Fail>) -> Result<(), Fail> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(e) => Err(("query-panic", format!("reading the result panicked: {}", panic_text(&*e)))),
        }
    }

    /// Largest part of a memory bound that was used.
    pub fn share(&self, x: f64) {
        let mut s = self.share.lock().unwrap_or_else(|e| e.into_inner());
        *s = s.max(x);
    }

    fn op(&self, at: Where) {
        let op = &self.scn.clients[at.c].ops[at.o];
        if self.judges("C15") || self.judges("C16") {
            return self.soak(at, op);
        }
        match op {
            Op::GTx { faulty, cmds } => self.gtx(at, *faulty, cmds),
            Op::GRead { faulty, qs } => self.gread(at, *faulty, qs),
            Op::PTx { faulty, cmds } => self.ptx(at, *faulty, cmds),
            Op::Weave { faulty, subs, order } => self.weave(at, *faulty, subs, order),
            _ => self.algorithm(at, op),
        }
    }

    // ---- algorithms over a SimGraph ----

    fn algorithm(&self, at: Where, op: &Op) {
        let ctx = &self.ctxs[op.graph().unwrap()];
        let faulty = op.faulty();
        let base = base_of(op);
        let start = match op {
            Op::Max { start, .. } => match self.start(ctx, start) {
                Ok(s) => s,
                Err(e) => {
                    self.inconclusive.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert(e);
                    return;
                }
            },
            _ => vec![],
        };
        let durable = Mutex::new(self.pairing_of(&start));
        let mut covered: BTreeSet<usize> = start.iter().flat_map(|e| [e.0, e.1]).collect();
        let mut killed = false;
        let mut prior = false;
        for a in 0..=faulty {
            let body = || {
                self.sim.begin(at.o, a, a < faulty);
                self.sim.note(|| format!("op {} attempt {} starts: {:?}", at.o, a, op));
                let nest = |x| self.nested(at, x);
                let mut sg = SimGraph::new(self.sim, ctx);
                sg.nest = Some(&nest);
                self.set_levels(op, &mut sg);
                sg.limit = limit(op, &ctx.plain);
                let out = self.sim.run(|| self.perform(op, &sg, ctx, &durable));
                let after = durable.lock().unwrap_or_else(|e| e.into_inner()).order() / 2;
                self.judge_work(at, op, &sg, after.saturating_sub(covered.len() / 2));
                (out, sg.edges_calls.get())
            };
            let (out, edges_calls) = if killed {
                self.sim.incarnate(mix2(self.scn.clients[at.c].hash, a as u64 + 1), body)
            } else {
                body()
            };
            if base == "C01" && edges_calls > 0 {
                self.sim.count(stat::BLOSSOM);
            }
            // What came out, into the digest.
            self.sim.observe(match &out {
                Outcome::Done(v, f) => mix2(hash_of(v), *f as u64),
                Outcome::Cut { killed } => 2 + *killed as u64,
                Outcome::Panicked(m, f) => mix2(hash_of(m), *f as u64),
                Outcome::Endless(_) => 4,
            });
            self.sim.note(|| match &out {
                Outcome::Done(v, f) => format!("op {} attempt {} returned {:?} ({} faults)", at.o, a, v, f),
                Outcome::Cut { killed } => format!("op {} attempt {} cut short, killed={}", at.o, a, killed),
                Outcome::Panicked(m, f) => format!("op {} attempt {} panicked: {} ({} faults)", at.o, a, m, f),
                Outcome::Endless(f) => format!("op {} attempt {} given up: it does not end ({} faults)", at.o, a, f),
            });
            if base == "C01" {
                covered = self.judge_pairing(at, ctx, &durable, covered, &out);
            }
            match &out {
                Outcome::Done(v, fired) => {
                    self.sim.count(stat::OPS);
                    if matches!(v, Val::Steps { ended: false, .. } | Val::Comps { ended: false, .. }) {
                        self.sim.count(stat::ABANDON);
                    }
                    if *fired > 0 && matches!(v, Val::Refused(..)) {
                        self.sim.count(stat::ERR_CTOR);
                    }
                    if (*fired == 0 && self.judges(base)) || ((*fired > 0 || prior) && self.judges("C10")) {
                        if let Err((class, msg)) = self.oracle(|| self.correct(op, ctx, v, &durable, *fired)) {
                            if *fired == 0 {
                                self.violate(at, base, class, msg.clone());
                            }
                            if *fired > 0 || prior {
                                self.violate(at, "C10", class, format!("{} faults in this attempt, earlier attempts failed: {}; {}", fired, prior, msg));
                            }
                        }
                    }
                    if self.judges("C07") && *fired == 0 && (a == 0 || base != "C01") {
                        self.compare(at, op, ctx, &start, Ok(v));
                    }
                    // A refusal caused by a fault is retried like any failure.
                    if *fired > 0 && matches!(v, Val::Refused(..) | Val::Built(Err(_))) {
                        prior = true;
                        self.sim.count(stat::CUT);
                        continue;
                    }
                    return;
                }
                Outcome::Cut { killed: k } => {
                    killed = killed || *k;
                    prior = true;
                    self.sim.count(stat::CUT);
                }
                Outcome::Endless(fired) => {
                    self.endless(at, op, *fired, prior);
                    return;
                }
                Outcome::Panicked(msg, fired) => {
                    if *fired == 0 {
                        self.violate(at, base, "panic", format!("panicked on a healthy graph: {}", msg));
                        if prior {
                            self.violate(at, "C10", "panic", format!("retry on the recovered graph panicked: {}", msg));
                        }
                        if self.judges("C07") && (a == 0 || base != "C01") {
                            self.compare(at, op, ctx, &start, Err(msg));
                        }
                        return;
                    }
                    prior = true;
                    self.sim.count(stat::CUT);
                }
            }
        }
    }

    /// An operation went on and on asking the graph.
    fn endless(&self, at: Where, op: &Op, fired: u32, prior: bool) {
        let msg = format!("{:?} does not end: more than {} accesses", op, limit(op, &self.ctxs[op.graph().unwrap()].plain));
        if fired == 0 {
            self.violate(at, base_of(op), "endless", msg.clone());
        }
        if fired > 0 || prior {
            self.violate(at, "C10", "endless", format!("{} faults in this attempt, earlier attempts failed: {}; {}", fired, prior, msg));
        }
    }

    pub fn start(&self, ctx: &Ctx, start: &Start) -> Result<Vec<(usize, usize)>, String> {
        match start {
            Start::Pairs(p) => Ok(p.clone()),
            Start::Greedy => {
                let r = self.sim.outside(mix2(self.scn.seed, 5), || {
                    catch_unwind(AssertUnwindSafe(|| {
                        let sg = SimGraph::new(self.sim, ctx);
                        let p = greedy(&sg);
                        model::check_pairing(&ctx.plain, &p).map(|s| s.into_iter().collect::<Vec<_>>())
                    }))
                });
                match r {
                    Ok(Ok(v)) => Ok(v),
                    _ => Err("no valid greedy start".into()),
                }
            }
        }
    }

    fn pairing_of(&self, pairs: &[(usize, usize)]) -> Pairing {
        let mut p = Pairing::new();
        for &(a, b) in pairs {
            p.pair(a, b);
        }
        p
    }

    fn perform(&self, op: &Op, sg: &SimGraph, ctx: &Ctx, durable: &Mutex<Pairing>) -> Val {
        self.perform_on(op, sg, &sg.progress, ctx, durable)
    }

    fn perform_on<G: Graph>(&self, op: &Op, sg: &G, progress: &Cell<usize>, ctx: &Ctx, durable: &Mutex<Pairing>) -> Val {
        let cap = 2 * ctx.plain.edges.len() + ctx.plain.nodes.len() + 16;
        match op {
            Op::Max { .. } => {
                let mut p = durable.lock().unwrap_or_else(|e| e.into_inner());
                maximum_matching(sg, &mut p);
                self.sim.no_more_faults();
                sorted(&p)
            }
            Op::Greedy { .. } => {
                let p = greedy(sg);
                self.sim.no_more_faults();
                let s = sorted(&p);
                *durable.lock().unwrap_or_else(|e| e.into_inner()) = p;
                s
            }
            Op::Dfs { root, take, .. } => match DepthFirst::new(sg, *root) {
                Ok(it) => self.drain(progress, it, *take, cap, self.style(*root as u64)),
                Err(e) => refused(&e),
            },
            Op::Bfs { root, take, .. } => match BreadthFirst::new(sg, *root) {
                Ok(it) => self.drain(progress, it, *take, cap, self.style(*root as u64)),
                Err(e) => refused(&e),
            },
            Op::Table { root, .. } => match DepthFirst::new(sg, *root) {
                Ok(it) => {
                    let (n, e) = it.into_table();
                    Val::Table(n, e)
                }
                Err(e) => refused(&e),
            },
            Op::Build { root, .. } => match DepthFirst::new(sg, *root) {
                Ok(it) => match DefaultGraph::try_from(it) {
                    Ok(g) => {
                        self.sim.no_more_faults();
                        Val::Built(audit(&g).map(SnapH))
                    }
                    Err(e) => Val::Built(Err(format!("refused: {:?}", e))),
                },
                Err(e) => refused(&e),
            },
            Op::Comps { take, .. } => {
                let mut got = vec![];
                let mut hints = Hints(vec![]);
                let mut it = components(sg);
                let (bulk, nth, rest) = self.style(ctx.plain.nodes.len() as u64);
                loop {
                    if Some(got.len()) == *take {
                        return hints.judge(got.len(), false, Val::Comps { got, ended: false });
                    }
                    if got.len() > ctx.plain.nodes.len() + 2 {
                        return Val::TooMuch;
                    }
                    let _ = self.sim.point(At::Step);
                    hints.ask(&it);
                    if take.is_none() && bulk == Some(got.len()) {
                        progress.set(usize::MAX);
                        if rest & 1 == 0 {
                            let head = hints.judge(got.len(), false, Val::Comps { got, ended: false });
                            return Val::Rest(Box::new(head), Rest::of(it, rest >> 1, |g| Val::Comps { got: vec![audit(&g).map(SnapH)], ended: false }));
                        }
                        let room = ctx.plain.nodes.len() + 3 - got.len();
                        it.by_ref().take(room).for_each(|g| got.push(audit(&g).map(SnapH)));
                        if got.len() > ctx.plain.nodes.len() + 2 {
                            return Val::TooMuch;
                        }
                        return hints.judge(got.len(), true, Val::Comps { got, ended: true });
                    }
                    progress.set(got.len() + 1);
                    match if nth { it.nth(0) } else { it.next() } {
                        Some(g) => got.push(audit(&g).map(SnapH)),
                        None => {
                            // An iterator that has ended stays so.
                            got.extend(it.next().map(|g| audit(&g).map(SnapH)));
                            return hints.judge(got.len(), true, Val::Comps { got, ended: true });
                        }
                    }
                }
            }
            _ => unreachable!(),
        }
    }

    /// How a client takes steps: after how many it takes the rest at once, and by which
    /// method it takes one.
    fn style(&self, x: u64) -> (Option<usize>, bool, u64) {
        let k = mix2(self.scn.seed ^ 0x57E9, x);
        (if k % 5 == 0 { Some((k >> 8) as usize % 12) } else { None }, k >> 32 & 3 == 0, k >> 40)
    }

    fn drain(&self, progress: &Cell<usize>, mut it: impl Iterator<Item = Step>, take: Option<usize>, cap: usize, (bulk, nth, rest): (Option<usize>, bool, u64)) -> Val {
        let mut steps = vec![];
        let mut hints = Hints(vec![]);
        loop {
            if Some(steps.len()) == take {
                return hints.judge(steps.len(), false, Val::Steps { steps, ended: false });
            }
            if steps.len() > cap {
                return Val::TooMuch;
            }
            let _ = self.sim.point(At::Step);
            hints.ask(&it);
            if take.is_none() && bulk == Some(steps.len()) {
                progress.set(usize::MAX);
                if rest & 1 == 0 {
                    let head = hints.judge(steps.len(), false, Val::Steps { steps, ended: false });
                    return Val::Rest(Box::new(head), Rest::of(it, rest >> 1, |s| Val::Steps { steps: vec![(s.sid, s.tid, s.cut)], ended: false }));
                }
                let room = cap + 2 - steps.len();
                it.by_ref().take(room).for_each(|s| steps.push((s.sid, s.tid, s.cut)));
                if steps.len() > cap {
                    return Val::TooMuch;
                }
                return hints.judge(steps.len(), true, Val::Steps { steps, ended: true });
            }
            progress.set(steps.len() + 1);
            match if nth { it.nth(0) } else { it.next() } {
                Some(s) => steps.push((s.sid, s.tid, s.cut)),
                None => {
                    steps.extend(it.next().map(|s| (s.sid, s.tid, s.cut)));
                    return hints.judge(steps.len(), true, Val::Steps { steps, ended: true });
                }
            }
        }
    }

    /// Which step may ask for which node's neighbours.
    fn set_levels(&self, op: &Op, sg: &mut SimGraph) {
        if !self.judges("C14") {
            return;
        }
        let g = &sg.ctx.plain;
        match op {
            Op::Dfs { root, .. } | Op::Bfs { root, .. } if g.has(*root) => {
                let steps = if matches!(op, Op::Dfs { .. }) { model::dfs(g, *root) } else { model::bfs(g, *root) };
                let reached = steps.iter().enumerate().filter(|(_, s)| !s.2).map(|(i, s)| (s.1, i + 1));
                sg.levels = reached.chain([(*root, 0)]).collect();
            }
            Op::Comps { .. } => {
                let parts = model::partition(g);
                sg.levels = parts.iter().enumerate().flat_map(|(i, c)| c.iter().map(move |&n| (n, i + 1))).collect();
            }
            _ => {}
        }
    }

    /// C14: nothing was asked for too early, and not too much.
    fn judge_work(&self, at: Where, op: &Op, sg: &SimGraph, added: usize) {
        if !self.judges("C14") {
            return;
        }
        let g = &sg.ctx.plain;
        let done = sg.progress.get();
        if let Some((n, k)) = sg.early.get() {
            let l = sg.levels[&n];
            self.violate(at, "C14", "early", format!("{:?}: the neighbours of {} were asked for in step {}, it is reached in step {}", op, n, k, l));
        }
        let (n, m) = (g.nodes.len() as u64, g.edges.len() as u64);
        let all = 2 * m + 4 * n;
        // A call and each neighbour once, with room for some more.
        let reached = || sg.levels.iter().filter(|l| *l.1 <= done).map(|l| g.nbrs(*l.0).len() as u64 + 4).sum::<u64>();
        let most = match op {
            // A search per pair found and one more; each may list a node's neighbours once per neighbour.
            Op::Max { .. } => (added as u64 + 1) * (all + g.adj.iter().map(|v| (v.len() * v.len()) as u64).sum::<u64>()),
            Op::Dfs { .. } | Op::Bfs { .. } => reached(),
            Op::Comps { .. } => n + reached(),
            _ => n + all,
        };
        let most = if matches!(op, Op::Max { .. }) { 2 * most + 60 } else { 4 * most + 24 };
        let took = sg.accesses.get();
        if took > most {
            self.violate(at, "C14", "work", format!("{:?}: {} accesses to a graph of {} nodes and {} edges, {} are plenty", op, took, n, m, most));
        }
        self.sim.observe(took);
    }

    /// Is a normally returned answer complete and correct? With faults injected on the
    /// way an error is a legitimate answer too.
    fn correct(&self, op: &Op, ctx: &Ctx, v: &Val, durable: &Mutex<Pairing>, fired: u32) -> Result<(), Fail> {
        let g = &ctx.plain;
        let root = match op {
            Op::Dfs { root, .. } | Op::Bfs { root, .. } | Op::Table { root, .. } | Op::Build { root, .. } => Some(*root),
            _ => None,
        };
        if let Val::Rest(head, rest) = v {
            self.correct(op, ctx, head, durable, fired)?;
            return match (op, &**head) {
                (Op::Comps { .. }, Val::Comps { got, .. }) => {
                    let parts = model::Parts::new(g);
                    let left = parts.nodes.len().saturating_sub(got.len());
                    rest.judge(left, |i, v| match v {
                        Val::Comps { got: one, .. } => parts.check(got.len() + i, &one[0].clone().map(|s| s.0)),
                        _ => unreachable!(),
                    })
                }
                (_, Val::Steps { steps, .. }) => {
                    let want = if matches!(op, Op::Dfs { .. }) { model::dfs(g, root.unwrap()) } else { model::bfs(g, root.unwrap()) };
                    rest.judge(want.len() - steps.len(), |i, v| match v {
                        Val::Steps { steps: one, .. } if one[0] == want[steps.len() + i] => Ok(()),
                        _ => Err(("wrong-steps", format!("step {} is {:?}, should be {:?}", steps.len() + i, v, want[steps.len() + i]))),
                    })
                }
                _ => Ok(()),
            };
        }
        if let Some(r) = root {
            let member = g.has(r);
            return match v {
                Val::Refused(id, e) => {
                    if fired > 0 || (!member && *id == r) {
                        Ok(())
                    } else {
                        Err(("wrong-error", format!("root {} (member: {}) refused with {}", r, member, e)))
                    }
                }
                _ if !member => Err(("wrong-error", format!("non-member root {} accepted", r))),
                Val::Steps { steps, ended } => model::check_steps(g, r, steps, *ended, matches!(op, Op::Dfs { .. })),
                Val::Table(n, e) => {
                    if g.nbrs(r).is_empty() {
                        return Ok(());
                    }
                    model::check_table(g, r, n, e)
                }
                Val::Built(b) => {
                    if g.nbrs(r).is_empty() || (fired > 0 && b.as_ref().err().map_or(false, |e| e.starts_with("refused"))) {
                        return Ok(());
                    }
                    model::check_built(g, r, &b.clone().map(|s| s.0))
                }
                Val::Misled(m) => Err(("wrong-hint", m.clone())),
                _ => Err(("wrong-steps", "more steps than the graph has edges".into())),
            };
        }
        match (op, v) {
            (Op::Comps { .. }, Val::Comps { got, ended }) => {
                let got: Vec<_> = got.iter().map(|r| r.clone().map(|s| s.0)).collect();
                model::check_components(g, &got, *ended)
            }
            (Op::Comps { .. }, Val::Misled(m)) => Err(("wrong-hint", m.clone())),
            (Op::Comps { .. }, _) => Err(("wrong-components", "more components than nodes".into())),
            (Op::Greedy { .. }, _) => {
                let p = durable.lock().unwrap_or_else(|e| e.into_inner());
                let s = model::check_pairing(g, &p)?;
                model::check_maximal(g, &s)
            }
            (Op::Max { .. }, _) => {
                let p = durable.lock().unwrap_or_else(|e| e.into_inner());
                let s = model::check_pairing(g, &p)?;
                let best = ctx.best.unwrap();
                if s.len() != best {
                    return Err(("not-maximum", format!("{} pairs {:?}, the maximum is {}", s.len(), s, best)));
                }
                Ok(())
            }
            _ => unreachable!(),
        }
    }

    /// C02: whatever happened, the surviving pairing is a matching and has lost no node.
    fn judge_pairing(&self, at: Where, ctx: &Ctx, durable: &Mutex<Pairing>, covered: BTreeSet<usize>, out: &Outcome<Val>) -> BTreeSet<usize> {
        let before = covered.len() / 2;
        let mut now = before;
        let mut after = covered.clone();
        let r = self.oracle(|| {
            let p = durable.lock().unwrap_or_else(|e| e.into_inner());
            let s = model::check_pairing(&ctx.plain, &p)?;
            now = s.len();
            after = s.iter().flat_map(|e| [e.0, e.1]).collect();
            if now < before {
                return Err(("shrunk", format!("{} pairs {:?}, there were {} before", now, s, before)));
            }
            if let Some(n) = covered.iter().find(|n| !after.contains(n)) {
                return Err(("dropped", format!("node {} was paired and no longer is: {:?}", n, s)));
            }
            Ok(())
        });
        if let Err((class, msg)) = r {
            let how = match out {
                Outcome::Done(..) => "completed",
                Outcome::Cut { killed: true } => "killed",
                Outcome::Cut { .. } => "interrupted",
                Outcome::Panicked(..) | Outcome::Endless(_) => "failed",
            };
            self.violate(at, "C02", class, format!("after a {} run: {}", how, msg));
        } else if now > before && !matches!(out, Outcome::Done(..)) {
            self.sim.count(stat::PROGRESS);
        }
        self.sim.observe(now as u64);
        after
    }

    /// C07: the same operation, alone, in a fresh thread with other hash keys; once on the
    /// library's own graph, where that is what the graph presents.
    fn compare(&self, at: Where, op: &Op, ctx: &Ctx, start: &[(usize, usize)], got: Result<&Val, &String>) {
        for (i, h) in [0xBA5Eu64, self.scn.seed ^ (at.o as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15)].into_iter().enumerate() {
            self.sim.count(stat::BASE);
            let base = self.sim.outside(h, || {
                catch_unwind(AssertUnwindSafe(|| {
                    let durable = Mutex::new(self.pairing_of(start));
                    if let (Inner::Real(g), 0) = (&ctx.inner, i) {
                        return self.perform_on(op, g, &Cell::new(0), ctx, &durable);
                    }
                    let sg = SimGraph::new(self.sim, ctx);
                    self.perform(op, &sg, ctx, &durable)
                }))
                .map_err(|e| panic_text(&*e))
            });
            match (got, &base) {
                (Ok(v), Ok(b)) if v != b => {
                    self.violate(at, "C07", "differs", format!("{:?} gave {:?}, alone in a fresh thread it gives {:?}", op, v, b));
                    return;
                }
                (Ok(v), Err(e)) => {
                    self.violate(at, "C07", "differs", format!("{:?} gave {:?}, alone in a fresh thread it panics: {}", op, v, e));
                    return;
                }
                (Err(e), Ok(b)) => {
                    self.violate(at, "C07", "differs", format!("{:?} panicked ({}), alone in a fresh thread it gives {:?}", op, e, b));
                    return;
                }
                _ => {}
            }
        }
    }

    /// A library operation made by the graph itself while it serves an access: judged
    /// like any other, in the thread of the operation it interrupts.
    fn nested(&self, at: Where, x: u64) {
        let g = x as usize % self.ctxs.len();
        let ctx = &self.ctxs[g];
        let n = ctx.plain.nodes.len();
        if n == 0 {
            return;
        }
        let root = ctx.plain.nodes[(x >> 16) as usize % n];
        let op = match (x >> 8) % 7 {
            0 if n <= NEST_MAX => Op::Max { g, faulty: 0, start: Start::Pairs(vec![]) },
            1 if n <= 200 => Op::Greedy { g, faulty: 0 },
            2 if n <= 200 => Op::Comps { g, faulty: 0, take: None },
            3 => Op::Bfs { g, faulty: 0, root, take: None },
            4 => Op::Table { g, faulty: 0, root },
            5 => Op::Build { g, faulty: 0, root },
            _ => Op::Dfs { g, faulty: 0, root, take: None },
        };
        let base = base_of(&op);
        self.sim.quietly(|| {
            let durable = Mutex::new(Pairing::new());
            let sg = SimGraph::new(self.sim, ctx);
            let r = catch_unwind(AssertUnwindSafe(|| self.perform(&op, &sg, ctx, &durable))).map_err(|e| panic_text(&*e));
            self.sim.observe(hash_of(&r));
            match &r {
                Ok(v) => {
                    if self.judges(base) {
                        if let Err((class, msg)) = self.oracle(|| self.correct(&op, ctx, v, &durable, 0)) {
                            self.violate(at, base, class, format!("nested {:?}: {}", op, msg));
                        }
                    }
                }
                Err(m) => self.violate(at, base, "panic", format!("nested {:?} panicked: {}", op, m)),
            }
            if self.judges("C07") {
                self.compare(at, &op, ctx, &[], r.as_ref());
            }
        });
    }

    /// Several lazy operations of one client, alive at once.
    fn weave(&self, at: Where, faulty: usize, subs: &[Op], order: &[usize]) {
        let mut killed = false;
        let mut prior = false;
        let unused = Mutex::new(Pairing::new());
        for a in 0..=faulty {
            let body = || {
                self.sim.begin(at.o, a, a < faulty);
                self.sim.note(|| format!("op {} attempt {} starts: weave {:?} {:?}", at.o, a, subs, order));
                let nest = |x| self.nested(at, x);
                let sgs: Vec<SimGraph> = subs
                    .iter()
                    .map(|o| {
                        let mut g = SimGraph::new(self.sim, &self.ctxs[o.graph().unwrap()]);
                        g.nest = Some(&nest);
                        self.set_levels(o, &mut g);
                        g.limit = limit(o, &g.ctx.plain);
                        g
                    })
                    .collect();
                let out = self.sim.run(|| self.perform_weave(&sgs, subs, order));
                for (o, sg) in subs.iter().zip(&sgs) {
                    self.judge_work(at, o, sg, 0);
                }
                out
            };
            let out = if killed { self.sim.incarnate(mix2(self.scn.clients[at.c].hash, a as u64 + 1), body) } else { body() };
            self.sim.note(|| match &out {
                Outcome::Done(v, f) => format!("op {} attempt {} returned {:?} ({} faults)", at.o, a, v, f),
                Outcome::Cut { killed } => format!("op {} attempt {} cut short, killed={}", at.o, a, killed),
                Outcome::Panicked(m, f) => format!("op {} attempt {} panicked: {} ({} faults)", at.o, a, m, f),
                Outcome::Endless(f) => format!("op {} attempt {} given up: it does not end ({} faults)", at.o, a, f),
            });
            match &out {
                Outcome::Done(vals, fired) => {
                    self.sim.count(stat::OPS);
                    self.sim.count(stat::WEAVE);
                    self.sim.observe(mix2(hash_of(vals), *fired as u64));
                    for (op, v) in subs.iter().zip(vals) {
                        let base = base_of(op);
                        let ctx = &self.ctxs[op.graph().unwrap()];
                        if (*fired == 0 && self.judges(base)) || ((*fired > 0 || prior) && self.judges("C10")) {
                            if let Err((class, msg)) = self.oracle(|| self.correct(op, ctx, v, &unused, *fired)) {
                                let msg = format!("{:?} among other live iterators: {}", op, msg);
                                if *fired == 0 {
                                    self.violate(at, base, class, msg.clone());
                                }
                                if *fired > 0 || prior {
                                    self.violate(at, "C10", class, msg);
                                }
                            }
                        }
                        if self.judges("C07") && *fired == 0 {
                            // Alone it is taken step by step too, never the rest at once.
                            let mut alone = op.clone();
                            if let (Op::Dfs { take, .. } | Op::Bfs { take, .. } | Op::Comps { take, .. }, Val::Steps { .. } | Val::Comps { .. }) = (&mut alone, v) {
                                take.get_or_insert(usize::MAX);
                            }
                            self.compare(at, &alone, ctx, &[], Ok(v));
                        }
                    }
                    if *fired > 0 && vals.iter().any(|v| matches!(v, Val::Refused(..))) {
                        prior = true;
                        self.sim.count(stat::CUT);
                        continue;
                    }
                    return;
                }
                Outcome::Cut { killed: k } => {
                    killed = killed || *k;
                    prior = true;
                    self.sim.count(stat::CUT);
                }
                Outcome::Endless(fired) => {
                    for op in subs {
                        self.endless(at, op, *fired, prior);
                    }
                    return;
                }
                Outcome::Panicked(msg, fired) => {
                    if *fired == 0 {
                        for op in subs {
                            self.violate(at, base_of(op), "panic", format!("{:?} among other live iterators panicked: {}", op, msg));
                        }
                        if prior {
                            self.violate(at, "C10", "panic", format!("retry on the recovered graph panicked: {}", msg));
                        }
                        self.violate(at, "C07", "differs", format!("{:?} panicked among other live iterators: {}", subs, msg));
                        return;
                    }
                    prior = true;
                    self.sim.count(stat::CUT);
                }
            }
        }
    }

    fn perform_weave(&self, sgs: &[SimGraph], subs: &[Op], order: &[usize]) -> Vec<Val> {
        enum Live<'a, 'b> {
            Dfs(DepthFirst<'a, SimGraph<'b>>, Vec<StepT>),
            Bfs(BreadthFirst<'a, SimGraph<'b>>, Vec<StepT>),
            Comps(Box<dyn Iterator<Item = DefaultGraph> + 'a>, Vec<Result<SnapH, String>>),
            Over,
        }
        let mut vals: Vec<Option<Val>> = vec![None; subs.len()];
        let mut live: Vec<Live> = vec![];
        for (i, o) in subs.iter().enumerate() {
            let _ = self.sim.point(At::Step);
            live.push(match o {
                Op::Dfs { root, .. } => match DepthFirst::new(&sgs[i], *root) {
                    Ok(it) => Live::Dfs(it, vec![]),
                    Err(e) => {
                        vals[i] = Some(refused(&e));
                        Live::Over
                    }
                },
                Op::Bfs { root, .. } => match BreadthFirst::new(&sgs[i], *root) {
                    Ok(it) => Live::Bfs(it, vec![]),
                    Err(e) => {
                        vals[i] = Some(refused(&e));
                        Live::Over
                    }
                },
                _ => Live::Comps(Box::new(components(&sgs[i])), vec![]),
            });
        }
        let mut turn = 0;
        while live.iter().any(|l| !matches!(l, Live::Over)) {
            let i = match order.get(turn) {
                Some(i) => i % subs.len(),
                None => turn % subs.len(),
            };
            turn += 1;
            let cap = {
                let p = &self.ctxs[subs[i].graph().unwrap()].plain;
                2 * p.edges.len() + p.nodes.len() + 16
            };
            let most = match &subs[i] {
                Op::Dfs { take, .. } | Op::Bfs { take, .. } | Op::Comps { take, .. } => *take,
                _ => None,
            };
            if !matches!(live[i], Live::Over) {
                let _ = self.sim.point(At::Step);
            }
            sgs[i].progress.set(match &live[i] {
                Live::Dfs(_, v) | Live::Bfs(_, v) if Some(v.len()) != most => v.len() + 1,
                Live::Comps(_, v) if Some(v.len()) != most => v.len() + 1,
                _ => sgs[i].progress.get(),
            });
            // One step of iterator i; Some if it is over.
            let over = match &mut live[i] {
                Live::Over => None,
                Live::Dfs(_, steps) | Live::Bfs(_, steps) if Some(steps.len()) == most => Some(Val::Steps { steps: std::mem::take(steps), ended: false }),
                Live::Dfs(_, steps) | Live::Bfs(_, steps) if steps.len() > cap => Some(Val::TooMuch),
                Live::Dfs(it, steps) => match it.next() {
                    Some(s) => {
                        steps.push((s.sid, s.tid, s.cut));
                        None
                    }
                    None => Some(Val::Steps { steps: std::mem::take(steps), ended: true }),
                },
                Live::Bfs(it, steps) => match it.next() {
                    Some(s) => {
                        steps.push((s.sid, s.tid, s.cut));
                        None
                    }
                    None => Some(Val::Steps { steps: std::mem::take(steps), ended: true }),
                },
                Live::Comps(_, got) if Some(got.len()) == most => Some(Val::Comps { got: std::mem::take(got), ended: false }),
                Live::Comps(_, got) if got.len() > cap => Some(Val::TooMuch),
                Live::Comps(it, got) => match it.next() {
                    Some(g) => {
                        got.push(audit(&g).map(SnapH));
                        None
                    }
                    None => Some(Val::Comps { got: std::mem::take(got), ended: true }),
                },
            };
            if let Some(v) = over {
                vals[i] = Some(v);
                live[i] = Live::Over;
            }
        }
        vals.into_iter().map(|v| v.unwrap()).collect()
    }

    // ---- shared graph (C08) ----

    fn gtx(&self, at: Where, faulty: usize, cmds: &[GCmd]) {
        self.sim.begin(at.o, 0, faulty > 0);
        let out = self.sim.run(|| {
            let _ = self.sim.point(At::Step);
            let _l = self.sim.lock(true);
            let mut g = self.shared.write().unwrap_or_else(|e| e.into_inner());
            for (i, c) in cmds.iter().enumerate() {
                let _ = self.sim.point(At::Step);
                let mut m = self.gmodel.lock().unwrap_or_else(|e| e.into_inner());
                // A list with several faults may be refused for any of them.
                let (got, want) = match c {
                    GCmd::Node(a) => (g.add_node(*a), m.add_node(*a).map_err(|e| vec![e])),
                    GCmd::Edge(a, b) => (g.add_edge(*a, *b), m.add_edge(*a, *b).map_err(|e| vec![e])),
                    GCmd::Edges(v) => (DefaultGraph::try_from(v.clone()).map(|x| *g = x), from_edges(v).map(|x| *m = x)),
                    GCmd::Adj(v) => (DefaultGraph::try_from(v.clone()).map(|x| *g = x), from_adj(v).map(|x| *m = x)),
                };
                self.sim.note(|| format!("{:?} -> {:?}", c, got));
                self.sim.observe(hash_of(&format!("{:?}", got)));
                let right = match (&got, &want) {
                    (Ok(()), Ok(())) => true,
                    (Err(e), Err(v)) => v.contains(e),
                    _ => false,
                };
                if !right {
                    self.violate(at, "C08", "wrong-result", format!("{:?} returned {:?}, should be {:?}", c, got, want));
                    return;
                }
                if want.is_err() {
                    self.sim.count(stat::REJECT);
                }
                if m.nodes.len() <= 24 || i % (8 + m.nodes.len() / 16) == 7 || (want.is_err() && m.nodes.len() <= 60) {
                    if let Err((class, msg)) = self.oracle(|| model::check_graph(&m, &g)) {
                        self.violate(at, "C08", class, format!("after {:?} ({:?}): {}", c, want, msg));
                    }
                }
            }
        });
        self.done(at, "C08", out);
    }

    fn done<T>(&self, at: Where, prop: &str, out: Outcome<T>) {
        match out {
            Outcome::Done(..) => self.sim.count(stat::OPS),
            Outcome::Cut { .. } => self.sim.count(stat::CUT),
            Outcome::Panicked(m, _) => self.violate(at, prop, "panic", format!("panicked: {}", m)),
            Outcome::Endless(_) => {}
        }
    }

    fn lazy<T>(&self, it: impl Iterator<Item = T>, cap: usize) -> Vec<T> {
        let mut v = vec![];
        for x in it {
            let _ = self.sim.point(At::Step);
            v.push(x);
            if v.len() > cap {
                break;
            }
        }
        v
    }

    fn gread(&self, at: Where, faulty: usize, qs: &[GQuery]) {
        self.sim.begin(at.o, 0, faulty > 0);
        let out = self.sim.run(|| {
            let _ = self.sim.point(At::Step);
            let _l = self.sim.lock(false);
            let g = self.shared.read().unwrap_or_else(|e| e.into_inner());
            let g: &DefaultGraph = &g;
            let m = self.gmodel.lock().unwrap_or_else(|e| e.into_inner()).clone();
            let cap = 2 * m.edges.len() + m.nodes.len() + 16;
            for q in qs {
                let _ = self.sim.point(At::Step);
                let r: Result<(), String> = match *q {
                    GQuery::Audit => self.oracle(|| model::check_graph(&m, g)).map_err(|e| e.1),
                    GQuery::Sizes => same(&(g.is_empty(), g.order(), g.size()), &(m.nodes.is_empty(), m.nodes.len(), m.edges.len())),
                    GQuery::Nodes => same(&self.lazy(g.nodes(), cap), &m.nodes),
                    GQuery::Edges => same(&self.lazy(g.edges(), cap), &m.edges),
                    GQuery::Nbrs(a) => {
                        let got = g.neighbors(a).map(|it| self.lazy(it, cap));
                        let want = if m.has(a) { Ok(m.nbrs(a).to_vec()) } else { Err(Error::MissingNode(a)) };
                        same(&got, &want)
                    }
                    GQuery::Degree(a) => same(&g.degree(a), &if m.has(a) { Ok(m.nbrs(a).len()) } else { Err(Error::MissingNode(a)) }),
                    GQuery::HasNode(a) => same(&g.has_node(a), &m.has(a)),
                    GQuery::HasEdge(a, b) => {
                        let want = if !m.has(a) {
                            Err(Error::MissingNode(a))
                        } else if !m.has(b) {
                            Err(Error::MissingNode(b))
                        } else {
                            Ok(m.linked(a, b))
                        };
                        same(&g.has_edge(a, b), &want)
                    }
                    GQuery::Dfs(a) | GQuery::Bfs(a) => {
                        let deep = matches!(q, GQuery::Dfs(_));
                        // Every step is wanted here: the rest is taken at once, never only counted.
                        let (bulk, nth, rest) = self.style(a as u64);
                        let style = (bulk, nth, rest | 1);
                        let got = if deep {
                            DepthFirst::new(g, a).map(|it| self.drain(&Cell::new(0), it, None, cap, style))
                        } else {
                            BreadthFirst::new(g, a).map(|it| self.drain(&Cell::new(0), it, None, cap, style))
                        };
                        match got {
                            Ok(Val::Steps { steps, .. }) if m.has(a) => model::check_steps(&m, a, &steps, true, deep).map_err(|e| e.1),
                            Ok(_) => Err("traversal from a non-member, or endless".into()),
                            Err(e) => same(&(e, m.has(a)), &(Error::MissingNode(a), false)),
                        }
                    }
                    GQuery::Comps => {
                        let mut got = vec![];
                        for c in components(g) {
                            let _ = self.sim.point(At::Step);
                            got.push(audit(&c));
                            if got.len() > cap {
                                break;
                            }
                        }
                        model::check_components(&m, &got, true).map_err(|e| e.1)
                    }
                    GQuery::Equal(x) => self.oracle(|| equality(g, &m, x as u64).map_err(|e| ("wrong-query", e))).map_err(|e| e.1),
                };
                self.sim.note(|| format!("{:?} -> {:?}", q, r));
                if let Err(e) = r {
                    self.violate(at, "C08", "wrong-query", format!("{:?}: {}", q, e));
                }
            }
        });
        self.done(at, "C08", out);
    }

    // ---- shared pairing (C09) ----

    fn ptx(&self, at: Where, faulty: usize, cmds: &[PCmd]) {
        self.sim.begin(at.o, 0, faulty > 0);
        let out = self.sim.run(|| {
            let _ = self.sim.point(At::Step);
            let _l = self.sim.lock(true);
            let mut p = self.pairing.write().unwrap_or_else(|e| e.into_inner());
            for c in cmds {
                let _ = self.sim.point(At::Step);
                let mut m = self.pmodel.lock().unwrap_or_else(|e| e.into_inner());
                // Rejections are panics: caught here, the pairing lives on.
                let r: Result<Result<(), String>, String> = catch_unwind(AssertUnwindSafe(|| match c {
                    PCmd::Pair(a, b) => {
                        p.pair(*a, *b);
                        Ok(())
                    }
                    PCmd::Augment(v) => {
                        p.augment(v.clone());
                        Ok(())
                    }
                    PCmd::Mate(a) => same(&Some(p.mate(*a)), &m.0.get(a).copied()),
                    PCmd::Has(a) => same(&p.has_node(*a), &m.0.contains_key(a)),
                    PCmd::Audit => Ok(()),
                }))
                .map_err(|e| panic_text(&*e));
                let reject = match c {
                    PCmd::Pair(a, b) => {
                        m.pair(*a, *b);
                        false
                    }
                    PCmd::Augment(v) if v.len() % 2 == 0 => {
                        for e in v.chunks(2) {
                            m.pair(e[0], e[1]);
                        }
                        false
                    }
                    PCmd::Augment(_) => true,
                    PCmd::Mate(a) => !m.0.contains_key(a),
                    _ => false,
                };
                if reject {
                    self.sim.count(stat::REJECT);
                }
                self.sim.note(|| format!("{:?} -> {:?}, now {:?}", c, r, m.set()));
                self.sim.observe(r.is_ok() as u64);
                match (&r, reject) {
                    (Err(e), false) => self.violate(at, "C09", "panic", format!("{:?} panicked: {}", c, e)),
                    (Ok(_), true) => self.violate(at, "C09", "accepted", format!("{:?} did not panic", c)),
                    (Ok(Err(e)), _) => self.violate(at, "C09", "wrong-query", format!("{:?}: {}", c, e)),
                    _ => {}
                }
                let r = self.oracle(|| {
                    let named: Vec<usize> = match c {
                        PCmd::Pair(a, b) => vec![*a, *b],
                        PCmd::Augment(v) => v.clone(),
                        PCmd::Mate(a) | PCmd::Has(a) => vec![*a],
                        PCmd::Audit => (0..40).collect(),
                    };
                    check_pairs(&m, &p, &named)
                });
                if let Err((class, msg)) = r {
                    self.violate(at, "C09", class, format!("after {:?}: {}", c, msg));
                }
            }
        });
        self.done(at, "C09", out);
    }

    fn final_audit(&self) {
        let at = Where { c: 0, o: 0 };
        let r = self.oracle(|| {
            let g = self.shared.read().unwrap_or_else(|e| e.into_inner());
            model::check_graph(&self.gmodel.lock().unwrap_or_else(|e| e.into_inner()), &g)
        });
        if let Err((c, m)) = r {
            self.violate(at, "C08", c, format!("at the end: {}", m));
        }
        let r = self.oracle(|| {
            let p = self.pairing.read().unwrap_or_else(|e| e.into_inner());
            check_pairs(&self.pmodel.lock().unwrap_or_else(|e| e.into_inner()), &p, &[])
        });
        if let Err((c, m)) = r {
            self.violate(at, "C09", c, format!("at the end: {}", m));
        }
    }
}

fn base_of(op: &Op) -> &'static str {
    match op {
        Op::Max { .. } => "C01",
        Op::Greedy { .. } => "C03",
        Op::Dfs { .. } => "C04",
        Op::Bfs { .. } => "C05",
        Op::Comps { .. } => "C06",
        _ => "C11",
    }
}

fn check_pairs(m: &Pairs, p: &Pairing, named: &[usize]) -> Result<(), Fail> {
    let s = model::pairing_views(p, named.iter().chain(m.0.keys()).copied())?;
    if s != m.set() {
        return Err(("bad-matching", format!("pairs {:?}, should be {:?}", s, m.set())));
    }
    // Equality: with the same pairs made afresh, and with one pair fewer.
    let fresh = |v: &[(usize, usize)]| {
        let mut q = Pairing::new();
        for &(a, b) in v.iter().rev() {
            q.pair(b, a);
        }
        q
    };
    let v: Vec<_> = s.into_iter().collect();
    let same = fresh(&v);
    if !(*p == same && same == *p) {
        return Err(("bad-matching", format!("not equal to a new pairing with the same pairs {:?}", v)));
    }
    if let Some((_, rest)) = v.split_last() {
        if *p == fresh(rest) {
            return Err(("bad-matching", format!("equal to a pairing without the last of its pairs {:?}", v)));
        }
        let (a, b) = v[v.len() - 1];
        if let Some(x) = named.iter().copied().find(|x| !m.0.contains_key(x)) {
            let mut w = rest.to_vec();
            w.push((a, x));
            if *p == fresh(&w) || fresh(&w) == *p {
                return Err(("bad-matching", format!("equal to a pairing with {:?} instead of {:?}: {:?}", (a, x), (a, b), v)));
            }
            let y = x ^ 1;
            if y != x && !m.0.contains_key(&y) {
                let mut w = v.clone();
                w.push((x, y));
                if *p == fresh(&w) || fresh(&w) == *p {
                    return Err(("bad-matching", format!("equal to a pairing with the further pair {:?}: {:?}", (x, y), v)));
                }
            }
        }
        // The same nodes paired otherwise.
        if let Some(&(c, d)) = rest.get(m.0.len() / 4).or(rest.first()) {
            let i = rest.iter().position(|e| *e == (c, d)).unwrap();
            let mut w = v.clone();
            w.pop();
            w[i] = (a, c);
            w.push((b, d));
            if *p == fresh(&w) || fresh(&w) == *p {
                return Err(("bad-matching", format!("equal to a pairing with {:?} and {:?} instead of {:?} and {:?}: {:?}", (a, c), (b, d), (a, b), (c, d), v)));
            }
        }
    }
    Ok(())
}

fn same<T: PartialEq + std::fmt::Debug>(got: &T, want: &T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("got {:?}, should be {:?}", got, want))
    }
}

fn refused(e: &Error) -> Val {
    let (id, s) = err_id(e);
    Val::Refused(id, s)
}

fn sorted(p: &Pairing) -> Val {
    let mut v: Vec<_> = p.edges().collect();
    v.sort_unstable();
    Val::Matching(v)
}
