//! The scheduler: real threads, one running at a time, every decision from the tape.
use std::any::Any;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::thread::Thread;

use crate::rng::{mix2, Rng};
use crate::seam;

/// Write every decision to stdout as it is taken (it survives the death of the process).
pub static STREAM: AtomicBool = AtomicBool::new(false);

fn stream(k: &Key, a: &Action) {
    if STREAM.load(Relaxed) {
        let s = format!("T {} {} {} {} {}\n", k.c, k.o, k.a, k.k, a.text());
        let mut o = std::io::stdout().lock();
        let _ = std::io::Write::write_all(&mut o, s.as_bytes());
        let _ = std::io::Write::flush(&mut o);
    }
}

pub const MAIN: usize = usize::MAX;

/// Where a decision was taken: client, operation, attempt, seam point number.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Key {
    pub c: usize,
    pub o: usize,
    pub a: usize,
    pub k: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Action {
    Switch(usize),
    Stall(u64),
    Slow(u64),
    Err,
    /// This access fails, and every later one that can in this attempt.
    Down,
    Panic,
    Kill,
    /// The graph itself uses the library, in the same thread, before it answers.
    Nest(u64),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum At {
    /// A call on the graph that can return an error.
    Fallible,
    /// Likewise: the edge query.
    EdgeQuery,
    /// A call on the graph that cannot.
    Call,
    /// The next item of an iterator the graph returned.
    Item,
    /// The client itself, between two library calls.
    Step,
}

impl At {
    fn fallible(self) -> bool {
        matches!(self, At::Fallible | At::EdgeQuery)
    }
}

/// Probabilities in 1/65536 per seam point; the swarm parameters of a run.
#[derive(Clone, Debug, Default)]
pub struct Rates {
    pub switch: u32,
    pub stall: u32,
    pub slow: u32,
    pub fault: u32,
    pub err: bool,
    pub panic: bool,
    pub item: bool,
    pub kill: bool,
    pub nest: u32,
    /// Faults hit this kind of access only.
    pub aim: Option<At>,
    /// An error is followed by this many more; `FOREVER`: by nothing else.
    pub outage: u32,
}

pub const FOREVER: u32 = u32::MAX;

pub enum Mode {
    Gen(Rng, Rates),
    Replay(BTreeMap<Key, Action>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Stalled(u64),
    Blocked(bool),
    Done,
}

#[derive(Clone, Copy, Default)]
struct Cl {
    o: usize,
    a: usize,
    k: usize,
    faults_ok: bool,
    fired: u32,
    nested: u32,
    down: u32,
}

pub const N: usize = 23;
pub const STATS: [&str; N] = [
    "seam_points",
    "context_switches",
    "switches_inside_operation",
    "stalls",
    "slow_accesses",
    "fault_access_error",
    "fault_access_panic",
    "fault_item_panic",
    "fault_client_killed",
    "fault_killed_holding_lock",
    "restarts_new_thread_new_hash_keys",
    "lock_waits",
    "operations_completed",
    "operations_abandoned_by_client",
    "attempts_cut_short",
    "rejected_operations",
    "probe_matching_contracted_blossom",
    "probe_resumed_matching_made_progress",
    "probe_err_passed_on_by_constructor",
    "baselines_compared",
    "nested_operations_in_graph_access",
    "operations_with_several_live_iterators",
    "fault_permanent_outage",
];
pub mod stat {
    pub const POINTS: usize = 0;
    pub const SWITCH: usize = 1;
    pub const SWITCH_IN: usize = 2;
    pub const STALL: usize = 3;
    pub const SLOW: usize = 4;
    pub const ERR: usize = 5;
    pub const PANIC: usize = 6;
    pub const ITEM: usize = 7;
    pub const KILL: usize = 8;
    pub const KILL_LOCK: usize = 9;
    pub const RESTART: usize = 10;
    pub const LOCK_WAIT: usize = 11;
    pub const OPS: usize = 12;
    pub const ABANDON: usize = 13;
    pub const CUT: usize = 14;
    pub const REJECT: usize = 15;
    pub const BLOSSOM: usize = 16;
    pub const PROGRESS: usize = 17;
    pub const ERR_CTOR: usize = 18;
    pub const BASE: usize = 19;
    pub const NEST: usize = 20;
    pub const WEAVE: usize = 21;
    pub const DOWN: usize = 22;
}

pub struct Core {
    n: usize,
    st: Vec<St>,
    threads: Vec<Option<Thread>>,
    cl: Vec<Cl>,
    mode: Mode,
    pub tape: BTreeMap<Key, Action>,
    steps: u64,
    clock: u64,
    pub stats: [u64; N],
    pub digest: u64,
    pub sched: u64,
    pub log: Option<Vec<String>>,
    readers: usize,
    writer: bool,
    holding: Vec<bool>,
}

pub struct Sim {
    core: Mutex<Core>,
    turn: AtomicUsize,
    main: Thread,
}

/// Carries a value to another thread. One client runs at a time, so nothing is ever shared
/// between running threads, whatever the library keeps inside its types.
pub struct Solo<T>(pub T);
unsafe impl<T> Send for Solo<T> {}
unsafe impl<T> Sync for Solo<T> {}
impl<T> Solo<T> {
    pub fn take(self) -> T {
        self.0
    }
}

/// Payload of an injected unwind.
pub enum Injected {
    Panic,
    Kill,
    /// The operation is given up: it does not end.
    Endless,
}

pub enum Outcome<T> {
    /// Returned normally, with this many faults injected on the way.
    Done(T, u32),
    /// Unwound by an injected fault.
    Cut { killed: bool },
    /// Given up after far more accesses than any sound execution makes.
    Endless(u32),
    /// Panicked by itself, with this many faults injected before.
    Panicked(String, u32),
}

thread_local! {
    static ME: Cell<usize> = const { Cell::new(MAIN) };
    static QUIET: Cell<bool> = const { Cell::new(true) };
    static NEST: Cell<Option<u64>> = const { Cell::new(None) };
}

pub fn panic_text(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

impl Sim {
    pub fn new(n: usize, mode: Mode, log: bool) -> Self {
        Sim {
            core: Mutex::new(Core {
                n,
                st: vec![St::Ready; n],
                threads: vec![None; n],
                cl: vec![Cl::default(); n],
                mode,
                tape: BTreeMap::new(),
                steps: 0,
                clock: 0,
                stats: [0; N],
                digest: 0xD16E57,
                sched: 0x5C4ED,
                log: if log { Some(vec![]) } else { None },
                readers: 0,
                writer: false,
                holding: vec![false; n],
            }),
            turn: AtomicUsize::new(MAIN),
            main: std::thread::current(),
        }
    }

    pub fn core(&self) -> std::sync::MutexGuard<'_, Core> {
        self.core.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub fn clock(&self) -> u64 {
        self.core().clock
    }

    pub fn count(&self, i: usize) {
        self.core().stats[i] += 1;
    }

    pub fn note(&self, f: impl FnOnce() -> String) {
        let mut c = self.core();
        if c.log.is_some() {
            let t = c.steps;
            let me = ME.with(|m| m.get());
            let s = f();
            c.log.as_mut().unwrap().push(format!("[{:>6}] client {} {}", t, me as i64, s));
        }
    }

    /// Folds an observed value into the run's event digest.
    pub fn observe(&self, v: u64) {
        let mut c = self.core();
        c.digest = mix2(c.digest, v);
    }

    // ---- baton ----

    fn wait_turn(&self, me: usize) {
        while self.turn.load(Acquire) != me {
            std::thread::park();
        }
    }

    fn give(&self, core: std::sync::MutexGuard<'_, Core>, to: usize) {
        let t = if to == MAIN { self.main.clone() } else { core.threads[to].clone().unwrap() };
        drop(core);
        self.turn.store(to, Release);
        t.unpark();
    }

    /// Called by main: runs all clients to completion.
    pub fn drive(&self) {
        let mut c = self.core();
        let first = Self::pick(&mut c, None).expect("no client");
        self.give(c, first);
        self.wait_turn(MAIN);
    }

    /// Called by a client thread before anything else.
    pub fn join(&self, me: usize) {
        ME.with(|m| m.set(me));
        QUIET.with(|q| q.set(false));
        self.wait_turn(me);
    }

    pub fn register(&self, me: usize, t: Thread) {
        self.core().threads[me] = Some(t);
    }

    /// Runs `f` as the next incarnation of the calling client: a new thread with new hash keys.
    pub fn incarnate<T>(&self, hash: u64, f: impl FnOnce() -> T) -> T {
        let me = ME.with(|m| m.get());
        self.count(stat::RESTART);
        let old = std::thread::current();
        let f = Solo(f);
        let r = std::thread::scope(|s| {
            std::thread::Builder::new()
                .name(seam::thread_name(hash))
                .stack_size(crate::exec::STACK)
                .spawn_scoped(s, move || {
                    seam::enter_thread(hash, true);
                    ME.with(|m| m.set(me));
                    QUIET.with(|q| q.set(false));
                    self.register(me, std::thread::current());
                    Solo(f.take()())
                })
                .expect("spawn")
                .join()
        });
        self.register(me, old);
        match r {
            Ok(v) => v.take(),
            Err(e) => resume_unwind(e),
        }
    }

    /// Runs `f` in a fresh thread outside the simulation (no seam points).
    pub fn outside<T>(&self, hash: u64, f: impl FnOnce() -> T) -> T {
        let f = Solo(f);
        std::thread::scope(|s| {
            let r = std::thread::Builder::new()
                .name(seam::thread_name(hash))
                .stack_size(crate::exec::STACK)
                .spawn_scoped(s, move || {
                    seam::enter_thread(hash, true);
                    Solo(f.take()())
                })
                .expect("spawn")
                .join();
            match r {
                Ok(v) => v.take(),
                Err(e) => resume_unwind(e),
            }
        })
    }

    pub fn finish(&self) {
        let me = ME.with(|m| m.get());
        let mut c = self.core();
        c.st[me] = St::Done;
        c.cl[me].k += 1;
        match Self::pick(&mut c, Some(me)) {
            Some(t) => self.give(c, t),
            None => self.give(c, MAIN),
        }
    }

    fn can(c: &Core, i: usize) -> bool {
        match c.st[i] {
            St::Ready => true,
            St::Stalled(u) => c.steps >= u,
            St::Blocked(w) => !c.writer && (!w || c.readers == 0),
            St::Done => false,
        }
    }

    /// Chooses who runs when the current client cannot.
    fn pick(c: &mut Core, me: Option<usize>) -> Option<usize> {
        let mut can: Vec<usize> = (0..c.n).filter(|&i| Some(i) != me && Self::can(c, i)).collect();
        if can.is_empty() {
            // Only stalled clients are left: time jumps to the first of them.
            let next = (0..c.n)
                .filter_map(|i| match c.st[i] {
                    St::Stalled(u) => Some((u, i)),
                    _ => None,
                })
                .min()?;
            c.clock += (next.0 - c.steps.min(next.0)) * 1000;
            seam::CLOCK_NS.store(c.clock, Relaxed);
            c.steps = c.steps.max(next.0);
            can.push(next.1);
        }
        let from = me.unwrap_or(c.n - 1);
        let mut to = *can.iter().find(|&&i| i > from).unwrap_or(&can[0]);
        if can.len() > 1 {
            let key = match me {
                Some(m) => Key { c: m, o: c.cl[m].o, a: c.cl[m].a, k: c.cl[m].k },
                None => Key { c: c.n, o: 0, a: 0, k: 0 },
            };
            match &mut c.mode {
                Mode::Gen(r, _) => {
                    to = can[r.below(can.len())];
                    stream(&key, &Action::Switch(to));
                    c.tape.insert(key, Action::Switch(to));
                }
                Mode::Replay(t) => {
                    if let Some(Action::Switch(x)) = t.get(&key) {
                        if can.contains(x) {
                            to = *x;
                        }
                        stream(&key, &Action::Switch(to));
                        c.tape.insert(key, Action::Switch(to));
                    }
                }
            }
        }
        c.st[to] = St::Ready;
        c.stats[stat::SWITCH] += 1;
        c.sched = mix2(c.sched, (to as u64) << 40 | me.map_or(0, |m| c.cl[m].k as u64 + 1));
        Some(to)
    }

    /// A seam point. `Err(())` asks the caller to fail the access with an error.
    pub fn point(&self, at: At) -> Result<(), ()> {
        if QUIET.with(|q| q.get()) || std::thread::panicking() {
            return Ok(());
        }
        let _mine = seam::Lib::new(false);
        let me = ME.with(|m| m.get());
        let mut g = self.core();
        let c = &mut *g;
        let cl = &mut c.cl[me];
        cl.k += 1;
        let key = Key { c: me, o: cl.o, a: cl.a, k: cl.k };
        let faults_ok = cl.faults_ok;
        c.steps += 1;
        c.clock += 1000;
        c.stats[stat::POINTS] += 1;
        if cl.down == FOREVER && faults_ok && at.fallible() {
            c.stats[stat::ERR] += 1;
            cl.fired = cl.fired.saturating_add(1);
            return Err(());
        }
        let act = match &mut c.mode {
            Mode::Gen(..) if faults_ok && at.fallible() && cl.down > 0 => {
                cl.down -= 1;
                Some(Action::Err)
            }
            Mode::Gen(r, p) => {
                let act = Self::draw(r, p, at, faults_ok, c.n);
                if act == Some(Action::Err) {
                    if p.outage == FOREVER {
                        Some(Action::Down)
                    } else {
                        cl.down = p.outage;
                        act
                    }
                } else {
                    act
                }
            }
            Mode::Replay(t) => t.get(&key).copied(),
        };
        let Some(act) = act else {
            if c.steps & 63 == 0 {
                seam::CLOCK_NS.store(c.clock, Relaxed);
            }
            return Ok(());
        };
        // Actions that do not apply here (a minimised tape, changed code) do nothing.
        let ok = match act {
            Action::Switch(t) => t < c.n && t != me && Self::can(c, t),
            Action::Stall(_) | Action::Slow(_) => true,
            Action::Nest(_) => at != At::Step && c.cl[me].nested < 6,
            Action::Err | Action::Down => faults_ok && at.fallible(),
            Action::Panic => faults_ok && at != At::Step,
            Action::Kill => faults_ok,
        };
        if !ok {
            return Ok(());
        }
        stream(&key, &act);
        c.tape.insert(key, act);
        c.digest = mix2(c.digest, mix2((me as u64) << 48 | (key.o as u64) << 32 | key.k as u64, act.code()));
        if let Some(l) = &mut c.log {
            l.push(format!("[{:>6}] client {} op {} attempt {} point {} {:?}: {:?}", c.steps, me, key.o, key.a, key.k, at, act));
        }
        if !matches!(act, Action::Slow(_) | Action::Nest(_)) {
            c.sched = mix2(c.sched, mix2((me as u64) << 48 | (key.o as u64) << 32 | key.k as u64, act.code()));
        }
        match act {
            Action::Switch(t) => {
                c.st[t] = St::Ready;
                c.stats[stat::SWITCH] += 1;
                if at != At::Step {
                    c.stats[stat::SWITCH_IN] += 1;
                }
                self.give(g, t);
                self.wait_turn(me);
                Ok(())
            }
            Action::Stall(d) => {
                c.st[me] = St::Stalled(c.steps + d);
                c.stats[stat::STALL] += 1;
                c.cl[me].k += 1;
                match Self::pick(c, Some(me)) {
                    Some(t) if t != me => {
                        self.give(g, t);
                        self.wait_turn(me);
                    }
                    _ => c.st[me] = St::Ready,
                }
                Ok(())
            }
            Action::Slow(ns) => {
                c.stats[stat::SLOW] += 1;
                c.clock += ns;
                seam::CLOCK_NS.store(c.clock, Relaxed);
                Ok(())
            }
            Action::Nest(x) => {
                c.stats[stat::NEST] += 1;
                c.cl[me].nested += 1;
                NEST.with(|n| n.set(Some(x)));
                Ok(())
            }
            Action::Err | Action::Down => {
                if act == Action::Down {
                    c.cl[me].down = FOREVER;
                    c.stats[stat::DOWN] += 1;
                }
                c.stats[stat::ERR] += 1;
                c.cl[me].fired += 1;
                Err(())
            }
            Action::Panic => {
                c.stats[if at == At::Item { stat::ITEM } else { stat::PANIC }] += 1;
                c.cl[me].fired += 1;
                drop(g);
                resume_unwind(Box::new(Injected::Panic))
            }
            Action::Kill => {
                c.stats[stat::KILL] += 1;
                if c.holding[me] {
                    c.stats[stat::KILL_LOCK] += 1;
                }
                c.cl[me].fired += 1;
                drop(g);
                resume_unwind(Box::new(Injected::Kill))
            }
        }
    }

    fn draw(r: &mut Rng, p: &Rates, at: At, faults_ok: bool, n: usize) -> Option<Action> {
        let x = (r.next() & 0xFFFF) as u32;
        let mut lo = p.switch;
        if x < lo {
            return if n > 1 { Some(Action::Switch(r.below(n))) } else { None };
        }
        lo += p.stall;
        if x < lo {
            return Some(Action::Stall(r.log_range(1, 4000) as u64));
        }
        lo += p.slow;
        if x < lo {
            return Some(Action::Slow(r.log_range(1_000, 86_400_000_000_000) as u64));
        }
        lo += p.nest;
        if x < lo {
            return Some(Action::Nest(r.next() >> 8));
        }
        if !faults_ok || p.aim.map_or(false, |a| a != at) {
            return None;
        }
        lo += p.fault;
        if x < lo {
            let mut v = vec![];
            if p.err && at.fallible() {
                v.extend([Action::Err, Action::Err]);
            }
            if p.panic && (at.fallible() || at == At::Call) {
                v.push(Action::Panic);
            }
            if p.item && at == At::Item {
                v.push(Action::Panic);
            }
            if p.kill {
                v.push(Action::Kill);
            }
            return if v.is_empty() { None } else { Some(*r.pick(&v)) };
        }
        None
    }

    /// Fails the access at hand, whatever the tape says.
    pub fn inject(&self, at: At, panic: bool) -> Result<(), ()> {
        if QUIET.with(|q| q.get()) || std::thread::panicking() {
            return Ok(());
        }
        let me = ME.with(|m| m.get());
        let panic = panic || !at.fallible();
        let mut c = self.core();
        c.cl[me].fired += 1;
        c.stats[match (panic, at) {
            (false, _) => stat::ERR,
            (true, At::Item) => stat::ITEM,
            _ => stat::PANIC,
        }] += 1;
        drop(c);
        if panic {
            resume_unwind(Box::new(Injected::Panic))
        }
        Err(())
    }

    /// Leaves an operation that does not end.
    pub fn give_up(&self) {
        if !std::thread::panicking() {
            resume_unwind(Box::new(Injected::Endless))
        }
    }

    /// Which error an injected failure gives.
    pub fn flavour(&self) -> u32 {
        let me = ME.with(|m| m.get());
        let c = self.core();
        c.cl[me].fired + (c.cl[me].a + c.cl[me].o) as u32
    }

    /// Starts attempt `a` of operation `o` of the calling client.
    pub fn begin(&self, o: usize, a: usize, faults_ok: bool) {
        let me = ME.with(|m| m.get());
        let mut c = self.core();
        c.cl[me] = Cl { o, a, k: 0, faults_ok, fired: 0, nested: 0, down: 0 };
    }

    pub fn no_more_faults(&self) {
        if QUIET.with(|q| q.get()) {
            return;
        }
        let me = ME.with(|m| m.get());
        self.core().cl[me].faults_ok = false;
    }

    /// The nested operation the last seam point asked for.
    pub fn take_nest(&self) -> Option<u64> {
        NEST.with(|n| n.take())
    }

    /// Runs `f` without seam points.
    pub fn quietly<T>(&self, f: impl FnOnce() -> T) -> T {
        let old = QUIET.with(|q| q.replace(true));
        let r = f();
        QUIET.with(|q| q.set(old));
        r
    }

    pub fn run<T>(&self, f: impl FnOnce() -> T) -> Outcome<T> {
        let me = ME.with(|m| m.get());
        let r = catch_unwind(AssertUnwindSafe(f));
        let fired = {
            let mut c = self.core();
            c.cl[me].faults_ok = false;
            c.cl[me].fired
        };
        match r {
            Ok(v) => Outcome::Done(v, fired),
            Err(e) => match e.downcast_ref::<Injected>() {
                Some(Injected::Panic) => Outcome::Cut { killed: false },
                Some(Injected::Kill) => Outcome::Cut { killed: true },
                Some(Injected::Endless) => Outcome::Endless(fired),
                None => Outcome::Panicked(panic_text(&*e), fired),
            },
        }
    }

    // ---- the reader-writer lock shared clients use ----

    pub fn lock(&self, write: bool) -> LockGuard<'_> {
        let me = ME.with(|m| m.get());
        loop {
            let mut c = self.core();
            let free = !c.writer && (!write || c.readers == 0);
            if free {
                if write {
                    c.writer = true;
                } else {
                    c.readers += 1;
                }
                c.holding[me] = true;
                return LockGuard { sim: self, write, me };
            }
            c.st[me] = St::Blocked(write);
            c.stats[stat::LOCK_WAIT] += 1;
            c.cl[me].k += 1;
            match Self::pick(&mut c, Some(me)) {
                Some(t) => {
                    self.give(c, t);
                    self.wait_turn(me);
                }
                None => panic!("harness: deadlock"),
            }
        }
    }
}

pub struct LockGuard<'a> {
    sim: &'a Sim,
    write: bool,
    me: usize,
}

impl Drop for LockGuard<'_> {
    fn drop(&mut self) {
        let mut c = self.sim.core();
        if self.write {
            c.writer = false;
        } else {
            c.readers -= 1;
        }
        c.holding[self.me] = false;
    }
}

impl Action {
    pub fn text(&self) -> String {
        match self {
            Action::Switch(t) => format!("switch {}", t),
            Action::Stall(d) => format!("stall {}", d),
            Action::Slow(d) => format!("slow {}", d),
            Action::Err => "err 0".into(),
            Action::Down => "down 0".into(),
            Action::Panic => "panic 0".into(),
            Action::Kill => "kill 0".into(),
            Action::Nest(x) => format!("nest {}", x),
        }
    }
    pub fn code(&self) -> u64 {
        match *self {
            Action::Switch(t) => 1 << 56 | t as u64,
            Action::Stall(d) => 2 << 56 | d,
            Action::Slow(d) => 3 << 56 | d,
            Action::Err => 4 << 56,
            Action::Down => 8 << 56,
            Action::Panic => 5 << 56,
            Action::Kill => 6 << 56,
            Action::Nest(x) => 7 << 56 | x,
        }
    }
}
