mod exec;
mod gen;
mod graph;
mod model;
mod rng;
mod scenario;
mod seam;
mod shrink;
mod sim;
mod soak;

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::process::{Command, ExitCode, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{mpsc, Mutex};
use std::time::{Duration, Instant};

use scenario::Scenario;
use sim::{Mode, STATS};

#[global_allocator]
static ALLOC: seam::Counting = seam::Counting;

const PROPS: [&str; 14] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C14", "C15", "C16"];

/// A process that dies, runs away or hangs breaks these.
fn fatal_counts(prop: &str, fired: bool, class: &str) -> bool {
    match prop {
        "C02" | "C07" => false,
        "C15" => class == "runaway",
        "C16" => class == "abort",
        "C10" => fired,
        _ => true,
    }
}

/// Runs of the quick and thorough tiers.
fn runs(prop: &str, thorough: bool) -> u64 {
    let quick = match prop {
        "C01" | "C08" | "C09" => 400_000,
        "C07" => 120_000,
        "C14" => 150_000,
        "C15" => 100_000,
        "C16" => 8_000,
        _ => 300_000,
    };
    if thorough {
        quick * 30
    } else {
        quick
    }
}

fn main() -> ExitCode {
    std::panic::set_hook(Box::new(|i| {
        if std::thread::current().name() == Some("main") || std::env::var_os("SIMCHECK_PANICS").is_some() {
            eprintln!("{}", i);
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let n = |i: usize| a(i).parse::<u64>().unwrap_or_else(|_| panic!("argument {} must be a number", i));
    match a(1) {
        "worker" => {
            worker(a(2), n(3), n(4), n(5), n(6) as usize);
            ExitCode::SUCCESS
        }
        "trace" => {
            trace(a(2), n(3), n(4), n(5));
            ExitCode::SUCCESS
        }
        "exec" => exec_file(a(2), false),
        "replay-log" => exec_file(a(2), true),
        "replay" => replay(a(2)),
        "show" => {
            let (s, p, _) = gen::generate(a(2), n(3), n(4));
            println!("{}\n{:?}", s.to_text(), p);
            ExitCode::SUCCESS
        }
        // Slowest scenarios of a range, by size.
        "large" => {
            for i in 0..n(4) {
                let (s, _, _) = gen::generate(a(2), n(3), i);
                let mut m = s.graphs.iter().map(|g| g.nodes.len() + g.edges.len()).max().unwrap_or(0);
                m += match &s.init {
                    scenario::Init::New => 0,
                    scenario::Init::Edges(e) => e.len(),
                    scenario::Init::Adj(a) => a.len(),
                };
                if m > if a(2) == "C01" { 520 } else { 3000 } {
                    println!("{} {} {}", i, m, s.clients.iter().flat_map(|c| &c.ops).count());
                }
            }
            ExitCode::SUCCESS
        }
        "selftest" => selftest(),
        "check" => {
            let tier = match std::env::var("VERIF_TIER") {
                _ if a(3) == "thorough" || a(3) == "quick" => a(3).to_string(),
                Ok(t) => t,
                _ => "quick".into(),
            };
            check(a(2), tier == "thorough")
        }
        _ => {
            eprintln!("usage: simcheck check <ID> [quick|thorough] | replay <file> | show <ID> <seed> <index> | selftest");
            ExitCode::from(2)
        }
    }
}

// ---------------------------------------------------------------- children

fn out(s: &str) {
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.flush();
}

/// Runs indices from..to, reporting each; stops at the first violation.
fn worker(prop: &str, seed: u64, from: u64, to: u64, slot: usize) {
    seam::pin(slot);
    let mut stats = [0u64; sim::N];
    let (mut ns, mut ratio, mut inc) = (0u64, 0u64, 0u64);
    for i in from..to {
        out(&format!("R {}\n", i));
        let (s, p, t) = gen::generate(prop, seed, i);
        let r = exec::run(&s, Mode::Gen(t, p), false);
        for k in 0..stats.len() {
            stats[k] += r.stats[k];
        }
        ns = ns.saturating_add(r.sim_ns);
        ratio = ratio.max(r.allocs * 1_000_000 / r.budget);
        if let Some(m) = &r.inconclusive {
            if m.starts_with("HARNESS") {
                out(&format!("E {} {}\n", i, m.replace('\n', " ")));
                break;
            }
            inc += 1;
        }
        out(&format!("D {} {} {} {}\n", i, r.digest, r.sched, r.nontrivial as u8));
        if let Some(v) = r.violation {
            out(&format!("V {} {}\t{}\n", i, v.class, v.msg.replace(['\n', '\t'], " ")));
            break;
        }
    }
    let l: Vec<String> = stats.iter().map(|x| x.to_string()).collect();
    out(&format!(
        "S {} {} {} {} {} {}\n",
        ns,
        ratio,
        inc,
        seam::SEED_READS.load(Relaxed),
        seam::CLOCK_READS.load(Relaxed),
        l.join(" ")
    ));
}

/// As worker, writing every decision as it is taken.
fn trace(prop: &str, seed: u64, from: u64, to: u64) {
    sim::STREAM.store(true, Relaxed);
    for i in from..to {
        out(&format!("SCN {}\n", i));
        let (s, p, t) = gen::generate(prop, seed, i);
        exec::run(&s, Mode::Gen(t, p), false);
    }
}

/// Executes every scenario of a file; the verdict is that of the last one.
fn exec_file(path: &str, verbose: bool) -> ExitCode {
    let all = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|t| Scenario::parse_all(&t)) {
        Ok(a) if !a.is_empty() => a,
        Ok(_) => {
            eprintln!("no scenario in {}", path);
            return ExitCode::from(2);
        }
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return ExitCode::from(2);
        }
    };
    let last = all.len() - 1;
    for (i, s) in all.iter().enumerate() {
        sim::STREAM.store(i == last, Relaxed);
        let r = exec::run(s, Mode::Replay(s.tape.clone()), verbose && i == last);
        if i == last {
            for l in &r.log {
                println!("{}", l);
            }
            match (&r.violation, &r.inconclusive) {
                (Some(v), _) => out(&format!("RESULT violation {}\t{}\t{}\n", v.class, r.digest, v.msg.replace(['\n', '\t'], " "))),
                (None, Some(m)) => out(&format!("RESULT inconclusive\t{}\t{}\n", r.digest, m.replace(['\n', '\t'], " "))),
                _ => out(&format!("RESULT ok\t{}\t\n", r.digest)),
            }
        }
    }
    ExitCode::SUCCESS
}

fn selftest() -> ExitCode {
    let mut r = rng::Rng::new(7);
    let mut n = 0;
    for i in 0..20_000u64 {
        let (s, _, _) = gen::generate("C01", r.next(), i);
        for g in &s.graphs {
            if g.nodes.len() <= 14 {
                let p = graph::Plain::from_spec(g);
                let adj = p.index_adj();
                let (a, b) = (model::max_matching_size(&adj), model::max_matching_dp(&adj));
                assert_eq!(a, b, "{:?}", g);
                n += 1;
            }
        }
        let t = s.to_text();
        assert_eq!(Scenario::parse_all(&t).unwrap()[0].to_text(), t);
    }
    println!("oracle selftest: {} graphs, Edmonds' algorithm agrees with subset dynamic programming", n);
    ExitCode::SUCCESS
}

// ---------------------------------------------------------------- parent

#[derive(Clone, Debug, PartialEq)]
enum Verdict {
    Ok(u64),
    Inconclusive(String),
    Violation { class: String, msg: String, digest: u64 },
    Harness(String),
}

struct Child {
    lines: Vec<String>,
    /// None: killed after no progress.
    status: Option<std::process::ExitStatus>,
}

fn spawn(args: &[String], quiet_limit: Duration, mut each: impl FnMut(&str)) -> Result<Child, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = Command::new(exe);
    c.args(args).env_clear().stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            seam::fixed_addresses();
            Ok(())
        });
    }
    let mut c = c.spawn().map_err(|e| e.to_string())?;
    let so = c.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    let h = std::thread::spawn(move || {
        for l in BufReader::new(so).split(b'\n') {
            let Ok(l) = l else { break };
            if tx.send(String::from_utf8_lossy(&l).into_owned()).is_err() {
                break;
            }
        }
    });
    let mut lines = vec![];
    let mut hung = false;
    loop {
        match rx.recv_timeout(quiet_limit) {
            Ok(l) => {
                each(&l);
                lines.push(l);
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
            Err(mpsc::RecvTimeoutError::Timeout) => {
                hung = true;
                let _ = c.kill();
                break;
            }
        }
    }
    let st = c.wait().map_err(|e| e.to_string())?;
    let _ = h.join();
    Ok(Child { lines, status: if hung { None } else { Some(st) } })
}

fn fatal_class(c: &Child) -> Option<&'static str> {
    match c.status {
        None => Some("hang"),
        Some(s) if s.success() => None,
        Some(s) if s.code() == Some(seam::RUNAWAY) => Some("runaway"),
        Some(s) if s.code().is_some() => Some("harness"),
        Some(_) => Some("abort"),
    }
}

fn fatal_msg(class: &str) -> String {
    match class {
        "hang" => "the operation does not end".into(),
        "runaway" => "the operation does not end within its work bound".into(),
        _ => "the process died (stack overflow or abort)".into(),
    }
}

static TMP: AtomicU64 = AtomicU64::new(0);

fn scratch() -> std::path::PathBuf {
    std::env::temp_dir().join(format!("simcheck-{}-{}.txt", std::process::id(), TMP.fetch_add(1, Relaxed)))
}

/// Executes scenarios in a fresh process.
fn judge(all: &[Scenario], limit: Duration) -> Verdict {
    let f = scratch();
    let mut t = String::new();
    for s in all {
        t.push_str(&s.to_text());
    }
    if let Err(e) = std::fs::write(&f, t) {
        return Verdict::Harness(e.to_string());
    }
    let v = judge_file(f.to_str().unwrap(), &all.last().unwrap().prop, limit);
    let _ = std::fs::remove_file(&f);
    v
}

fn judge_file(f: &str, prop: &str, limit: Duration) -> Verdict {
    let c = match spawn(&["exec".into(), f.into()], limit, |_| {}) {
        Ok(c) => c,
        Err(e) => return Verdict::Harness(e),
    };
    let fired = c.lines.iter().any(|l| l.starts_with("T ") && ["err", "panic", "kill"].iter().any(|k| l.contains(k)));
    match fatal_class(&c) {
        Some("harness") => return Verdict::Harness(c.lines.last().cloned().unwrap_or_default()),
        Some(class) if fatal_counts(prop, fired, class) => return Verdict::Violation { class: class.into(), msg: fatal_msg(class), digest: 0 },
        Some(class) => return Verdict::Inconclusive(class.into()),
        None => {}
    }
    for l in &c.lines {
        if let Some(r) = l.strip_prefix("RESULT ") {
            let p: Vec<&str> = r.split('\t').collect();
            let digest = p.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
            let msg = p.get(2).unwrap_or(&"").to_string();
            return match p[0].split_once(' ') {
                Some(("violation", class)) => Verdict::Violation { class: class.into(), msg, digest },
                _ if p[0] == "inconclusive" && msg.starts_with("HARNESS") => Verdict::Harness(msg),
                _ if p[0] == "inconclusive" => Verdict::Inconclusive(msg),
                _ => Verdict::Ok(digest),
            };
        }
    }
    Verdict::Harness("no result".into())
}

fn replay(path: &str) -> ExitCode {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return ExitCode::from(2);
        }
    };
    let all = match Scenario::parse_all(&text) {
        Ok(a) if !a.is_empty() => a,
        e => {
            eprintln!("{}: unreadable: {:?}", path, e.err());
            return ExitCode::from(2);
        }
    };
    let prop = all.last().unwrap().prop.clone();
    if text.lines().any(|l| l == "# mode diverge") {
        return match diverges(&all) {
            Some(m) => {
                println!("{}", m);
                println!("VIOLATION property={} replay={}", prop, path);
                ExitCode::from(1)
            }
            None => {
                println!("ok: same answers with and without what ran before");
                ExitCode::SUCCESS
            }
        };
    }
    // The log, in a child: the scenario may kill its process.
    if let Ok(c) = spawn(&["replay-log".into(), path.into()], Duration::from_secs(120), |_| {}) {
        for l in c.lines.iter().filter(|l| !l.starts_with("T ")) {
            println!("{}", l);
        }
    }
    let tries = if text.lines().any(|l| l == "# mode unsteady") { 40 } else { 1 };
    let mut v = judge_file(path, &prop, Duration::from_secs(120));
    for _ in 1..tries {
        if matches!(v, Verdict::Violation { .. }) {
            break;
        }
        v = judge_file(path, &prop, Duration::from_secs(120));
    }
    match v {
        Verdict::Violation { class, msg, .. } => {
            println!("{}: {}", class, msg);
            println!("VIOLATION property={} replay={}", prop, path);
            ExitCode::from(1)
        }
        Verdict::Ok(_) => {
            println!("ok: the property held");
            ExitCode::SUCCESS
        }
        v => {
            println!("{:?}", v);
            ExitCode::from(2)
        }
    }
}

/// Does the last scenario give another event digest when the others ran before it?
fn diverges(all: &[Scenario]) -> Option<String> {
    let d = |v: Verdict| match v {
        Verdict::Ok(d) => Some(d),
        Verdict::Violation { digest, .. } => Some(digest),
        _ => None,
    };
    let a = d(judge(all, Duration::from_secs(120)))?;
    let b = d(judge(&all[all.len() - 1..], Duration::from_secs(120)))?;
    if a != b {
        Some(format!("the same run gives event digest {} alone and {} after other runs in the same process", b, a))
    } else {
        None
    }
}

#[derive(Default)]
struct Totals {
    done: u64,
    digests: BTreeMap<u64, u64>,
    distinct: BTreeSet<u64>,
    scheds: BTreeSet<u64>,
    stats: [u64; sim::N],
    sim_ns: u128,
    ratio: u64,
    inconclusive: u64,
    fatal_inconclusive: u64,
    seed_reads: u64,
    clock_reads: u64,
    chunks: u64,
    /// index -> (chunk start, class, message)
    found: BTreeMap<u64, (u64, String, String)>,
    harness: Vec<String>,
}

const CHUNK: u64 = 400;
const QUIET: u64 = 60;

/// One chunk in one process (and the rest of it in another if that one dies).
fn chunk(prop: &str, seed: u64, start: u64, end: u64, slot: usize, tot: &Mutex<Totals>) {
    let mut from = start;
    while from < end {
        let args: Vec<String> = ["worker", prop].iter().map(|s| s.to_string()).chain([seed, from, end, slot as u64].iter().map(|x| x.to_string())).collect();
        let mut at = from;
        let c = spawn(&args, Duration::from_secs(QUIET), |l| {
            if let Some(x) = l.strip_prefix("R ") {
                at = x.parse().unwrap_or(at);
            }
        });
        let c = match c {
            Ok(c) => c,
            Err(e) => {
                tot.lock().unwrap().harness.push(e);
                return;
            }
        };
        let mut t = tot.lock().unwrap();
        t.chunks += 1;
        for l in &c.lines {
            let w: Vec<&str> = l.split_whitespace().collect();
            let num = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            match w.first() {
                Some(&"D") => {
                    t.done += 1;
                    t.digests.insert(num(1), num(2));
                    if num(4) == 1 {
                        t.distinct.insert(num(2));
                    }
                    t.scheds.insert(num(3));
                }
                Some(&"E") => t.harness.push(l.clone()),
                Some(&"V") => {
                    let (head, msg) = l.split_once('\t').unwrap_or((l, ""));
                    let class = head.split(' ').nth(2).unwrap_or("").to_string();
                    t.found.insert(num(1), (from, class, msg.to_string()));
                }
                Some(&"S") => {
                    t.sim_ns += num(1) as u128;
                    t.ratio = t.ratio.max(num(2));
                    t.inconclusive += num(3);
                    t.seed_reads += num(4);
                    t.clock_reads += num(5);
                    for k in 0..sim::N {
                        t.stats[k] += num(6 + k);
                    }
                }
                _ => {}
            }
        }
        match fatal_class(&c) {
            None => return,
            Some("harness") => {
                t.harness.push(format!("worker failed at run {}: {:?}", at, c.status));
                return;
            }
            Some(class) => {
                // C10 needs to know whether a fault came first; the trace tells later.
                if fatal_counts(prop, true, class) {
                    t.found.insert(at, (from, class.into(), fatal_msg(class)));
                } else {
                    t.fatal_inconclusive += 1;
                }
                t.done += 1;
                if t.found.contains_key(&at) && prop != "C10" {
                    return;
                }
                from = at + 1;
            }
        }
    }
}

fn parse_action(w: &[&str]) -> Option<(sim::Key, sim::Action)> {
    let n = |i: usize| w.get(i).and_then(|x: &&str| x.parse::<u64>().ok());
    let k = sim::Key { c: n(1)? as usize, o: n(2)? as usize, a: n(3)? as usize, k: n(4)? as usize };
    let v = n(6).unwrap_or(0);
    Some((
        k,
        match *w.get(5)? {
            "switch" => sim::Action::Switch(v as usize),
            "stall" => sim::Action::Stall(v),
            "slow" => sim::Action::Slow(v),
            "err" => sim::Action::Err,
            "down" => sim::Action::Down,
            "panic" => sim::Action::Panic,
            "kill" => sim::Action::Kill,
            "nest" => sim::Action::Nest(v),
            _ => return None,
        },
    ))
}

/// Explicit scenarios, tapes included, of runs from..=to.
fn explicit(prop: &str, seed: u64, from: u64, to: u64) -> Result<Vec<Scenario>, String> {
    let args: Vec<String> = ["trace", prop].iter().map(|s| s.to_string()).chain([seed, from, to + 1].iter().map(|x| x.to_string())).collect();
    let c = spawn(&args, Duration::from_secs(QUIET), |_| {})?;
    let mut all: Vec<Scenario> = vec![];
    for l in &c.lines {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first() {
            Some(&"SCN") => {
                let i: u64 = w[1].parse().map_err(|_| "trace")?;
                all.push(gen::generate(prop, seed, i).0);
            }
            Some(&"T") => {
                if let (Some((k, a)), Some(s)) = (parse_action(&w), all.last_mut()) {
                    s.tape.insert(k, a);
                }
            }
            _ => {}
        }
    }
    if all.last().map(|s| s.index) != Some(to) {
        return Err(format!("trace of run {} ended early", to));
    }
    Ok(all)
}

struct Report {
    class: String,
    msg: String,
    text: String,
}

/// Reproduces, minimises and renders the violation of one run; None if it is none after all.
fn resolve(prop: &str, seed: u64, index: u64, chunk_from: u64, class: &str, seen: &str) -> Result<Option<Report>, String> {
    let limit = if class == "hang" { 30 } else { QUIET };
    let lim = Duration::from_secs(limit);
    let same = |v: &Verdict| matches!(v, Verdict::Violation { class: c, .. } if c == class);
    let solo = explicit(prop, seed, index, index)?;
    let v = judge(&solo, lim);
    let mut all = solo;
    if !same(&v) {
        if matches!(v, Verdict::Inconclusive(_)) && ["hang", "runaway", "abort"].contains(&class) {
            return Ok(None);
        }
        // It takes what ran before it in the process.
        let mut ok = false;
        let mut k = 1;
        while !ok {
            let from = index.saturating_sub(k).max(chunk_from);
            all = explicit(prop, seed, from, index)?;
            ok = same(&judge(&all, lim));
            if from == chunk_from {
                break;
            }
            k *= 4;
        }
        if !ok {
            return unsteady(prop, seed, index, class, seen, &all);
        }
    }
    let whole = all.clone();
    let last = all.pop().unwrap();
    let cand = if class == "hang" { Duration::from_secs(4) } else { Duration::from_secs(20) };
    let test = |c: &[Scenario]| same(&judge(c, cand));
    let mut sh = shrink::Shrinker { test: &test, until: shrink::limit(if class == "hang" { 60 } else { 45 }), tried: 0 };
    let (mut pre, small) = sh.run(all, last);
    let tried = sh.tried;
    pre.push(small);
    let a = judge(&pre, lim);
    let b = judge(&pre, lim);
    if !same(&a) || !same(&b) {
        return unsteady(prop, seed, index, class, seen, &whole);
    }
    let steady = a == b;
    let Verdict::Violation { class, msg, digest } = a else { unreachable!() };
    let mut t = String::new();
    writeln!(t, "# property {} violated: {}: {}", prop, class, msg).unwrap();
    writeln!(t, "# VERIF_SEED {} run {}; minimised in {} executions; event digest {}", seed, index, tried, digest).unwrap();
    if !steady {
        writeln!(t, "# the details differ between executions: the library reads a source the simulator does not control").unwrap();
    }
    writeln!(t, "# replay: /verif/check.sh replay <this file>").unwrap();
    for s in &pre {
        t.push_str(&s.to_text());
    }
    Ok(Some(Report { class, msg, text: t }))
}

/// A violation that was seen but comes and goes: the library reads a source that is
/// not behind a seam. Only the oracles' verdicts are believed then, not a lost process.
fn unsteady(prop: &str, seed: u64, index: u64, class: &str, seen: &str, all: &[Scenario]) -> Result<Option<Report>, String> {
    if ["hang", "runaway", "abort"].contains(&class) {
        return Err(format!("run {} ({}) does not reproduce", index, class));
    }
    let mut t = String::new();
    writeln!(t, "# property {} violated: {}: {}", prop, class, seen).unwrap();
    writeln!(t, "# mode unsteady").unwrap();
    writeln!(t, "# VERIF_SEED {} run {}; not minimised: executions differ, the library reads a source the simulator does not control", seed, index).unwrap();
    for s in all {
        t.push_str(&s.to_text());
    }
    Ok(Some(Report { class: class.into(), msg: format!("{} (executions of this run differ)", seen), text: t }))
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn check(prop: &str, thorough: bool) -> ExitCode {
    if !PROPS.contains(&prop) {
        eprintln!("unknown property {:?}", prop);
        return ExitCode::from(2);
    }
    let began = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    println!("property {} seed {} tier {}", prop, seed, if thorough { "thorough" } else { "quick" });
    let total = std::env::var("SIMCHECK_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(runs(prop, thorough));
    let workers: usize = std::env::var("SIMCHECK_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get()).min(16));
    let deadline = began + Duration::from_secs(if thorough { 6 * 3600 } else { 500 });
    let tot = Mutex::new(Totals::default());
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    std::thread::scope(|s| {
        for w in 0..workers {
            let (tot, next, stop) = (&tot, &next, &stop);
            s.spawn(move || loop {
                if stop.load(SeqCst) || Instant::now() > deadline {
                    return;
                }
                let from = next.fetch_add(CHUNK, SeqCst);
                if from >= total {
                    return;
                }
                chunk(prop, seed, from, (from + CHUNK).min(total), w, tot);
                let t = tot.lock().unwrap();
                if (!t.found.is_empty() && prop != "C10") || t.found.len() > 3 || !t.harness.is_empty() {
                    stop.store(true, SeqCst);
                }
            });
        }
    });
    let mut tot = tot.into_inner().unwrap();
    let mut errors = std::mem::take(&mut tot.harness);
    let explored = began.elapsed().as_secs_f64();

    // The same runs again, in other processes with other neighbours: digests must agree.
    let mut checked = 0u64;
    let mut diverged = vec![];
    if tot.found.is_empty() && errors.is_empty() {
        let again = Mutex::new(Totals::default());
        let spans = if thorough { 160 } else { 32 };
        let pick: Vec<(u64, u64)> = (0..spans)
            .map(|i| {
                let from = rng::mix2(seed ^ 0xD0, i) % total.max(1);
                (from, (from + 13).min(total))
            })
            .collect();
        let k = AtomicU64::new(0);
        std::thread::scope(|s| {
            for w in 0..workers.min(3) {
                let (again, k, pick) = (&again, &k, &pick);
                s.spawn(move || loop {
                    let i = k.fetch_add(1, SeqCst) as usize;
                    let Some(&(f, t)) = pick.get(i) else { return };
                    chunk(prop, seed, f, t, w, again);
                });
            }
        });
        let again = again.into_inner().unwrap();
        errors.extend(again.harness);
        for (i, d) in &again.digests {
            if let Some(e) = tot.digests.get(i) {
                checked += 1;
                if e != d {
                    diverged.push(*i);
                }
            }
        }
        for (i, f) in again.found {
            tot.found.entry(i).or_insert(f);
        }
    }

    let mut report = None;
    for (i, (from, class, msg)) in &tot.found {
        println!("run {}: {}: {}", i, class, msg);
        match resolve(prop, seed, *i, *from, class, msg) {
            Ok(Some(r)) => {
                report = Some((*i, r));
                break;
            }
            Ok(None) => tot.fatal_inconclusive += 1,
            Err(e) => errors.push(e),
        }
    }
    if report.is_none() && !diverged.is_empty() {
        let i = diverged[0];
        let mut done = false;
        if prop == "C07" {
            // The answers of a run depend on what ran before it: that is this property.
            let from = i / CHUNK * CHUNK;
            for k in [1, 4, 16, 64, 256, 1024] {
                let f = i.saturating_sub(k).max(from);
                if let Ok(all) = explicit(prop, seed, f, i) {
                    if let Some(m) = diverges(&all) {
                        let mut t = format!("# property C07 violated: {}\n# mode diverge\n# VERIF_SEED {} run {}\n", m, seed, i);
                        for s in &all {
                            t.push_str(&s.to_text());
                        }
                        report = Some((i, Report { class: "history".into(), msg: m, text: t }));
                        done = true;
                        break;
                    }
                }
                if f == from {
                    break;
                }
            }
            if !done {
                // Same inputs, same history, other answers.
                if let Ok(all) = explicit(prop, seed, from, i) {
                    let m = format!("run {} gave other answers when it was executed again", i);
                    let mut t = format!("# property C07 violated: {}\n# mode diverge\n# VERIF_SEED {} run {}\n", m, seed, i);
                    for s in &all {
                        t.push_str(&s.to_text());
                    }
                    report = Some((i, Report { class: "unsteady".into(), msg: m, text: t }));
                    done = true;
                }
            }
        }
        if !done {
            // Not what this property is about, but worth knowing.
            println!("NOTE: runs {:?} gave other event digests when executed again", &diverged[..diverged.len().min(5)]);
        }
    }

    let dir = std::env::var("SIMCHECK_OUT").unwrap_or_else(|_| "/verif".into());
    let mut violations = 0;
    if let Some((i, r)) = &report {
        violations = 1;
        let _ = std::fs::create_dir_all(format!("{}/replays", dir));
        let path = format!("{}/replays/{}-{}-{}.txt", dir, prop, seed, i);
        if let Err(e) = std::fs::write(&path, &r.text) {
            errors.push(format!("{}: {}", path, e));
        }
        println!("{}: {}", r.class, r.msg);
        println!("VIOLATION property={} replay={}", prop, path);
    }
    let wall = began.elapsed().as_secs_f64();
    if let Err(e) = evidence(&dir, prop, seed, thorough, &tot, explored, wall, checked, diverged.len(), violations, workers) {
        errors.push(e);
    }
    for e in &errors {
        println!("HARNESS: {}", e);
    }
    println!(
        "{} runs, {} distinct interleavings, {} seam points, {} faults, {:.1} s",
        tot.done,
        tot.scheds.len(),
        tot.stats[0],
        tot.stats[5..9].iter().sum::<u64>(),
        wall
    );
    if report.is_some() {
        ExitCode::from(1)
    } else if !errors.is_empty() {
        ExitCode::from(2)
    } else {
        println!("property {} held on everything explored", prop);
        ExitCode::SUCCESS
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    dir: &str,
    prop: &str,
    seed: u64,
    thorough: bool,
    t: &Totals,
    explored: f64,
    wall: f64,
    checked: u64,
    diverged: usize,
    violations: u64,
    workers: usize,
) -> Result<(), String> {
    let mut samples = vec![];
    for i in [0u64, 1, 2] {
        let (s, p, _) = gen::generate(prop, seed, i);
        let mut x = s.to_text();
        if x.len() > 1500 {
            x.truncate(1500);
            x.push_str("...");
        }
        samples.push(json(&format!("{}rates {:?}", x, p)));
    }
    let stats: Vec<String> = STATS.iter().zip(&t.stats).map(|(n, v)| format!("    {}: {}", json(n), v)).collect();
    let per_hour = t.done as f64 / explored.max(0.001) * 3600.0;
    let (real, stub) = components_of(prop);
    let text = format!(
        r#"{{
  "property": "{prop}",
  "tier": "{tier}",
  "seed": {seed},
  "level": "exploration",
  "coverage": {{
   "evaluations": {done},
   "distinct_nontrivial": {distinct},
   "rule": {rule},
   "samples": [{samples}],
   "simulated_runs_per_hour": {ph:.0},
   "seeds_per_hour": {ph:.0},
   "worker_processes": {workers},
   "processes_started": {chunks},
   "simulated_time_s": {simt:.3},
   "distinct_interleavings": {scheds},
   "distinct_interleavings_measure": "hash of the sequence of scheduling and fault decisions with the client, operation, attempt and seam point they fell on",
   "events": {{
{stats}
   }},
   "hash_key_reads_served_from_seed": {sr},
   "clock_reads_by_library": {cr},
   "largest_share_of_work_bound_used": {ratio:.6},
   "runs_inconclusive": {inc},
   "runs_executed_again_in_other_processes": {checked},
   "digest_divergences": {div},
   "real_code": {real},
   "stubs": {stub}
  }},
  "assumptions": [
   "the model oracles in /verif/sim/src/model.rs state the property correctly",
   "the library reaches its environment only through the Graph trait, the allocator, and libc's getrandom, clock_gettime, getpid and sched_getaffinity",
   "simple graphs: no self-loops"
  ],
  "wall_s": {wall:.2},
  "violations": {violations}
}}
"#,
        tier = if thorough { "thorough" } else { "quick" },
        done = t.done,
        distinct = t.distinct.len(),
        rule = json("one run per (VERIF_SEED, property, index): graphs, orders, ids, hash keys, clients and operations, and swarm rates are generated; a run counts if at least one preemption inside an operation, stall or injected fault happened, and its digest of all decisions and observed results is new"),
        samples = samples.join(", "),
        ph = per_hour,
        chunks = t.chunks,
        simt = t.sim_ns as f64 / 1e9,
        scheds = t.scheds.len(),
        stats = stats.join(",\n"),
        sr = t.seed_reads,
        cr = t.clock_reads,
        ratio = t.ratio as f64 / 1e6,
        inc = t.inconclusive + t.fatal_inconclusive,
        div = diverged,
        real = json(real),
        stub = json(stub),
    );
    std::fs::create_dir_all(format!("{}/evidence", dir)).map_err(|e| e.to_string())?;
    std::fs::write(format!("{}/evidence/{}.json", dir, prop), text).map_err(|e| e.to_string())
}

fn components_of(prop: &str) -> (&'static str, &'static str) {
    match prop {
        "C08" => (
            "gamma from /repo, unmodified: DefaultGraph with its list constructors and queries, DepthFirst, BreadthFirst and components over it",
            "the lock around the shared graph, the scheduler, hash keys and clock are the simulator's",
        ),
        "C09" => ("gamma from /repo, unmodified: Pairing", "the lock around the shared pairing, the scheduler, hash keys and clock are the simulator's"),
        _ => (
            "gamma from /repo, unmodified: the algorithm, its private data structures, Pairing, and DefaultGraph (as result and, in about half of the graphs, behind the faulty access layer)",
            "the access layer in front of the graph (and in about half of the graphs the graph itself), the scheduler, hash keys and clock are the simulator's",
        ),
    }
}
