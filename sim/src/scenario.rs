//! Explicit scenarios and their text form (the replay file).
use std::collections::BTreeMap;
use std::fmt::Write;

use crate::graph::{Backing, Spec};
use crate::sim::{Action, Key};

#[derive(Clone, PartialEq, Debug)]
pub enum Start {
    Pairs(Vec<(usize, usize)>),
    Greedy,
}

#[derive(Clone, PartialEq, Debug)]
pub enum GCmd {
    Node(usize),
    Edge(usize, usize),
    /// The graph is replaced by one made from an edge list, if that succeeds.
    Edges(Vec<(usize, usize)>),
    /// Likewise from an adjacency list.
    Adj(Vec<Vec<usize>>),
}

#[derive(Clone, PartialEq, Debug)]
pub enum GQuery {
    Audit,
    Sizes,
    Nodes,
    Edges,
    Nbrs(usize),
    Degree(usize),
    HasNode(usize),
    HasEdge(usize, usize),
    Dfs(usize),
    Bfs(usize),
    Comps,
    /// Equality with a graph made from the argument.
    Equal(usize),
}

#[derive(Clone, PartialEq, Debug)]
pub enum PCmd {
    Pair(usize, usize),
    Augment(Vec<usize>),
    Mate(usize),
    Has(usize),
    Audit,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    Max { g: usize, faulty: usize, start: Start },
    Greedy { g: usize, faulty: usize },
    Dfs { g: usize, faulty: usize, root: usize, take: Option<usize> },
    Bfs { g: usize, faulty: usize, root: usize, take: Option<usize> },
    Table { g: usize, faulty: usize, root: usize },
    Build { g: usize, faulty: usize, root: usize },
    Comps { g: usize, faulty: usize, take: Option<usize> },
    GTx { faulty: usize, cmds: Vec<GCmd> },
    GRead { faulty: usize, qs: Vec<GQuery> },
    PTx { faulty: usize, cmds: Vec<PCmd> },
    /// Several lazy operations alive at once in one client, advanced in the given order.
    Weave { faulty: usize, subs: Vec<Op>, order: Vec<usize> },
}

#[derive(Clone, PartialEq, Debug)]
pub enum Init {
    New,
    Edges(Vec<(usize, usize)>),
    Adj(Vec<Vec<usize>>),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Client {
    pub hash: u64,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub index: u64,
    pub graphs: Vec<Spec>,
    pub init: Init,
    pub clients: Vec<Client>,
    pub tape: BTreeMap<Key, Action>,
}

impl Op {
    pub fn graph(&self) -> Option<usize> {
        match self {
            Op::Max { g, .. } | Op::Greedy { g, .. } | Op::Dfs { g, .. } | Op::Bfs { g, .. } | Op::Table { g, .. } | Op::Build { g, .. } | Op::Comps { g, .. } => Some(*g),
            _ => None,
        }
    }
    pub fn graph_mut(&mut self) -> Option<&mut usize> {
        match self {
            Op::Max { g, .. } | Op::Greedy { g, .. } | Op::Dfs { g, .. } | Op::Bfs { g, .. } | Op::Table { g, .. } | Op::Build { g, .. } | Op::Comps { g, .. } => Some(g),
            _ => None,
        }
    }
    pub fn faulty_mut(&mut self) -> &mut usize {
        match self {
            Op::Max { faulty, .. }
            | Op::Greedy { faulty, .. }
            | Op::Dfs { faulty, .. }
            | Op::Bfs { faulty, .. }
            | Op::Table { faulty, .. }
            | Op::Build { faulty, .. }
            | Op::Comps { faulty, .. }
            | Op::GTx { faulty, .. }
            | Op::GRead { faulty, .. }
            | Op::PTx { faulty, .. }
            | Op::Weave { faulty, .. } => faulty,
        }
    }
    /// The operations over a graph of the scenario in this one.
    pub fn parts(&self) -> Vec<&Op> {
        match self {
            Op::Weave { subs, .. } => subs.iter().collect(),
            o => vec![o],
        }
    }
    pub fn parts_mut(&mut self) -> Vec<&mut Op> {
        match self {
            Op::Weave { subs, .. } => subs.iter_mut().collect(),
            o => vec![o],
        }
    }
    pub fn faulty(&self) -> usize {
        *self.clone().faulty_mut()
    }
}

fn list(v: &[usize]) -> String {
    if v.is_empty() {
        return "-".into();
    }
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn pairs(v: &[(usize, usize)]) -> String {
    if v.is_empty() {
        return "-".into();
    }
    v.iter().map(|(a, b)| format!("{}:{}", a, b)).collect::<Vec<_>>().join(",")
}
fn take(t: &Option<usize>) -> String {
    t.map_or("all".into(), |k| k.to_string())
}

fn op_text(o: &Op) -> String {
    match o {
                    Op::Max { g, faulty, start } => format!(
                        "max {} {} {}",
                        g,
                        faulty,
                        match start {
                            Start::Greedy => "greedy".into(),
                            Start::Pairs(p) => pairs(p),
                        }
                    ),
                    Op::Greedy { g, faulty } => format!("greedy {} {}", g, faulty),
                    Op::Dfs { g, faulty, root, take: t } => format!("dfs {} {} {} {}", g, faulty, root, take(t)),
                    Op::Bfs { g, faulty, root, take: t } => format!("bfs {} {} {} {}", g, faulty, root, take(t)),
                    Op::Table { g, faulty, root } => format!("table {} {} {}", g, faulty, root),
                    Op::Build { g, faulty, root } => format!("build {} {} {}", g, faulty, root),
                    Op::Comps { g, faulty, take: t } => format!("comps {} {} {}", g, faulty, take(t)),
                    Op::GTx { faulty, cmds } => format!(
                        "gtx {} {}",
                        faulty,
                        cmds.iter()
                            .map(|c| match c {
                                GCmd::Node(a) => format!("n{}", a),
                                GCmd::Edge(a, b) => format!("e{}:{}", a, b),
                                GCmd::Edges(v) => format!("l{}", pairs(v)),
                                GCmd::Adj(v) => format!("a{}", v.iter().map(|x| list(x)).collect::<Vec<_>>().join(";")),
                            })
                            .collect::<Vec<_>>()
                            .join(" ")
                    ),
                    Op::GRead { faulty, qs } => format!(
                        "gread {} {}",
                        faulty,
                        qs.iter()
                            .map(|q| match q {
                                GQuery::Audit => "audit".into(),
                                GQuery::Sizes => "sizes".into(),
                                GQuery::Nodes => "nodes".into(),
                                GQuery::Edges => "edges".into(),
                                GQuery::Nbrs(a) => format!("nbrs:{}", a),
                                GQuery::Degree(a) => format!("degree:{}", a),
                                GQuery::HasNode(a) => format!("hasnode:{}", a),
                                GQuery::HasEdge(a, b) => format!("hasedge:{}:{}", a, b),
                                GQuery::Dfs(a) => format!("dfs:{}", a),
                                GQuery::Bfs(a) => format!("bfs:{}", a),
                                GQuery::Comps => "comps".into(),
                                GQuery::Equal(x) => format!("equal:{}", x),
                            })
                            .collect::<Vec<_>>()
                            .join(" ")
                    ),
                    Op::PTx { faulty, cmds } => format!(
                        "ptx {} {}",
                        faulty,
                        cmds.iter()
                            .map(|q| match q {
                                PCmd::Pair(a, b) => format!("pair:{}:{}", a, b),
                                PCmd::Augment(v) => format!("augment:{}", list(v)),
                                PCmd::Mate(a) => format!("mate:{}", a),
                                PCmd::Has(a) => format!("has:{}", a),
                                PCmd::Audit => "audit".into(),
                            })
                            .collect::<Vec<_>>()
                            .join(" ")
                    ),
                    Op::Weave { faulty, subs, order } => {
                        let l: Vec<String> = subs.iter().map(op_text).collect();
                        format!("weave {} {} | {}", faulty, list(order), l.join(" | "))
                    }
    }
}

impl Scenario {
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        writeln!(s, "scenario {} {} {}", self.prop, self.seed, self.index).unwrap();
        for g in &self.graphs {
            let b = match g.backing {
                Backing::Model => "model",
                Backing::Inserted => "default",
            };
            writeln!(s, "graph {} {} {} {} {}", b, g.adjseed, g.hash, list(&g.nodes), pairs(&g.edges)).unwrap();
        }
        match &self.init {
            Init::New => {}
            Init::Edges(e) => writeln!(s, "init edges {}", pairs(e)).unwrap(),
            Init::Adj(a) => writeln!(s, "init adj {}", a.iter().map(|v| list(v)).collect::<Vec<_>>().join(";")).unwrap(),
        }
        for c in &self.clients {
            writeln!(s, "client {}", c.hash).unwrap();
            for o in &c.ops {
                writeln!(s, " op {}", op_text(o).trim_end()).unwrap();
            }
        }
        for (k, a) in &self.tape {
            writeln!(s, "at {} {} {} {} {}", k.c, k.o, k.a, k.k, a.text()).unwrap();
        }
        s.push_str("end\n");
        s
    }

    /// Parses all scenarios of a file; other lines (comments, `#`) are skipped.
    pub fn parse_all(text: &str) -> Result<Vec<Scenario>, String> {
        let mut out = vec![];
        let mut cur: Option<Scenario> = None;
        for (n, line) in text.lines().enumerate() {
            let w: Vec<&str> = line.split_whitespace().collect();
            if w.is_empty() || w[0].starts_with('#') {
                continue;
            }
            let r: Result<(), String> = (|| {
                let e = |m: &str| m.to_string();
                let num = |i: usize| -> Result<usize, String> { w.get(i).ok_or(e("short line"))?.parse().map_err(|_| e("number")) };
                let big = |i: usize| -> Result<u64, String> { w.get(i).ok_or(e("short line"))?.parse().map_err(|_| e("number")) };
                if w[0] == "scenario" {
                    cur = Some(Scenario {
                        prop: w.get(1).ok_or(e("prop"))?.to_string(),
                        seed: big(2)?,
                        index: big(3)?,
                        graphs: vec![],
                        init: Init::New,
                        clients: vec![],
                        tape: BTreeMap::new(),
                    });
                    return Ok(());
                }
                if w[0] == "end" {
                    out.push(cur.take().ok_or(e("end without scenario"))?);
                    return Ok(());
                }
                let s = cur.as_mut().ok_or(e("line outside scenario"))?;
                match w[0] {
                    "graph" => s.graphs.push(Spec {
                        backing: if w[1] == "model" { Backing::Model } else { Backing::Inserted },
                        adjseed: big(2)?,
                        hash: big(3)?,
                        nodes: p_list(w.get(4).ok_or(e("nodes"))?)?,
                        edges: p_pairs(w.get(5).ok_or(e("edges"))?)?,
                    }),
                    "init" => {
                        s.init = if w[1] == "edges" {
                            Init::Edges(p_pairs(w[2])?)
                        } else {
                            Init::Adj(w[2].split(';').map(p_list).collect::<Result<_, _>>()?)
                        }
                    }
                    "client" => s.clients.push(Client { hash: big(1)?, ops: vec![] }),
                    "op" => {
                        let op = p_op(&w[1..])?;
                        s.clients.last_mut().ok_or(e("op without client"))?.ops.push(op);
                    }
                    "at" => {
                        let k = Key { c: num(1)?, o: num(2)?, a: num(3)?, k: num(4)? };
                        let a = match w[5] {
                            "switch" => Action::Switch(num(6)?),
                            "stall" => Action::Stall(big(6)?),
                            "slow" => Action::Slow(big(6)?),
                            "err" => Action::Err,
                            "down" => Action::Down,
                            "panic" => Action::Panic,
                            "kill" => Action::Kill,
                            "nest" => Action::Nest(big(6)?),
                            _ => return Err(e("action")),
                        };
                        s.tape.insert(k, a);
                    }
                    _ => return Err(e("unknown line")),
                }
                Ok(())
            })();
            r.map_err(|m| format!("line {}: {}: {}", n + 1, m, line))?;
        }
        Ok(out)
    }
}

fn p_list(s: &str) -> Result<Vec<usize>, String> {
    if s == "-" || s.is_empty() {
        return Ok(vec![]);
    }
    s.split(',').map(|x| x.parse().map_err(|_| format!("number {}", x))).collect()
}
fn p_pairs(s: &str) -> Result<Vec<(usize, usize)>, String> {
    if s == "-" {
        return Ok(vec![]);
    }
    s.split(',')
        .map(|x| {
            let (a, b) = x.split_once(':').ok_or("pair")?;
            Ok((a.parse().map_err(|_| "number")?, b.parse().map_err(|_| "number")?))
        })
        .collect()
}

fn p_op(w: &[&str]) -> Result<Op, String> {
    let e = |m: &str| m.to_string();
    let num = |i: usize| -> Result<usize, String> { w.get(i).ok_or(e("short line"))?.parse().map_err(|_| e("number")) };
    let t = |i: usize| -> Result<Option<usize>, String> { if w.get(i) == Some(&"all") { Ok(None) } else { num(i).map(Some) } };
                        Ok(match *w.first().ok_or(e("op"))? {
                            "max" => Op::Max {
                                g: num(1)?,
                                faulty: num(2)?,
                                start: if w[3] == "greedy" { Start::Greedy } else { Start::Pairs(p_pairs(w[3])?) },
                            },
                            "greedy" => Op::Greedy { g: num(1)?, faulty: num(2)? },
                            "dfs" => Op::Dfs { g: num(1)?, faulty: num(2)?, root: num(3)?, take: t(4)? },
                            "bfs" => Op::Bfs { g: num(1)?, faulty: num(2)?, root: num(3)?, take: t(4)? },
                            "table" => Op::Table { g: num(1)?, faulty: num(2)?, root: num(3)? },
                            "build" => Op::Build { g: num(1)?, faulty: num(2)?, root: num(3)? },
                            "comps" => Op::Comps { g: num(1)?, faulty: num(2)?, take: t(3)? },
                            "gtx" => Op::GTx {
                                faulty: num(1)?,
                                cmds: w[2..]
                                    .iter()
                                    .map(|x| {
                                        let y = &x[1..];
                                        Ok(if x.starts_with('n') {
                                            GCmd::Node(y.parse().map_err(|_| e("number"))?)
                                        } else if x.starts_with('l') {
                                            GCmd::Edges(p_pairs(y)?)
                                        } else if x.starts_with('a') {
                                            GCmd::Adj(if y.is_empty() { vec![] } else { y.split(';').map(p_list).collect::<Result<_, _>>()? })
                                        } else {
                                            let p = p_pairs(y)?;
                                            GCmd::Edge(p[0].0, p[0].1)
                                        })
                                    })
                                    .collect::<Result<_, String>>()?,
                            },
                            "gread" => Op::GRead {
                                faulty: num(1)?,
                                qs: w[2..]
                                    .iter()
                                    .map(|x| {
                                        let f: Vec<&str> = x.split(':').collect();
                                        let n = |i: usize| -> Result<usize, String> { f.get(i).ok_or(e("query"))?.parse().map_err(|_| e("number")) };
                                        Ok(match f[0] {
                                            "audit" => GQuery::Audit,
                                            "sizes" => GQuery::Sizes,
                                            "nodes" => GQuery::Nodes,
                                            "edges" => GQuery::Edges,
                                            "nbrs" => GQuery::Nbrs(n(1)?),
                                            "degree" => GQuery::Degree(n(1)?),
                                            "hasnode" => GQuery::HasNode(n(1)?),
                                            "hasedge" => GQuery::HasEdge(n(1)?, n(2)?),
                                            "dfs" => GQuery::Dfs(n(1)?),
                                            "bfs" => GQuery::Bfs(n(1)?),
                                            "comps" => GQuery::Comps,
                                            "equal" => GQuery::Equal(n(1)?),
                                            _ => return Err(e("query")),
                                        })
                                    })
                                    .collect::<Result<_, String>>()?,
                            },
                            "ptx" => Op::PTx {
                                faulty: num(1)?,
                                cmds: w[2..]
                                    .iter()
                                    .map(|x| {
                                        let f: Vec<&str> = x.split(':').collect();
                                        let n = |i: usize| -> Result<usize, String> { f.get(i).ok_or(e("cmd"))?.parse().map_err(|_| e("number")) };
                                        Ok(match f[0] {
                                            "pair" => PCmd::Pair(n(1)?, n(2)?),
                                            "augment" => PCmd::Augment(p_list(f[1])?),
                                            "mate" => PCmd::Mate(n(1)?),
                                            "has" => PCmd::Has(n(1)?),
                                            "audit" => PCmd::Audit,
                                            _ => return Err(e("cmd")),
                                        })
                                    })
                                    .collect::<Result<_, String>>()?,
                            },
                            "weave" => Op::Weave {
                                faulty: num(1)?,
                                order: p_list(w.get(2).ok_or(e("order"))?)?,
                                subs: w[3..].split(|x| *x == "|").filter(|x| !x.is_empty()).map(p_op).collect::<Result<_, _>>()?,
                            },
                            _ => return Err(e("op")),
                        })
}
