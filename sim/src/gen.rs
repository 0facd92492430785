//! Scenarios from a seed: workload, configuration and swarm parameters.
use std::collections::{BTreeMap, BTreeSet};

use crate::graph::{Backing, Plain, Spec};
use crate::model;
use crate::rng::{mix2, Rng};
use crate::scenario::*;
use crate::sim::{At, Rates, FOREVER};

type Edges = Vec<(usize, usize)>;

fn norm(edges: Edges) -> Edges {
    let mut seen = BTreeSet::new();
    edges.into_iter().filter(|&(a, b)| a != b && seen.insert((a.min(b), a.max(b)))).collect()
}

fn cycle(n: usize, from: usize, e: &mut Edges) {
    for i in 0..n {
        e.push((from + i, from + (i + 1) % n));
    }
}

/// A graph on 0..n from one of many families; `n` is a target.
fn shape(r: &mut Rng, n: usize) -> (usize, Edges) {
    let n = n.max(1);
    let mut e: Edges = vec![];
    let kind = r.below(22);
    match kind {
        // Too many pairs of nodes to toss a coin for each.
        0 | 1 | 2 | 12 if n > 1500 => {
            let m = n * r.range(1, 8) / 4;
            let left = if kind == 12 { r.range(1, n - 1) } else { 0 };
            for _ in 0..m {
                let a = r.below(if left > 0 { left } else { n });
                e.push((a, left + r.below(n - left)));
            }
            (n, norm(e))
        }
        // Random graphs, sparse to dense.
        0 | 1 | 2 => {
            let p = match r.below(4) {
                0 => 100 / n.max(1) + 1,
                1 => 200 / n + 1,
                2 => 350 / n + 1,
                _ => r.range(5, 90),
            };
            for i in 0..n {
                for j in 0..i {
                    if r.pct(p.min(100)) {
                        e.push((j, i));
                    }
                }
            }
            (n, e)
        }
        // Trees (bushy, or long), with some extra edges.
        3 | 4 => {
            let deep = r.range(0, 100);
            for i in 1..n {
                e.push((if r.pct(deep) { i - 1 } else { r.below(i) }, i));
            }
            let extra = if r.pct(40) { 0 } else { r.below(n / 2 + 2) };
            for _ in 0..extra {
                e.push((r.below(n), r.below(n)));
            }
            (n, norm(e))
        }
        // One odd cycle on a stem, tails on the cycle.
        5 => {
            let c = 3 + 2 * r.below(n.max(4) / 3);
            cycle(c, 0, &mut e);
            let mut k = c;
            let mut prev = r.below(c);
            for _ in 0..r.below(6) {
                e.push((prev, k));
                prev = k;
                k += 1;
            }
            for _ in 0..r.below(4) {
                let mut prev = r.below(c);
                for _ in 0..r.range(1, 3) {
                    e.push((prev, k));
                    prev = k;
                    k += 1;
                }
            }
            (k, e)
        }
        // Cactus / flowers: cycles hung on random nodes, joined by paths.
        6 | 7 => {
            let mut k = 1;
            while k < n {
                let at = r.below(k);
                if r.pct(70) {
                    let len = if r.pct(85) { 3 + 2 * r.below(3) } else { 4 + 2 * r.below(2) };
                    let mut prev = at;
                    for _ in 1..len {
                        e.push((prev, k));
                        prev = k;
                        k += 1;
                    }
                    e.push((prev, at));
                } else {
                    let mut prev = at;
                    for _ in 0..r.range(1, 4) {
                        e.push((prev, k));
                        prev = k;
                        k += 1;
                    }
                }
            }
            (k, norm(e))
        }
        // Factor-critical by odd ears (nested blossoms), then stems and tails.
        8 | 9 | 10 | 11 => {
            let mut k = 1;
            let core = n.max(3) * r.range(50, 100) / 100;
            while k < core.max(3) {
                let (a, b) = (r.below(k), r.below(k));
                let len = 2 * r.below(3) + if a == b { 2 } else { 0 };
                let mut prev = a;
                for _ in 0..len {
                    e.push((prev, k));
                    prev = k;
                    k += 1;
                }
                e.push((prev, b));
            }
            let core = k;
            let tails = r.below(4);
            for _ in 0..tails {
                let mut prev = r.below(core);
                for _ in 0..r.range(1, 4) {
                    e.push((prev, k));
                    prev = k;
                    k += 1;
                }
            }
            while k < n {
                e.push((r.below(k), k));
                k += 1;
            }
            (k, norm(e))
        }
        // Bipartite.
        12 => {
            let a = r.range(1, n);
            let p = r.range(5, 80);
            for i in 0..a {
                for j in a..n {
                    if r.pct(p) {
                        e.push((i, j));
                    }
                }
            }
            (n, e)
        }
        // Complete, complete minus a little.
        13 => {
            let n = n.min(30);
            let miss = if r.pct(50) { 0 } else { r.range(1, 20) };
            for i in 0..n {
                for j in 0..i {
                    if !r.pct(miss) {
                        e.push((j, i));
                    }
                }
            }
            (n, e)
        }
        // Cubic-ish: union of three random near-matchings over a cycle.
        14 | 15 => {
            let n = n.max(4);
            if r.pct(60) {
                cycle(n, 0, &mut e);
            }
            for _ in 0..r.range(1, 3) {
                let mut v: Vec<usize> = (0..n).collect();
                r.shuffle(&mut v);
                for c in v.chunks(2) {
                    if c.len() == 2 {
                        e.push((c[0], c[1]));
                    }
                }
            }
            (n, norm(e))
        }
        // Grids, hexagon strips (molecules), with bites taken out.
        16 | 17 => {
            let w = r.range(2, 6).min(n);
            let h = (n / w).max(1);
            for y in 0..h {
                for x in 0..w {
                    let i = y * w + x;
                    if x + 1 < w && !(kind == 17 && (x + y) % 2 == 0 && y % 2 == 0) {
                        e.push((i, i + 1));
                    }
                    if y + 1 < h && (kind == 16 || (x + y) % 2 == 0) {
                        e.push((i, i + w));
                    }
                }
            }
            let drop = if r.pct(50) { 0 } else { r.range(1, 25) };
            e.retain(|_| !r.pct(drop));
            (w * h, e)
        }
        // Unions of small pieces with isolated nodes between them.
        18 => {
            let mut k = 0;
            while k < n {
                if r.pct(30) {
                    k += 1;
                    continue;
                }
                let t = r.range(1, 7);
                let (m, f) = shape(r, t);
                e.extend(f.into_iter().map(|(a, b)| (a + k, b + k)));
                k += m;
            }
            (k, e)
        }
        // Hubs covering odd pieces: many components left over (Tutte-Berge).
        19 => {
            let hubs = r.range(1, 3);
            let mut k = hubs;
            while k < n {
                let c = 1 + 2 * r.below(3);
                if c == 1 {
                } else if r.pct(50) {
                    cycle(c, k, &mut e);
                } else {
                    for i in 0..c {
                        for j in 0..i {
                            e.push((k + j, k + i));
                        }
                    }
                }
                for h in 0..hubs {
                    if r.pct(70) {
                        e.push((h, k + r.below(c)));
                    }
                }
                k += c;
            }
            (k, norm(e))
        }
        // Two dense lumps and a path.
        20 => {
            let a = (n / 3).clamp(2, 9);
            for i in 0..a {
                for j in 0..i {
                    e.push((j, i));
                    e.push((a + j, a + i));
                }
            }
            let mut prev = r.below(a);
            let mut k = 2 * a;
            while k < n {
                e.push((prev, k));
                prev = k;
                k += 1;
            }
            e.push((prev, a + r.below(a)));
            (k, norm(e))
        }
        // Wheels, fans, stars, double stars, paths, cycles.
        _ => {
            match r.below(5) {
                // A spider: a star of that size takes the library minutes.
                0 | 1 | 2 if n > 25_000 => e.extend((1..n).map(|i| (if i <= 300 { 0 } else { i - 300 }, i))),
                0 => {
                    for i in 1..n {
                        e.push((0, i));
                        if i + 1 < n {
                            e.push((i, i + 1));
                        }
                    }
                    if n > 3 {
                        e.push((n - 1, 1));
                    }
                }
                1 => e.extend((1..n).map(|i| (0, i))),
                2 => e.extend((1..n).map(|i| (if i < n / 2 { 0 } else { n / 2 * (i > n / 2) as usize }, i))),
                3 => e.extend((1..n).map(|i| (i - 1, i))),
                _ => {
                    if n >= 3 {
                        cycle(n, 0, &mut e)
                    }
                }
            }
            (n, norm(e))
        }
    }
}

fn labels(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = match r.below(15) {
        // From both ends at once.
        13 => {
            let mut s = BTreeSet::new();
            let most = n + r.below(4);
            while s.len() < n {
                let i = r.below(most + 1);
                s.insert(if r.pct(50) { i } else { usize::MAX - i });
            }
            s.into_iter().collect()
        }
        // Around the values one might compute a new id from.
        14 => {
            let m = usize::MAX;
            let near = [n, n + 1, n.max(1) - 1, n + 2, m - n, m - n - 1, m - n + 1.min(n), m, m - 1, 0, 1, 2 * n, n / 2, m / 2, m / 2 + 1];
            let mut s = BTreeSet::new();
            for x in near {
                if s.len() < n && r.pct(85) {
                    s.insert(x);
                }
            }
            while s.len() < n {
                let x = r.below(2 * n + 2);
                s.insert(if r.pct(70) { x } else { m - x });
            }
            s.into_iter().collect()
        }
        0..=4 => (0..n).collect(),
        5 => {
            let o = *r.pick(&[1, 2, 7, 100, 1 << 31, 1 << 32]);
            (o..o + n).collect()
        }
        // Across a power of two.
        10 => {
            let o = (1usize << r.range(5, 63)) - n.min(1 << 5) / 2;
            (o..o + n).collect()
        }
        // Alike in their low bits.
        11 | 12 => {
            let b = 1usize << r.range(3, 63);
            let mut s = BTreeSet::new();
            let mut most = n + 1;
            while s.len() < n {
                let i = r.below(most / 2 + 1);
                s.insert(if r.pct(50) { i } else { i ^ b });
                most += (r.below(3) == 0) as usize;
            }
            s.into_iter().collect()
        }
        6 => (0..n).map(|i| usize::MAX - i).collect(),
        7 => (0..n).map(|i| i * *[2usize, 3, 10, 64, 1 << 20].get(n % 5).unwrap()).collect(),
        8 => {
            let mut s = BTreeSet::new();
            while s.len() < n {
                s.insert(r.below(3 * n + 2));
            }
            s.into_iter().collect()
        }
        _ => {
            let mut s = BTreeSet::from([0, usize::MAX]);
            while s.len() < n + 2 {
                s.insert(r.next() as usize);
            }
            let mut v: Vec<_> = s.into_iter().collect();
            r.shuffle(&mut v);
            v.truncate(n);
            v
        }
    };
    if r.pct(70) {
        r.shuffle(&mut v);
    }
    v
}

fn spec(r: &mut Rng, n: usize) -> Spec {
    let (n, mut edges) = if r.pct(2) { (0, vec![]) } else { shape(r, n) };
    if n > 100 && edges.len() > 4 * n {
        r.shuffle(&mut edges);
        edges.truncate(4 * n);
    }
    // The library takes quadratic time on large graphs with cycles.
    if edges.len() > 9000 && edges.len() > n + n / 10 {
        r.shuffle(&mut edges);
        edges.truncate(9000);
    }
    let ids = labels(r, n);
    finish(r, ids, edges)
}

/// Names, order and hash keys of a graph.
fn finish(r: &mut Rng, ids: Vec<usize>, mut edges: Edges) -> Spec {
    for e in &mut edges {
        *e = (ids[e.0], ids[e.1]);
        if r.pct(50) {
            *e = (e.1, e.0);
        }
    }
    let mut nodes = ids;
    if r.pct(70) {
        r.shuffle(&mut nodes);
    }
    if r.pct(70) {
        r.shuffle(&mut edges);
    }
    Spec {
        backing: if r.pct(60) { Backing::Model } else { Backing::Inserted },
        nodes,
        edges,
        adjseed: if r.pct(70) { r.next() | 1 } else { 0 },
        hash: r.next(),
    }
}

/// Long alternating paths and long blossoms: a path or a long cycle with a few tails
/// and chords, far along in the search.
fn far_spec(r: &mut Rng) -> (Spec, Start) {
    let n = r.log_range(265, 1300);
    let mut e: Edges = (1..n).map(|i| (i - 1, i)).collect();
    let mut k = n;
    if r.pct(60) {
        // Closed into a cycle, most often an odd one, somewhere along the path.
        let a = if r.pct(30) { 0 } else { r.below(n / 2) };
        let mut b = r.range(a + n / 3, n - 1);
        if (b - a) % 2 == 1 && r.pct(90) {
            b -= 1;
        }
        e.push((a, b));
    }
    for _ in 0..r.below(3) {
        let mut prev = r.below(k);
        for _ in 0..r.range(1, 6) {
            e.push((prev, k));
            prev = k;
            k += 1;
        }
    }
    for _ in 0..r.below(3) {
        e.push((r.below(k), r.below(k)));
    }
    // More odd cycles along it, nested or overlapping.
    for _ in 0..if r.pct(40) { r.range(1, 4) } else { 0 } {
        let a = r.below(n / 2);
        let l = r.range(1, (n - 1 - a) / 2) * 2;
        e.push((a, a + l));
    }
    let e = norm(e);
    let ids = labels(r, k);
    let mut gone: Vec<usize> = vec![];
    if r.pct(60) {
        gone.push(ids[0]);
    }
    while gone.len() < r.range(1, 3) {
        let x = r.below(k);
        gone.push(ids[*r.pick(&[n - 1, k - 1, x])]);
    }
    let mut s = finish(r, ids, e);
    s.backing = Backing::Model;
    let start = match r.below(8) {
        0 => Start::Greedy,
        _ => start_without(r, &Plain::from_spec(&s), &gone),
    };
    (s, start)
}

/// A few nodes with more neighbours than sixteen bits count, and little else.
fn wide_spec(r: &mut Rng) -> (Spec, usize) {
    let n = if r.pct(40) { r.range(65_600, 68_000) } else { r.log_range(50_000, 140_000) };
    let hubs = if r.pct(60) { 1 } else { r.range(2, 4) };
    let mut e: Edges = (1..hubs).map(|i| (i - 1, i)).collect();
    let mut k = hubs;
    let some = r.below(100);
    while k < n {
        // One hub has nearly all.
        let h = if r.pct(97) { 0 } else { r.below(hubs) };
        e.push((h, k));
        k += 1;
        if some > 60 && r.below(1000) == 0 {
            let long = r.range(1, 4);
            e.extend((0..long).map(|i| (k + i - 1, k + i)));
            k += long;
        }
    }
    for _ in 0..r.range(1, 24) {
        e.push((r.below(k), r.below(k)));
    }
    let mut e = norm(e);
    if r.pct(50) {
        r.shuffle(&mut e);
    }
    let ids = labels(r, k);
    let hub = ids[0];
    let mut s = finish(r, ids, e);
    if r.pct(70) {
        s.backing = Backing::Model;
    }
    (s, hub)
}

/// Very many small pieces, nearly all of them matched to begin with.
fn many_spec(r: &mut Rng) -> (Spec, Start) {
    let n = if r.pct(60) { r.range(65_000, 70_000) } else { r.log_range(2000, 66_000) };
    let mut e: Edges = vec![];
    let mut paired: Edges = vec![];
    let mut k = 0;
    let open = r.range(1, 4);
    let mut special: Vec<usize> = (0..open).map(|_| r.below(n)).collect();
    special.sort_unstable();
    special.reverse();
    while k < n {
        if special.last().map_or(false, |&x| x <= k) {
            special.pop();
            let t = r.range(3, 20);
            let (m, f) = shape(r, t);
            let mut adj = vec![vec![]; m];
            for &(a, b) in &f {
                adj[a].push(b);
                adj[b].push(a);
            }
            // Most of the piece's matching, not all of it.
            let lost = r.below(3);
            for (i, x) in model::max_matching(&adj).into_iter().enumerate().filter_map(|(i, x)| x.filter(|&x| i < x).map(|x| (i, x))).skip(lost) {
                paired.push((k + i, k + x));
            }
            e.extend(f.into_iter().map(|(a, b)| (a + k, b + k)));
            k += m;
        } else {
            // A path with an even number of nodes, all paired.
            let m = if r.pct(80) { 2 } else { 2 * r.range(2, 5) };
            e.extend((1..m).map(|i| (k + i - 1, k + i)));
            paired.extend((0..m / 2).map(|i| (k + 2 * i, k + 2 * i + 1)));
            k += m;
        }
    }
    let mut ids: Vec<usize> = if r.pct(60) { (0..k).collect() } else { labels(r, k) };
    if r.pct(50) {
        r.shuffle(&mut ids);
    }
    let pairs: Edges = paired.into_iter().map(|(a, b)| (ids[a], ids[b])).collect();
    let mut s = finish(r, ids, e);
    s.backing = Backing::Model;
    (s, mixed(r, pairs))
}

/// Graphs that are deep, long or wide, and a matching to start from.
fn deep_spec(r: &mut Rng, heavy: bool) -> (Spec, Start) {
    let n = if heavy { r.log_range(60, 900) } else { r.log_range(40, 4000) };
    let kind = r.below(if heavy { 12 } else { 9 });
    let mut paired: Edges = vec![];
    let (n, e): (usize, Edges) = match kind {
        // Disjoint edges: as many pairs as there can be.
        9 | 10 => {
            let n = n * 2;
            ((n / 2) * 2, (0..n / 2).map(|i| (2 * i, 2 * i + 1)).collect())
        }
        // Blossoms in blossoms: a ladder closed at one end, every rung paired.
        11 | 0 => {
            let mut e = vec![(0, 1), (0, 2), (1, 2)];
            let k = n.max(5) / 2;
            paired.push((1, 2));
            for i in 1..k {
                let (a, b) = (2 * i + 1, 2 * i + 2);
                let back = if r.pct(80) { 2 } else { 2 * r.range(1, i) };
                e.extend([(a, b), (a - back, a), (b - back, b)]);
                paired.push((a, b));
            }
            let mut n = 2 * k + 1;
            if r.pct(30) {
                // Something to find at the far end.
                e.push((n - 1, n));
                n += 1;
            }
            (n, e)
        }
        // A path that augments from end to end, or nearly.
        1 | 2 => (n & !1, (1..n & !1).map(|i| (i - 1, i)).collect()),
        3 => (n, (0..n).map(|i| (i, (i + 1) % n)).collect()),
        // A comb, a caterpillar.
        4 => (n, (1..n).map(|i| (if i % 2 == 0 { i - 2 } else { i - 1 }, i)).collect()),
        // A ladder.
        5 => {
            let k = n / 2;
            let mut e: Edges = (0..k).map(|i| (2 * i, 2 * i + 1)).collect();
            e.extend((1..k).flat_map(|i| [(2 * i - 2, 2 * i), (2 * i - 1, 2 * i + 1)]));
            (2 * k, e)
        }
        6 => {
            let n = n.min(800);
            (n, (1..n).map(|i| (0, i)).collect())
        }
        // Recursive trees.
        7 => (n, (1..n).map(|i| (if r.pct(90) { i - 1 } else { r.below(i) }, i)).collect()),
        _ => shape(r, n.min(600)),
    };
    let mut e = norm(e);
    if n > 100 && e.len() > 3 * n {
        r.shuffle(&mut e);
        e.truncate(3 * n);
        paired.clear();
    }
    let ids = labels(r, n);
    let pairs: Edges = paired.into_iter().map(|(a, b)| (ids[a], ids[b])).collect();
    let s = finish(r, ids.clone(), e);
    let start = match r.below(4) {
        _ if !pairs.is_empty() && r.pct(80) => mixed(r, pairs),
        1 | 2 if kind < 4 && heavy => start_without(r, &Plain::from_spec(&s), &[ids[0], ids[n - 1]]),
        3 => Start::Greedy,
        _ => Start::Pairs(vec![]),
    };
    (s, start)
}

/// C16: every operation on deep graphs.
fn deep(r: &mut Rng, s: &mut Scenario, clients: usize, faults: bool) {
    for c in 0..clients {
        let mut ops = vec![];
        for _ in 0..r.range(1, 2) {
            let faulty = (faults && r.pct(60)) as usize;
            let kind = r.below(9);
            let g = s.graphs.len();
            match kind {
                // Long lists and paths.
                7 | 8 => {
                    let n = r.log_range(10, 4000);
                    let ids = labels(r, n);
                    if kind == 7 {
                        let mut cmds = vec![PCmd::Augment(ids[..n & !1].to_vec())];
                        for w in ids.windows(2).take(r.below(n)) {
                            cmds.push(PCmd::Pair(w[0], w[1]));
                        }
                        cmds.push(PCmd::Audit);
                        ops.push(Op::PTx { faulty: 0, cmds });
                    } else {
                        let star = n < 700 && r.pct(30);
                        let cmd = if r.pct(50) {
                            GCmd::Edges((1..n).map(|i| (ids[if star { 0 } else { i - 1 }], ids[i])).collect())
                        } else {
                            let mut adj = vec![vec![]; n];
                            for i in 1..n {
                                let p = if star { 0 } else { i - 1 };
                                adj[p].push(i);
                                adj[i].push(p);
                            }
                            GCmd::Adj(adj)
                        };
                        ops.push(Op::GTx { faulty: 0, cmds: vec![cmd] });
                    }
                }
                _ => {
                    let (spec, start) = deep_spec(r, kind == 0);
                    let p = Plain::from_spec(&spec);
                    s.graphs.push(spec);
                    if kind == 0 {
                        ops.push(Op::Max { g, faulty, start });
                    } else if (2..=4).contains(&kind) && r.pct(20) {
                        let subs = (0..r.range(2, 3)).map(|_| r.range(2, 4)).collect::<Vec<_>>().into_iter().map(|k| op(r, k, g, &p, 0)).collect::<Vec<_>>();
                        let n = subs.len();
                        let order = (0..r.below(40)).map(|_| r.below(n)).collect();
                        ops.push(Op::Weave { faulty, subs, order });
                    } else {
                        ops.push(op(r, kind, g, &p, faulty));
                    }
                }
            }
        }
        let _ = c;
        s.clients.push(Client { hash: r.next(), ops });
    }
}

/// The same nodes (and mostly the same edges): what a stale answer would be taken for.
fn twin(r: &mut Rng, s: &Spec) -> Spec {
    let mut t = s.clone();
    match r.below(4) {
        0 => t.adjseed = r.next() | 1,
        1 => r.shuffle(&mut t.edges),
        2 => {
            if !t.edges.is_empty() {
                let i = r.below(t.edges.len());
                t.edges.remove(i);
            }
        }
        _ => {
            if t.nodes.len() > 2 && !t.edges.is_empty() {
                for _ in 0..r.range(1, 3) {
                    let i = r.below(t.edges.len());
                    t.edges.remove(i);
                    let p = Plain::from_spec(&t);
                    for _ in 0..20 {
                        let (a, b) = (*r.pick(&t.nodes), *r.pick(&t.nodes));
                        if a != b && !p.linked(a, b) {
                            t.edges.push((a, b));
                            break;
                        }
                    }
                    if t.edges.is_empty() {
                        break;
                    }
                }
            }
        }
    }
    if r.pct(30) {
        t.backing = Backing::Model;
    }
    t
}

fn size(r: &mut Rng, prop: &str, big: bool) -> usize {
    let heavy = matches!(prop, "C01" | "C02" | "C07" | "C10");
    if prop == "C15" {
        return match r.below(100) {
            0..=64 => r.range(1, 12),
            65..=92 => r.range(8, 40),
            93..=98 => r.range(30, 150),
            _ => r.log_range(100, 600),
        };
    }
    // Work is judged by how it grows.
    if prop == "C14" && r.pct(25) {
        return if r.pct(70) { r.range(20, 60) } else { r.range(40, 120) };
    }
    match r.below(if big { 1000 } else { 500 }) {
        0..=399 => r.range(1, 12),
        400..=459 => r.range(5, 20),
        460..=499 => r.range(10, 32),
        500..=959 => r.range(4, 24),
        960..=989 => r.range(20, 60),
        _ => {
            if heavy && r.below(20) == 0 {
                r.range(130, 260)
            } else if heavy {
                r.range(40, 120)
            } else if r.below(60) == 0 {
                if r.pct(20) {
                    r.range(65_500, 67_000)
                } else {
                    r.log_range(1500, 20_000)
                }
            } else {
                r.log_range(60, 1500)
            }
        }
    }
}

/// Pairs a maximum matching starts from.
fn start(r: &mut Rng, p: &Plain) -> Start {
    let mut used: BTreeSet<usize> = BTreeSet::new();
    let mut out = vec![];
    let mut edges = p.edges.clone();
    r.shuffle(&mut edges);
    match r.below(10) {
        0 | 1 => return Start::Pairs(vec![]),
        2 | 3 => return Start::Greedy,
        4 => {
            let pc = r.range(10, 90);
            for (a, b) in edges {
                if !used.contains(&a) && !used.contains(&b) && r.pct(pc) {
                    used.extend([a, b]);
                    out.push((a, b));
                }
            }
        }
        5 | 6 => {
            for (a, b) in edges {
                if !used.contains(&a) && !used.contains(&b) {
                    used.extend([a, b]);
                    out.push((a, b));
                }
            }
        }
        // A maximum matching of the graph without some nodes: what is left to find is
        // long and starts at them.
        _ => {
            let n = p.nodes.len();
            let gone = match r.below(4) {
                0 => 0,
                1 | 2 => 1,
                _ => r.range(1, 4),
            }
            .min(n);
            let mut order = p.nodes.clone();
            r.shuffle(&mut order);
            return start_without(r, p, &order[..gone]);
        }
    }
    mixed(r, out)
}

/// A maximum matching of the graph without some nodes.
fn start_without(r: &mut Rng, p: &Plain, gone: &[usize]) -> Start {
    let mut kept: Vec<usize> = (0..p.nodes.len()).filter(|&i| !gone.contains(&p.nodes[i])).collect();
    r.shuffle(&mut kept);
    let mut at = BTreeMap::new();
    for (i, &x) in kept.iter().enumerate() {
        at.insert(p.nodes[x], i);
    }
    let adj: Vec<Vec<usize>> = kept
        .iter()
        .map(|&x| {
            let mut v: Vec<usize> = p.adj[x].iter().filter_map(|y| at.get(y).copied()).collect();
            r.shuffle(&mut v);
            v
        })
        .collect();
    let mut out = vec![];
    for (i, m) in model::max_matching(&adj).into_iter().enumerate() {
        if let Some(j) = m {
            if i < j {
                out.push((p.nodes[kept[i]], p.nodes[kept[j]]));
            }
        }
    }
    mixed(r, out)
}

fn mixed(r: &mut Rng, mut out: Edges) -> Start {
    r.shuffle(&mut out);
    for e in &mut out {
        if r.pct(50) {
            *e = (e.1, e.0);
        }
    }
    Start::Pairs(out)
}

fn root(r: &mut Rng, p: &Plain, lone: bool) -> usize {
    if p.nodes.is_empty() || r.pct(3) {
        let mut x = *r.pick(&[0usize, 1, 5, 99, usize::MAX]);
        while p.has(x) {
            x = r.next() as usize;
        }
        return x;
    }
    let v: Vec<usize> = p.nodes.iter().copied().filter(|&n| lone || !p.nbrs(n).is_empty()).collect();
    if v.is_empty() {
        let mut x = r.next() as usize;
        while p.has(x) {
            x = r.next() as usize;
        }
        return x;
    }
    *r.pick(&v)
}

fn op(r: &mut Rng, kind: usize, g: usize, p: &Plain, faulty: usize) -> Op {
    let take = |r: &mut Rng, most: usize| if r.pct(25) { Some(r.below(most + 2)) } else { None };
    let kind = if kind == 0 && p.nodes.len() > 280 { 1 } else { kind };
    match kind {
        0 => Op::Max { g, faulty, start: start(r, p) },
        1 => Op::Greedy { g, faulty },
        2 => Op::Dfs { g, faulty, root: root(r, p, true), take: take(r, p.edges.len()) },
        3 => Op::Bfs { g, faulty, root: root(r, p, true), take: take(r, p.edges.len()) },
        4 => Op::Comps { g, faulty, take: take(r, p.nodes.len() / 2) },
        5 => Op::Table { g, faulty, root: root(r, p, false) },
        _ => Op::Build { g, faulty, root: root(r, p, false) },
    }
}

fn rates(r: &mut Rng, faults: bool, n: usize) -> Rates {
    let mut p = Rates::default();
    if n > 1 {
        p.switch = *r.pick(&[0, 65536 / 200, 65536 / 20, 65536 / 4, 32000]);
    }
    if r.pct(25) {
        p.stall = *r.pick(&[65536 / 400, 65536 / 60]);
    }
    if r.pct(25) {
        p.slow = *r.pick(&[65536 / 300, 65536 / 30]);
    }
    if r.pct(20) {
        p.nest = *r.pick(&[65536 / 400, 65536 / 60, 65536 / 10]);
    }
    if faults {
        p.fault = (65536 / r.log_range(2, 1500)) as u32;
        while !(p.err || p.panic || p.item || p.kill) {
            p.err = r.pct(50);
            p.panic = r.pct(50);
            p.item = r.pct(50);
            p.kill = r.pct(40);
        }
        if p.err && r.pct(25) {
            p.outage = if r.pct(40) { FOREVER } else { r.log_range(1, 2000) as u32 };
        }
        // Faults at one kind of access, the rarer ones more often.
        if r.pct(30) {
            let (at, most) = *r.pick(&[(At::EdgeQuery, 40), (At::EdgeQuery, 40), (At::Fallible, 150), (At::Call, 100), (At::Item, 400)]);
            p.aim = Some(at);
            p.fault = (65536 / r.log_range(2, most)) as u32;
            match at {
                At::Item => p.item = true,
                At::Call => p.panic = true,
                _ if !p.kill && !p.panic => p.err = true,
                _ => {}
            }
        }
    }
    p
}

pub fn generate(prop: &str, seed: u64, index: u64) -> (Scenario, Rates, Rng) {
    let tag = prop.bytes().fold(0u64, |a, b| a * 131 + b as u64);
    let mut rr = Rng::new(mix2(mix2(seed, tag), index));
    let r = &mut rr;
    let mut s = Scenario {
        prop: prop.into(),
        seed: mix2(seed ^ 0xABCD, index),
        index,
        graphs: vec![],
        init: Init::New,
        clients: vec![],
        tape: BTreeMap::new(),
    };
    let faults = match prop {
        "C02" | "C10" => r.pct(95),
        "C15" => r.pct(60),
        "C01" => r.pct(30),
        _ => r.pct(50),
    };
    let clients = match prop {
        "C01" | "C02" => *r.pick(&[1, 1, 1, 2, 3]),
        "C08" | "C09" => r.range(1, 4),
        "C16" => *r.pick(&[1, 1, 1, 2]),
        _ => *r.pick(&[1, 2, 2, 3, 4]),
    };
    match prop {
        "C08" => shared_graph(r, &mut s, clients, faults),
        "C09" => shared_pairing(r, &mut s, clients, faults),
        "C16" => deep(r, &mut s, clients, faults),
        _ => {
            let big = clients <= 2;
            let n = size(r, prop, big);
            let heavy = matches!(prop, "C01" | "C02" | "C07" | "C10");
            if heavy && big && r.below(if prop == "C01" { 1200 } else { 5000 }) == 0 {
                let (g, start) = far_spec(r);
                s.graphs.push(g);
                s.clients = (0..clients)
                    .map(|c| Client {
                        hash: r.next(),
                        ops: vec![if c == 0 { Op::Max { g: 0, faulty: faults as usize, start: start.clone() } } else { Op::Greedy { g: 0, faulty: 0 } }],
                    })
                    .collect();
                let p = rates(r, faults, clients);
                let t = Rng::new(r.next());
                return (s, p, t);
            }
            let rare = match prop {
                "C01" => 12_000,
                "C02" => 40_000,
                "C03" | "C06" => 15_000,
                "C04" | "C05" | "C11" | "C07" => 15_000,
                _ => 0,
            };
            if rare > 0 && clients == 1 && r.below(rare / 4) == 0 {
                let hash = r.next();
                let mut ops = vec![];
                if matches!(prop, "C01" | "C02") {
                    let (g, start) = many_spec(r);
                    s.graphs.push(g);
                    ops.push(Op::Max { g: 0, faulty: (faults && r.pct(60)) as usize, start });
                } else {
                    let (g, hub) = wide_spec(r);
                    let p = Plain::from_spec(&g);
                    s.graphs.push(g);
                    let kind = match prop {
                        "C03" => 1,
                        "C04" => 2,
                        "C05" => 3,
                        "C06" => 4,
                        "C11" => r.range(5, 6),
                        _ => r.range(1, 6),
                    };
                    let mut o = op(r, kind, 0, &p, 0);
                    if let Op::Dfs { root, .. } | Op::Bfs { root, .. } | Op::Table { root, .. } | Op::Build { root, .. } = &mut o {
                        if r.pct(80) {
                            *root = hub;
                        }
                    }
                    ops.push(o);
                }
                s.clients.push(Client { hash, ops });
                let p = rates(r, faults, clients);
                let t = Rng::new(r.next());
                return (s, p, t);
            }
            let s0 = spec(r, n);
            s.graphs.push(s0);
            if r.pct(50) {
                let t = if r.pct(60) {
                    twin(r, &s.graphs[0])
                } else {
                    let m = size(r, prop, false);
                    spec(r, m)
                };
                s.graphs.push(t);
            }
            if r.pct(10) {
                let m = size(r, prop, false);
                let t = spec(r, m);
                s.graphs.push(t);
            }
            let plains: Vec<Plain> = s.graphs.iter().map(Plain::from_spec).collect();
            let (main, side): (&[usize], &[usize]) = match prop {
                "C01" => (&[0], &[0, 0, 1, 2, 4]),
                "C02" => (&[0], &[0]),
                "C03" => (&[1], &[0, 1, 2, 3, 4]),
                "C04" => (&[2], &[2, 3, 4, 1, 5]),
                "C05" => (&[3], &[2, 3, 4, 1]),
                "C06" => (&[4], &[4, 2, 3, 1, 6]),
                "C14" => (&[2, 3, 4, 0], &[0, 1, 2, 3, 4, 5, 6]),
                "C11" => (&[5, 6], &[5, 6, 2, 4]),
                _ => (&[0, 0, 1, 2, 3, 4, 5, 6], &[0, 1, 2, 3, 4, 5, 6]),
            };
            for c in 0..clients {
                let mut ops = vec![];
                let most = if plains[0].nodes.len() > 40 { 2 } else { 4 };
                for o in 0..r.range(1, most) {
                    if prop == "C15" && r.pct(20) {
                        ops.push(standing(r));
                        continue;
                    }
                    let kinds = if (c == 0 && o == 0) || r.pct(65) { main } else { side };
                    let kind = *r.pick(kinds);
                    let g = if r.pct(60) { 0 } else { r.below(plains.len()) };
                    let faulty = if !faults {
                        0
                    } else if prop == "C02" {
                        r.range(1, 6)
                    } else {
                        *r.pick(&[0, 1, 1, 2, 3])
                    };
                    if (2..=4).contains(&kind) && r.pct(30) {
                        // Several lazy operations at once.
                        let mut subs = vec![];
                        for i in 0..r.range(2, 4) {
                            let k = if i == 0 || r.pct(50) { kind } else { r.range(2, 4) };
                            let h = if r.pct(60) { g } else { r.below(plains.len()) };
                            subs.push(op(r, k, h, &plains[h], 0));
                        }
                        let n = subs.len();
                        let order = (0..r.below(40)).map(|_| r.below(n)).collect();
                        ops.push(Op::Weave { faulty, subs, order });
                        continue;
                    }
                    ops.push(op(r, kind, g, &plains[g], faulty));
                }
                s.clients.push(Client { hash: r.next(), ops });
            }
        }
    }
    let p = rates(r, faults, clients);
    let t = Rng::new(r.next());
    (s, p, t)
}

/// Commands to repeat on a graph or pairing of the client's own.
fn standing(r: &mut Rng) -> Op {
    let mut ids = pool(r);
    ids.truncate(60);
    let two = |r: &mut Rng| loop {
        let (a, b) = (*r.pick(&ids), *r.pick(&ids));
        if a != b {
            return (a, b);
        }
    };
    let n = r.range(1, 30);
    if r.pct(60) {
        let mut cmds = vec![];
        let nodes = r.range(0, 80);
        for _ in 0..n {
            let (a, b) = two(r);
            cmds.push(match r.below(100) {
                x if x < nodes => GCmd::Node(a),
                99 => load(r, &ids),
                _ => GCmd::Edge(a, b),
            });
        }
        return Op::GTx { faulty: 0, cmds };
    }
    let mut cmds = vec![];
    for _ in 0..n {
        let (a, b) = two(r);
        cmds.push(match r.below(10) {
            0 => PCmd::Mate(a),
            1 => PCmd::Has(a),
            2 | 3 => {
                let mut v = ids.clone();
                r.shuffle(&mut v);
                let k = r.below(v.len().min(12) + 1);
                v.truncate(k);
                PCmd::Augment(v)
            }
            _ => PCmd::Pair(a, b),
        });
    }
    Op::PTx { faulty: 0, cmds }
}

fn pool(r: &mut Rng) -> Vec<usize> {
    let n = match r.below(1000) {
        0..=599 => r.range(3, 8),
        600..=899 => r.range(5, 16),
        900..=997 => r.range(16, 150),
        _ => r.log_range(150, 1400),
    };
    let mut v = labels(r, n);
    r.shuffle(&mut v);
    v
}

/// A whole list, about half the time with one thing wrong.
fn load(r: &mut Rng, ids: &[usize]) -> GCmd {
    let most = if r.pct(92) { 14 } else { 300 };
    let n = r.range(1, ids.len().min(most));
    let (m, mut e) = shape(r, n);
    if e.len() > 1200 {
        r.shuffle(&mut e);
        e.truncate(1200);
    }
    let wrong = r.pct(50);
    if r.pct(50) && m <= ids.len() {
        r.shuffle(&mut e);
        let mut v: Vec<_> = e.into_iter().map(|(a, b)| if r.pct(50) { (ids[a], ids[b]) } else { (ids[b], ids[a]) }).collect();
        if wrong && !v.is_empty() {
            let (a, b) = *r.pick(&v);
            let i = r.below(v.len() + 1);
            v.insert(i, if r.pct(50) { (a, b) } else { (b, a) });
        }
        return GCmd::Edges(v);
    }
    let mut adj = vec![vec![]; m];
    for (a, b) in e {
        adj[a].push(b);
        adj[b].push(a);
    }
    for v in &mut adj {
        r.shuffle(v);
    }
    if wrong {
        let i = r.below(m);
        let x = match r.below(4) {
            0 => m,
            1 => r.next() as usize,
            2 => r.below(m),
            _ => adj[i].first().copied().unwrap_or(m),
        };
        if r.pct(30) && !adj[i].is_empty() {
            let k = r.below(adj[i].len());
            adj[i].remove(k);
        } else if x != i {
            let k = r.below(adj[i].len() + 1);
            adj[i].insert(k, x);
        }
    }
    GCmd::Adj(adj)
}

fn shared_graph(r: &mut Rng, s: &mut Scenario, clients: usize, faults: bool) {
    let mut ids = pool(r);
    match if r.below(15_000) == 0 { 9 } else { r.below(4) } {
        // More nodes than sixteen bits count.
        9 => {
            let n = r.range(65_520, 67_000);
            let kind = r.below(5);
            let e: Vec<(usize, usize)> = (1..n)
                .map(|i| match kind {
                    0 => (0, i),
                    1 => (i - 1, i),
                    _ => (r.below(i), i),
                })
                .collect();
            let names = if r.pct(50) { labels(r, n) } else { (0..n).collect() };
            let mut t: Vec<usize> = vec![0, 1, 2, 65_534, 65_535, 65_536, 65_537, n - 2, n - 1];
            for _ in 0..12 {
                let x = r.below(n);
                t.extend([x, if x >= 65_536 { x - 65_536 } else { x }]);
            }
            t.retain(|&x| x < n);
            t.sort();
            t.dedup();
            if r.pct(50) {
                let mut e: Vec<_> = e.into_iter().map(|(a, b)| if r.pct(50) { (names[a], names[b]) } else { (names[b], names[a]) }).collect();
                if r.pct(30) {
                    r.shuffle(&mut e);
                }
                s.init = Init::Edges(e);
                t = t.into_iter().map(|x| names[x]).collect();
            } else {
                let mut adj = vec![vec![]; n];
                for (a, b) in e {
                    adj[a].push(b);
                    adj[b].push(a);
                }
                s.init = Init::Adj(adj);
            }
            for x in ids.drain(..).take(4) {
                if !t.contains(&x) {
                    t.push(x);
                }
            }
            r.shuffle(&mut t);
            ids = t;
        }
        0 => {
            let most = if r.pct(85) { 12 } else { 150 };
            let n = r.range(1, ids.len().min(most));
            let (m, mut e) = shape(r, n);
            while ids.len() < m {
                let x = r.next() as usize;
                if !ids.contains(&x) {
                    ids.push(x);
                }
            }
            r.shuffle(&mut e);
            s.init = Init::Edges(e.into_iter().map(|(a, b)| if r.pct(50) { (ids[a], ids[b]) } else { (ids[b], ids[a]) }).collect());
        }
        1 => {
            let n = if r.pct(90) { r.range(1, ids.len().min(12)) } else { r.range(10, 100) };
            let (m, e) = shape(r, n);
            let mut adj = vec![vec![]; m];
            for (a, b) in e {
                adj[a].push(b);
                adj[b].push(a);
            }
            for v in &mut adj {
                r.shuffle(v);
            }
            s.init = Init::Adj(adj);
            // Nodes are 0..m here: let the commands speak about them too.
            let k = ids.len().min(m + 2);
            let mut t: Vec<usize> = (0..k).collect();
            for x in ids.drain(..).take(3) {
                if !t.contains(&x) {
                    t.push(x);
                }
            }
            ids = t;
        }
        _ => {}
    }
    let nodes_first = r.pct(60) && s.init == Init::New;
    let node_pct = r.range(5, 60);
    let long = r.pct(15);
    let mut known: Vec<(usize, usize)> = vec![];
    for c in 0..clients {
        let mut ops = vec![];
        if c == 0 && nodes_first {
            let mut cmds: Vec<GCmd> = ids.iter().filter(|_| r.pct(85)).map(|&i| GCmd::Node(i)).collect();
            if cmds.is_empty() {
                cmds.push(GCmd::Node(ids[0]));
            }
            ops.push(Op::GTx { faulty: (faults && r.pct(30)) as usize, cmds });
        }
        // A whole shape at once: high degrees, many edges.
        if ids.len() > 14 && r.pct(50) {
            let n = ids.len();
            let (_, e) = shape(r, n);
            let mut cmds: Vec<GCmd> = e.into_iter().filter(|e| e.0 < n && e.1 < n).map(|(a, b)| if r.pct(50) { GCmd::Edge(ids[a], ids[b]) } else { GCmd::Edge(ids[b], ids[a]) }).collect();
            if r.pct(60) {
                r.shuffle(&mut cmds);
            }
            cmds.truncate(if n > 150 { r.range(100, 3000) } else { r.range(10, 400) });
            if !cmds.is_empty() {
                ops.push(Op::GTx { faulty: (faults && r.pct(30)) as usize, cmds });
            }
        }
        for _ in 0..r.range(1, if long { 10 } else { 4 }) {
            let faulty = (faults && r.pct(60)) as usize;
            if r.pct(65) {
                let mut cmds = vec![];
                for _ in 0..r.range(1, if long { 25 } else { 8 }) {
                    if r.pct(node_pct) {
                        cmds.push(GCmd::Node(*r.pick(&ids)));
                        continue;
                    }
                    if r.pct(5) {
                        cmds.push(load(r, &ids));
                        continue;
                    }
                    let (mut a, mut b) = (*r.pick(&ids), *r.pick(&ids));
                    if !known.is_empty() && r.pct(20) {
                        let e = *r.pick(&known);
                        (a, b) = if r.pct(50) { e } else { (e.1, e.0) };
                    }
                    if r.pct(4) {
                        b = r.next() as usize;
                    }
                    if a == b {
                        continue;
                    }
                    known.push((a, b));
                    cmds.push(GCmd::Edge(a, b));
                }
                if cmds.is_empty() {
                    cmds.push(GCmd::Node(*r.pick(&ids)));
                }
                ops.push(Op::GTx { faulty, cmds });
            } else {
                let mut qs = vec![];
                for _ in 0..r.range(1, 5) {
                    let a = if r.pct(95) { *r.pick(&ids) } else { r.next() as usize };
                    let mut b = if r.pct(95) { *r.pick(&ids) } else { r.next() as usize };
                    if a == b {
                        b = a ^ 1;
                    }
                    qs.push(match r.below(14) {
                        0 => GQuery::Audit,
                        1 => GQuery::Sizes,
                        2 => GQuery::Nodes,
                        3 => GQuery::Edges,
                        4 => GQuery::Nbrs(a),
                        5 => GQuery::Degree(a),
                        6 => GQuery::HasNode(a),
                        7 | 8 => GQuery::HasEdge(a, b),
                        9 => GQuery::Dfs(a),
                        10 => GQuery::Bfs(a),
                        11 | 12 => GQuery::Equal((r.next() >> 1) as usize),
                        _ => GQuery::Comps,
                    });
                }
                ops.push(Op::GRead { faulty, qs });
            }
        }
        s.clients.push(Client { hash: r.next(), ops });
    }
}

fn shared_pairing(r: &mut Rng, s: &mut Scenario, clients: usize, faults: bool) {
    let mut ids = pool(r);
    ids.truncate(if r.pct(80) { 24 } else { 1400 });
    let far = if r.pct(70) { 10 } else { 1400 };
    let long = r.pct(15);
    let aug = r.range(5, 70);
    for _ in 0..clients {
        let mut ops = vec![];
        for _ in 0..r.range(1, if long { 8 } else { 4 }) {
            let faulty = (faults && r.pct(60)) as usize;
            let mut cmds = vec![];
            for _ in 0..r.range(1, if long { 20 } else { 6 }) {
                if r.pct(25) {
                    cmds.push(match r.below(4) {
                        0 | 1 => PCmd::Mate(*r.pick(&ids)),
                        2 => PCmd::Has(*r.pick(&ids)),
                        _ => PCmd::Audit,
                    });
                } else if r.pct(aug) {
                    let mut v = ids.clone();
                    r.shuffle(&mut v);
                    let mut n = r.below(v.len().min(far) + 1);
                    if r.pct(70) {
                        n &= !1;
                    }
                    v.truncate(n);
                    cmds.push(PCmd::Augment(v));
                } else {
                    let (a, b) = (*r.pick(&ids), *r.pick(&ids));
                    if a != b {
                        cmds.push(PCmd::Pair(a, b));
                    }
                }
            }
            if cmds.is_empty() {
                cmds.push(PCmd::Audit);
            }
            ops.push(Op::PTx { faulty, cmds });
        }
        s.clients.push(Client { hash: r.next(), ops });
    }
}
