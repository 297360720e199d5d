//! C19: boundary orderings equal reachability between boundary ports.

use ::portgraph::boundary::{Boundary, BoundaryPort, HasBoundary, PortOrdering};
use ::portgraph::view::Subgraph;
use ::portgraph::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use vpharness::convexity::{pick_set, succ_of};
use vpharness::gen::*;
use vpharness::graphchecks::{Multi, Plain};
use vpharness::hist::Gut;
use vpharness::model::*;
use vpharness::run::*;
use vpharness::{ensure, ensure_eq};

type Set = BTreeSet<NodeIndex>;
/// Pairs of positions (input, output).
type Pairs = BTreeSet<(usize, usize)>;

/// Which outputs are reached from which inputs through the given links.
fn pairs(m: &Model, ins: &[PortIndex], outs: &[PortIndex], follow: impl Fn(PortIndex, PortIndex) -> bool) -> Pairs {
    let mut r = Pairs::new();
    for (i, p) in ins.iter().enumerate() {
        let mut seen = Set::from([m.node(*p)]);
        let mut todo = vec![m.node(*p)];
        while let Some(n) = todo.pop() {
            for (a, b) in m.links_of(n, Direction::Outgoing) {
                let t = m.node(b.0);
                if follow(a.0, b.0) && seen.insert(t) {
                    todo.push(t);
                }
            }
        }
        for (j, q) in outs.iter().enumerate() {
            if seen.contains(&m.node(*q)) {
                r.insert((i, j));
            }
        }
    }
    r
}

fn acyclic(m: &Model, follow: impl Fn(PortIndex, PortIndex) -> bool) -> bool {
    let mut into: BTreeMap<NodeIndex, usize> = m.nodes.keys().map(|n| (*n, 0)).collect();
    let out = |n: NodeIndex| m.links_of(n, Direction::Outgoing).into_iter().filter(|(a, b)| follow(a.0, b.0)).map(|(_, b)| m.node(b.0)).collect::<Vec<_>>();
    for n in m.nodes.keys() {
        for t in out(*n) {
            *into.get_mut(&t).unwrap() += 1;
        }
    }
    let mut todo: Vec<NodeIndex> = into.iter().filter(|(_, k)| **k == 0).map(|(n, _)| *n).collect();
    let mut done = 0;
    while let Some(n) = todo.pop() {
        done += 1;
        for t in out(n) {
            let k = into.get_mut(&t).unwrap();
            *k -= 1;
            if *k == 0 {
                todo.push(t);
            }
        }
    }
    done == m.nodes.len()
}

/// The positions and ports of a boundary.
fn check_boundary(b: &Boundary, ins: &[PortIndex], outs: &[PortIndex], tag: &str) {
    let s = |x: &str| format!("{tag}:{x}");
    ensure_eq!(b.input_indices(), ins, s("inputs"), "input ports of {b:?}");
    ensure_eq!(b.output_indices(), outs, s("outputs"), "output ports of {b:?}");
    ensure_eq!(b.port_indices().collect::<Vec<_>>(), [ins, outs].concat(), s("port_indices"), "port_indices of {b:?}");
    ensure_eq!(b.num_ports(), ins.len() + outs.len(), s("num_ports"), "num_ports of {b:?}");
    for (dir, v) in DIRS.into_iter().zip([ins, outs]) {
        let p: Vec<BoundaryPort> = b.ports(dir).collect();
        ensure_eq!(p.len(), v.len(), s("ports"), "number of {dir:?} ports of {b:?}");
        let q: Vec<BoundaryPort> = if dir == Direction::Incoming { b.inputs().collect() } else { b.outputs().collect() };
        ensure_eq!(p, q, s("ports-dir"), "{dir:?} ports of {b:?}");
        ensure_eq!(p.iter().collect::<HashSet<_>>().len(), v.len(), s("ports-distinct"), "distinct {dir:?} ports of {b:?}");
        for (x, y) in p.iter().zip(v) {
            ensure_eq!(b.port_index(x), *y, s("port_index"), "port_index({x:?}) of {b:?}");
            ensure_eq!(b.find_port(*y, dir), *x, s("find_port"), "find_port({y:?}) of {b:?}");
        }
    }
}

fn read(b: &Boundary, o: &PortOrdering, tag: &str) -> Pairs {
    let mut r = Pairs::new();
    let ins: Vec<_> = b.inputs().collect();
    let outs: Vec<_> = b.outputs().collect();
    for (i, p) in ins.iter().enumerate() {
        for q in o.reachable_ports(*p) {
            match outs.iter().position(|x| x == q) {
                Some(j) => r.insert((i, j)),
                None => vio(format!("{tag}:foreign"), format!("{q:?}, reported to be reachable from {p:?}, is no output of {b:?}")),
            };
        }
    }
    let mut back = Pairs::new();
    for (j, q) in outs.iter().enumerate() {
        for p in o.reaching_ports(*q) {
            match ins.iter().position(|x| x == p) {
                Some(i) => back.insert((i, j)),
                None => vio(format!("{tag}:foreign"), format!("{p:?}, reported to reach {q:?}, is no input of {b:?}")),
            };
        }
    }
    ensure_eq!(back, r, format!("{tag}:reaching"), "pairs by reaching_ports, against those by reachable_ports, of {b:?}");
    r
}

struct Judged {
    b: Boundary,
    o: PortOrdering,
    pairs: Pairs,
}

fn order<V: LinkView>(c: &mut Case, v: &V, m: &Model, b: &Boundary, multi: bool, tag: &str) -> Option<Judged> {
    let (ins, outs) = (b.input_indices(), b.output_indices());
    let cut: BTreeSet<PortIndex> = b.port_indices().collect();
    let follow = |p: PortIndex, q: PortIndex| !cut.contains(&p) && !cut.contains(&q);
    // the part enclosed by the boundary
    let mut inside: Set = cut.iter().map(|p| m.node(*p)).collect();
    let mut todo: Vec<_> = inside.iter().copied().collect();
    while let Some(n) = todo.pop() {
        for (x, y) in m.all_links_of(n) {
            if follow(x.0, y.0) && inside.insert(m.node(y.0)) {
                todo.push(m.node(y.0));
            }
        }
    }
    let part = m.restrict(|n| inside.contains(&n), |_, _| true);
    if !acyclic(&part, follow) {
        c.count("cyclic_parts_skipped", 1);
        return None;
    }
    let o = must("port_ordering", || b.port_ordering(v));
    let got = read(b, &o, tag);
    let low = pairs(&part, ins, outs, follow);
    // ports of a multigraph that are linked both inside and outside can be read in two ways
    let mixed = multi && cut.iter().any(|p| m.port_links(*p).len() > 1);
    if mixed {
        let high = pairs(m, ins, outs, |_, _| true);
        ensure!(low.is_subset(&got), format!("{tag}:missing"), "ordered pairs {got:?} of {b:?} lack some of {low:?}");
        ensure!(got.is_subset(&high), format!("{tag}:extra"), "ordered pairs {got:?} of {b:?}, but only {high:?} are reachable");
        c.count("mixed_boundaries", 1);
    } else {
        ensure_eq!(got, low, format!("{tag}:order"), "pairs (input, output) ordered by {b:?}");
    }
    c.count("orderings", 1);
    c.count("ordered_pairs", got.len() as u64);
    c.max("max_boundary_ports", b.num_ports() as u64);
    Some(Judged { b: b.clone(), o, pairs: got })
}

fn boundary_of(c: &mut Case, m: &Model) -> (Vec<PortIndex>, Set) {
    let succ = succ_of(m);
    let set = pick_set(c, m, &succ);
    let mut v: Vec<PortIndex> = set.iter().flat_map(|n| m.all_ports(*n)).filter(|p| m.port_links(*p).iter().any(|(_, b)| !set.contains(&m.node(b.0)))).collect();
    match c.rng.below(5) {
        0 => {
            // any ports of the set
            let k = c.rng.below(11);
            v = set.iter().flat_map(|n| m.all_ports(*n)).filter(|_| c.rng.chance(k, 10)).collect();
        }
        1 => {
            // with unlinked ports as well
            let have: BTreeSet<_> = v.iter().copied().collect();
            v.extend(set.iter().flat_map(|n| m.all_ports(*n)).filter(|p| !m.linked(*p) && !have.contains(p)));
        }
        2 => {
            // a few dropped, a few others
            v.retain(|_| c.rng.chance(4, 5));
            let have: BTreeSet<_> = v.iter().copied().collect();
            v.extend(m.ports.keys().filter(|p| !have.contains(p)).copied().filter(|_| c.rng.chance(1, 8)));
        }
        _ => (),
    }
    c.rng.shuffle(&mut v);
    (v, set)
}

fn on_graph<G: Gut>(c: &mut Case, g: &G, m: &Model) -> Option<Judged> {
    c.log(|| format!("graph {}", m.describe()));
    c.feed(m.fingerprint());
    let (ports, set) = boundary_of(c, m);
    let (ins, outs): (Vec<_>, Vec<_>) = ports.iter().copied().partition(|p| m.dir(*p) == Direction::Incoming);
    let b = if c.rng.bool() {
        must("from_ports", || Boundary::from_ports(g, ports.clone()))
    } else {
        Boundary::new(ins.clone(), outs.clone())
    };
    check_boundary(&b, &ins, &outs, "ports");
    c.log(|| format!("boundary {b:?}"));
    for p in &ports {
        c.feed(p.index() as u64);
    }
    match c.rng.below(4) {
        0 => order(c, g, m, &b, G::MULTI, "graph"),
        1 => {
            let s = Subgraph::new_subgraph(g, b.clone());
            let nodes: Set = s.nodes_iter().collect();
            let sm = m.restrict(|n| nodes.contains(&n), |_, _| true);
            check_boundary(&s.port_boundary(), &ins, &outs, "new_subgraph");
            order(c, &s, &sm, &b, G::MULTI, "new_subgraph")
        }
        2 => {
            let mut v: Vec<_> = set.iter().copied().collect();
            c.rng.shuffle(&mut v);
            let s = Subgraph::with_nodes(g, v.clone());
            // the linked ports joining the nodes to the rest, in the order of the nodes
            let mut exp = [vec![], vec![]];
            for n in &v {
                for k in 0..2 {
                    exp[k].extend(m.nodes[n][k].iter().copied().filter(|p| m.port_links(*p).iter().any(|(_, b)| !set.contains(&m.node(b.0)))));
                }
            }
            let b = s.port_boundary().into_owned();
            check_boundary(&b, &exp[0], &exp[1], "with_nodes");
            let sm = m.restrict(|n| set.contains(&n), |_, _| true);
            if c.rng.bool() {
                order(c, &s, &sm, &b, G::MULTI, "with_nodes")
            } else {
                order(c, g, m, &b, G::MULTI, "with_nodes-graph")
            }
        }
        _ => {
            let mut k = Keep::random(&mut c.rng, m);
            k.nodes.extend(ports.iter().map(|p| m.node(*p)));
            let fm = k.apply(m);
            order(c, &filtered(g, k), &fm, &b, G::MULTI, "filtered")
        }
    }
}

fn single<G: Gut>(c: &mut Case) {
    let sh = shape_big(c, 16);
    let (g, m) = graph::<G>(&mut c.rng, sh);
    let r = on_graph(c, &g, &m);
    c.nontrivial_if(r.is_some_and(|j| !j.pairs.is_empty()));
}

fn wide<G: Gut>(c: &mut Case) {
    let n = 15 + c.rng.below(3 * c.size);
    let sh = Shape { nodes: n, acyclic: true, density: *c.rng.pick(&[2, 3, 5, 8]), max_ports: *c.rng.pick(&[2, 3, 5, 10]) };
    let (g, m) = graph::<G>(&mut c.rng, sh);
    let r = on_graph(c, &g, &m);
    c.nontrivial_if(r.is_some_and(|j| !j.pairs.is_empty()));
}

/// Compare the orderings of boundaries with equally many ports.
fn compare<G: Gut>(c: &mut Case) {
    let (ni_, no) = (c.rng.below(5), c.rng.below(5));
    let mut found: Vec<(G, Judged)> = vec![];
    for _ in 0..2 + c.rng.below(2) {
        let mut sh = shape(c, 10);
        sh.acyclic = true;
        sh.nodes = sh.nodes.max(3);
        let (mut g, mut m) = graph::<G>(&mut c.rng, sh);
        let mut pick = |g: &mut G, m: &mut Model, dir: Direction, k: usize| {
            let mut v: Vec<PortIndex> = m.ports.iter().filter(|(_, x)| x.1 == dir).map(|(p, _)| *p).collect();
            c.rng.shuffle(&mut v);
            // prefer unlinked ports, so that the inside stays in one piece
            v.sort_by_key(|p| m.linked(*p));
            v.truncate(k);
            while v.len() < k {
                let (i, o) = if dir == Direction::Incoming { (1, 0) } else { (0, 1) };
                let n = g.add_node(i, o);
                m.add_node(n, g.inputs(n).collect(), g.outputs(n).collect());
                v.push(m.nodes[&n][d(dir)][0]);
            }
            v
        };
        let ins = pick(&mut g, &mut m, Direction::Incoming, ni_);
        let outs = pick(&mut g, &mut m, Direction::Outgoing, no);
        let b = Boundary::new(ins, outs);
        c.log(|| format!("graph {} boundary {b:?}", m.describe()));
        c.feed(m.fingerprint());
        if let Some(j) = order(c, &g, &m, &b, G::MULTI, "compare") {
            found.push((g, j));
        }
    }
    for (ga, a) in &found {
        for (gb, b) in &found {
            ensure!(a.b.is_compatible(&b.b), "compatible", "{:?} and {:?} have equally many ports, but are not compatible", a.b, b.b);
            let exp = b.pairs.is_subset(&a.pairs);
            ensure_eq!(a.o.is_stronger_than(&b.o), exp, "stronger", "ordering {:?} stronger than {:?}", a.pairs, b.pairs);
            ensure_eq!(must("is_stronger_than", || a.b.is_stronger_than(&b.b, ga, gb)), exp, "stronger-boundary", "boundary with {:?} stronger than that with {:?}", a.pairs, b.pairs);
            let (ins, outs): (Vec<_>, Vec<_>) = (b.b.inputs().collect(), b.b.outputs().collect());
            let miss: Vec<_> = a.o.missing_pairs(&b.o).collect();
            let set: Pairs = miss.iter().map(|(x, y)| (ins.iter().position(|z| z == x).unwrap_or(99), outs.iter().position(|z| z == y).unwrap_or(99))).collect();
            ensure_eq!(set, b.pairs.difference(&a.pairs).copied().collect(), "missing", "missing pairs of {:?} against {:?}", a.pairs, b.pairs);
            ensure_eq!(miss.len(), set.len(), "missing-twice", "number of missing pairs of {:?} against {:?}", a.pairs, b.pairs);
            ensure_eq!(a.o == b.o, a.pairs == b.pairs, "equal", "equality of orderings {:?} and {:?}", a.pairs, b.pairs);
            c.count(if exp { "stronger" } else { "not_stronger" }, 1);
        }
    }
    // of different sizes
    let (x, y) = (c.rng.below(4), c.rng.below(4));
    if let Some((_, a)) = found.first() {
        let other = Boundary::new((0..x).map(pi), (9..9 + y).map(pi));
        ensure_eq!(a.b.is_compatible(&other), (x, y) == (ni_, no), "compatible", "{ni_} inputs and {no} outputs compatible with {x} and {y}");
        ensure_eq!(other.is_compatible(&a.b), (x, y) == (ni_, no), "compatible", "{x} inputs and {y} outputs compatible with {ni_} and {no}");
    }
    c.nontrivial_if(found.iter().any(|(_, a)| !a.pairs.is_empty()));
}

type P = Plain<u16>;
type M = Multi<u16>;
pub static CHECK: Check = Check {
    prop: "C19",
    rule: "random boundaries (of node sets, of arbitrary ports, with unlinked ports) of random graphs of both kinds, asked on the graph itself, on subgraphs and on filtered graphs; orderings judged by reachability inside the boundary; non-trivial if some pair is ordered",
    assumptions: &["the part enclosed by the boundary is acyclic", "no port is given twice", "in a multigraph, a boundary port linked both inside and outside may be read as cutting its inner links or not"],
    suites: &[
        Suite { name: "plain", quick: 240000, thorough: 2000000, max_size: 20, f: single::<P> },
        Suite { name: "multi", quick: 240000, thorough: 2000000, max_size: 20, f: single::<M> },
        Suite { name: "wide", quick: 24000, thorough: 200000, max_size: 20, f: wide::<P> },
        Suite { name: "wide_multi", quick: 24000, thorough: 200000, max_size: 20, f: wide::<M> },
        Suite { name: "compare", quick: 80000, thorough: 640000, max_size: 20, f: compare::<P> },
        Suite { name: "compare_multi", quick: 80000, thorough: 640000, max_size: 20, f: compare::<M> },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
