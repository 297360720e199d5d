//! C17: convexity checks agree with the definition.

use ::portgraph::algorithms::convex::{LineConvexChecker, LineIndex, LineIntervals, TopoConvexChecker};
use ::portgraph::algorithms::{ConvexChecker, CreateConvexChecker};
use ::portgraph::boundary::{Boundary, HasBoundary};
use ::portgraph::view::{FlatRegion, Region, Subgraph};
use ::portgraph::*;
use std::collections::{BTreeMap, BTreeSet};
use vpharness::convexity::*;
use vpharness::forest::Forest;
use vpharness::gen::*;
use vpharness::graphchecks::{Multi, Plain};
use vpharness::hist::Gut;
use vpharness::model::*;
use vpharness::run::*;
use vpharness::{ensure, ensure_eq};

fn as_map(l: &LineIntervals) -> BTreeMap<LineIndex, (u32, u32)> {
    l.iter().map(|(l, i)| (l, (i.min.0, i.max.0))).collect()
}

struct Lines {
    lines: BTreeMap<LineIndex, Vec<NodeIndex>>,
}

impl Lines {
    /// Reconstructs the lines and checks that they partition the links into paths.
    fn read<V: LinkView>(k: &LineConvexChecker<V>, m: &Model, succ: &Succ) -> Lines {
        let mut lines: BTreeMap<LineIndex, Vec<NodeIndex>> = BTreeMap::new();
        for n in m.nodes.keys() {
            let l = k.get_lines(*n);
            ensure!(!l.is_empty(), "lines-none", "{n:?} is on no line");
            for x in l {
                lines.entry(*x).or_default().push(*n);
            }
            for t in &succ[n] {
                ensure!(k.get_position(*n) < k.get_position(*t), "lines-position", "{n:?} is linked to {t:?}, but at position {:?}, not below {:?}", k.get_position(*n), k.get_position(*t));
            }
        }
        let mut steps: BTreeMap<(NodeIndex, NodeIndex), usize> = BTreeMap::new();
        for (x, v) in &mut lines {
            v.sort_by_key(|n| k.get_position(*n));
            for w in v.windows(2) {
                ensure!(w[0] != w[1], "lines-twice", "{:?} is twice on {x:?}", w[0]);
                *steps.entry((w[0], w[1])).or_default() += 1;
            }
        }
        let mut links: BTreeMap<(NodeIndex, NodeIndex), usize> = BTreeMap::new();
        for (a, b) in &m.links {
            if m.dir(a.0) == Direction::Outgoing {
                *links.entry((m.node(a.0), m.node(b.0))).or_default() += 1;
            }
        }
        ensure_eq!(steps, links, "lines-partition", "steps of all lines, against the links");
        // lines at a port go on to, or come from, the nodes linked there
        for (p, (n, dir, _)) in &m.ports {
            let at = k.lines_at_port(*p);
            let mut got: Vec<NodeIndex> = vec![];
            for x in at {
                let v = &lines[x];
                let i = v.iter().position(|y| y == n);
                let Some(i) = i else { vio("lines-port", format!("{x:?} is reported at {p:?}, but does not pass {n:?}")) };
                let j = if *dir == Direction::Outgoing { i + 1 } else { i.wrapping_sub(1) };
                ensure!(j < v.len(), "lines-port-end", "{x:?} is reported at {p:?}, but ends there");
                got.push(v[j]);
            }
            let mut exp: Vec<NodeIndex> = m.port_links(*p).iter().map(|(_, b)| m.node(b.0)).collect();
            got.sort();
            exp.sort();
            ensure_eq!(got, exp, "lines-port-ends", "nodes next to {p:?} on lines_at_port");
            let there: BTreeSet<LineIndex> = m.port_links(*p).iter().flat_map(|(_, b)| k.lines_at_port(b.0)).copied().collect();
            ensure!(at.iter().all(|x| there.contains(x)), "lines-port-other", "lines {at:?} at {p:?}, but {there:?} at the linked ports");
        }
        Lines { lines }
    }
    /// The intervals of the set, if it is contiguous on each of its lines.
    fn intervals<V: LinkView>(&self, k: &LineConvexChecker<V>, set: &Set) -> Option<BTreeMap<LineIndex, (u32, u32)>> {
        let mut r = BTreeMap::new();
        for x in set.iter().flat_map(|n| k.get_lines(*n)) {
            let v = &self.lines[x];
            let at: Vec<usize> = (0..v.len()).filter(|i| set.contains(&v[*i])).collect();
            let (lo, hi) = (at[0], *at.last().unwrap());
            if hi - lo + 1 != at.len() {
                return None;
            }
            r.insert(*x, (k.get_position(v[lo]).0, k.get_position(v[hi]).0));
        }
        Some(r)
    }
}

/// Both checkers for a graph, asked about one set in every way.
struct Both<V> {
    topo: TopoConvexChecker<V>,
    line: LineConvexChecker<V>,
    lines: Lines,
}

impl<V: LinkView + Clone> Both<V> {
    fn new(v: &V, m: &Model, succ: &Succ) -> Self {
        let topo = must("TopoConvexChecker::new", || TopoConvexChecker::new_convex_checker(v.clone()));
        let line = must("LineConvexChecker::new", || LineConvexChecker::new_convex_checker(v.clone()));
        for (what, g) in [("topo", CreateConvexChecker::graph(&topo)), ("line", CreateConvexChecker::graph(&line))] {
            let same = g.nodes_iter().eq(v.nodes_iter()) && m.nodes.keys().all(|n| g.output_links(*n).map(|(a, b)| (a.into(), b.into())).eq(v.output_links(*n).map(|(a, b)| (a.into(), b.into()) as (PortIndex, PortIndex))));
            ensure!(same, "graph", "graph() of the {what} checker is not the graph it was made for");
        }
        let lines = must("lines", || Lines::read(&line, m, succ));
        Both { topo, line, lines }
    }

    fn nodes(&self, c: &mut Case, m: &Model, succ: &Succ, set: &Set) {
        let exp = convex(succ, set);
        c.count(if exp { "convex_sets" } else { "non_convex_sets" }, 1);
        let mut v = shuffled(c, set);
        let line = must("LineConvexChecker::is_node_convex", || self.line.is_node_convex(v.clone()));
        ensure_eq!(line, exp, "line", "LineConvexChecker::is_node_convex({v:?})");
        let none: [PortIndex; 0] = [];
        if c.rng.chance(1, 3) {
            ensure_eq!(self.line.is_convex(v.clone(), none, none), exp, "line-ports-none", "LineConvexChecker::is_convex({v:?}, [], [])");
        }
        let iv = must("get_intervals_from_nodes", || self.line.get_intervals_from_nodes(v.clone()));
        let model = self.lines.intervals(&self.line, set);
        ensure_eq!(iv.as_ref().map(as_map), model, "intervals", "get_intervals_from_nodes({v:?})");
        if let Some(iv) = &iv {
            let got = must("is_convex_by_intervals", || self.line.is_convex_by_intervals(iv));
            ensure_eq!(got, exp, "by-intervals", "is_convex_by_intervals for {v:?}");
            ensure_eq!(iv.is_empty(), set.is_empty(), "intervals-empty", "LineIntervals::is_empty for {v:?}");
            ensure_eq!(iv.values().count(), iv.iter().count(), "intervals-values", "number of intervals");
            for (l, i) in iv.iter() {
                ensure_eq!(iv.get(l), Some(i), "intervals-get", "LineIntervals::get({l:?})");
            }
            let back: Vec<NodeIndex> = must("nodes_in_intervals", || self.line.nodes_in_intervals(iv).collect());
            ensure_eq!(back.iter().copied().collect::<Set>(), *set, "nodes-in", "nodes_in_intervals, as a set");
            ensure_eq!(back.len(), set.len(), "nodes-in-twice", "number of nodes_in_intervals");
            ensure!(back.windows(2).all(|w| self.line.get_position(w[0]) <= self.line.get_position(w[1])), "nodes-in-order", "nodes_in_intervals {back:?} are not ordered by position");
            // extending
            let all: Vec<NodeIndex> = m.nodes.keys().copied().collect();
            for _ in 0..3.min(all.len()) {
                let n = *c.rng.pick(&all);
                let mut ext = iv.clone();
                let ok = must("try_extend_intervals", || self.line.try_extend_intervals(&mut ext, n));
                let mut set2 = set.clone();
                set2.insert(n);
                let exp = self.lines.intervals(&self.line, &set2);
                ensure_eq!(ok, exp.is_some(), "extend", "try_extend_intervals of {v:?} by {n:?}");
                ensure_eq!(as_map(&ext), exp.unwrap_or_else(|| as_map(iv)), "extend-result", "intervals of {v:?} after extending by {n:?} (accepted: {ok})");
                ensure_eq!(ext.iter().count(), as_map(&ext).len(), "extend-double", "number of lines after extending by {n:?}");
                ensure!(ok || ext == *iv, "extend-refused", "intervals changed by a refused extension by {n:?}");
                if ok {
                    ensure_eq!(self.line.is_convex_by_intervals(&ext), convex(succ, &set2), "extend-convex", "is_convex_by_intervals of {v:?} extended by {n:?}");
                    c.count("extensions", 1);
                } else {
                    c.count("refused_extensions", 1);
                }
            }
        }
        // repetitions are allowed here
        if !v.is_empty() && c.rng.bool() {
            let x = *c.rng.pick(&v);
            v.push(x);
        }
        let topo = must("TopoConvexChecker::is_node_convex", || self.topo.is_node_convex(v.clone()));
        ensure_eq!(topo, exp, "topo", "TopoConvexChecker::is_node_convex({v:?})");
    }

    fn ports(&self, c: &mut Case, m: &Model, succ: &Succ, set: &Set) {
        let (ins, outs) = (some_ports(c, m, set, Direction::Incoming), some_ports(c, m, set, Direction::Outgoing));
        let joined = outs.iter().any(|p| m.port_links(*p).iter().any(|(_, b)| ins.contains(&b.0)));
        let exp = !joined && convex(succ, set);
        let v = shuffled(c, set);
        let a = must("TopoConvexChecker::is_convex", || self.topo.is_convex(v.clone(), ins.clone(), outs.clone()));
        ensure_eq!(a, exp, "topo-ports", "TopoConvexChecker::is_convex({v:?}, {ins:?}, {outs:?})");
        let a = must("LineConvexChecker::is_convex", || self.line.is_convex(v.clone(), ins.clone(), outs.clone()));
        ensure_eq!(a, exp, "line-ports", "LineConvexChecker::is_convex({v:?}, {ins:?}, {outs:?})");
        c.count(if joined { "joined_boundaries" } else { "boundaries" }, 1);
    }

    /// The intervals of a subgraph given by its boundary.
    fn boundary(&self, c: &mut Case, v: &V, m: &Model, succ: &Succ, set: &Set) {
        let exact = c.rng.bool();
        let mut ports: Vec<PortIndex> = set.iter().flat_map(|n| m.all_ports(*n)).filter(|p| m.port_links(*p).iter().any(|(_, b)| !set.contains(&m.node(b.0)))).collect();
        if !exact {
            ports.retain(|_| c.rng.chance(5, 6));
            ports.extend(m.ports.keys().copied().filter(|_| c.rng.chance(1, 12)));
            let s: BTreeSet<_> = ports.into_iter().collect();
            ports = s.into_iter().collect();
        }
        c.rng.shuffle(&mut ports);
        // what it encloses
        let cut: BTreeSet<_> = ports.iter().copied().collect();
        let mut inside: Set = ports.iter().map(|p| m.node(*p)).collect();
        if ports.is_empty() {
            inside = m.nodes.keys().copied().collect();
        }
        let mut todo: Vec<NodeIndex> = inside.iter().copied().collect();
        while let Some(n) = todo.pop() {
            for (a, b) in m.all_links_of(n) {
                let t = m.node(b.0);
                if !cut.contains(&a.0) && !cut.contains(&b.0) && inside.insert(t) {
                    todo.push(t);
                }
            }
        }
        let exp = self.lines.intervals(&self.line, &inside);
        let iv = must("get_intervals_from_boundary_ports", || self.line.get_intervals_from_boundary_ports(ports.clone()));
        ensure_eq!(iv.as_ref().map(as_map), exp, "boundary-ports", "get_intervals_from_boundary_ports({ports:?}), which encloses {inside:?}");
        let b = Boundary::from_ports(v, ports.clone());
        let iv2 = must("get_intervals_from_boundary", || self.line.get_intervals_from_boundary(&b));
        ensure_eq!(iv2.as_ref().map(as_map), exp, "boundary", "get_intervals_from_boundary({b:?}), which encloses {inside:?}");
        let joined = b.output_indices().iter().any(|p| m.port_links(*p).iter().any(|(_, q)| b.input_indices().contains(&q.0)));
        let sub = Subgraph::new_subgraph(v.clone(), b.clone());
        let exp = !joined && convex(succ, &inside);
        ensure_eq!(must("Subgraph::is_convex", || sub.is_convex()), exp, "boundary-subgraph", "Subgraph::is_convex for boundary {ports:?}, which encloses {inside:?}");
        ensure_eq!(must("Subgraph::is_convex_with_checker", || sub.is_convex_with_checker(&self.line)), exp, "boundary-subgraph-line", "is_convex_with_checker (line) for boundary {ports:?}, which encloses {inside:?}");
        if let Some(iv) = iv {
            ensure_eq!(self.line.is_convex_by_intervals(&iv), convex(succ, &inside), "boundary-convex", "is_convex_by_intervals for boundary {ports:?}, which encloses {inside:?}");
        }
        c.count("boundary_intervals", 1);
    }
}

fn look<V: LinkView + Clone>(c: &mut Case, v: &V, m: &Model, rounds: usize) {
    c.log(|| format!("graph {}", m.describe()));
    c.feed(m.fingerprint());
    let succ = succ_of(&m);
    let mut both = Both::new(v, m, &succ);
    let mut grown: Option<(LineIntervals, Set)> = None;
    for i in 0..rounds {
        match c.rng.below(12) {
            0 => both = Both::new(v, m, &succ),
            1 => both.line = both.line.clone(),
            2 => both.line.shrink_to_fit(),
            _ => (),
        }
        let set = if i == 0 && c.rng.chance(1, 6) { Set::new() } else { pick_set(c, m, &succ) };
        c.log(|| format!("set {set:?}"));
        both.nodes(c, m, &succ, &set);
        both.ports(c, m, &succ, &set);
        if c.rng.bool() {
            both.boundary(c, v, m, &succ, &set);
        }
        // one collection of intervals grown node by node over the whole run
        let (iv, set) = grown.get_or_insert_with(Default::default);
        let all: Vec<NodeIndex> = m.nodes.keys().copied().collect();
        if !all.is_empty() {
            let n = *c.rng.pick(&all);
            let mut set2 = set.clone();
            set2.insert(n);
            let exp = both.lines.intervals(&both.line, &set2);
            let ok = must("try_extend_intervals", || both.line.try_extend_intervals(iv, n));
            ensure_eq!(ok, exp.is_some(), "grow", "try_extend_intervals of {set:?} by {n:?}");
            if ok {
                *set = set2;
            }
            ensure_eq!(Some(as_map(iv)), both.lines.intervals(&both.line, set), "grow-result", "intervals grown to {set:?}");
            ensure_eq!(both.line.is_convex_by_intervals(iv), convex(&succ, set), "grow-convex", "is_convex_by_intervals, grown to {set:?}");
            if c.rng.chance(1, 10) || i % 3 == 2 && !ok {
                grown = None;
            }
        }
    }
    c.nontrivial_if(m.link_count() > 1);
}

fn graphs<G: Gut>(c: &mut Case) {
    let mut sh = shape(c, 14);
    sh.acyclic = true;
    let (g, m) = graph::<G>(&mut c.rng, sh);
    if c.rng.bool() {
        look(c, &g, &m, 6);
    } else {
        look(c, &&g, &m, 6);
    }
}

/// Every set of nodes of a small graph.
fn all_sets<G: Gut>(c: &mut Case) {
    let mut sh = shape(c, 9);
    sh.acyclic = true;
    sh.density = sh.density.max(1);
    let (g, m) = graph::<G>(&mut c.rng, sh);
    c.feed(m.fingerprint());
    c.log(|| format!("graph {}", m.describe()));
    let succ = succ_of(&m);
    let both = Both::new(&g, &m, &succ);
    let all: Vec<NodeIndex> = m.nodes.keys().copied().collect();
    for bits in 0..1usize << all.len().min(9) {
        let set: Set = all.iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).map(|(_, n)| *n).collect();
        both.nodes(c, &m, &succ, &set);
        if c.rng.chance(1, 8) {
            both.ports(c, &m, &succ, &set);
        }
    }
    c.nontrivial_if(m.link_count() > 1);
}

/// Long and wide graphs: more lines than are kept inline.
fn wide<G: Gut>(c: &mut Case) {
    let n = 15 + c.rng.below(4 * c.size);
    let sh = Shape { nodes: n, acyclic: true, density: *c.rng.pick(&[2, 3, 6, 10]), max_ports: *c.rng.pick(&[3, 6, 12, 20]) };
    let (g, m) = graph::<G>(&mut c.rng, sh);
    c.max("max_largest_graph", m.nodes.len() as u64);
    look(c, &g, &m, 8);
}

fn views<G: Gut>(c: &mut Case) {
    let mut sh = shape(c, 14);
    // the base may have cycles as long as the view has none
    sh.acyclic = c.rng.chance(2, 3);
    let (g, m) = graph::<G>(&mut c.rng, sh);
    let nodes: Vec<usize> = m.nodes.keys().map(|n| n.index()).collect();
    let f = Forest::random(&mut c.rng, &nodes);
    let h = f.build();
    let root = *c.rng.pick(&nodes);
    let acyclic = |m: &Model| {
        let mut left: Set = m.nodes.keys().copied().collect();
        while let Some(n) = left.iter().copied().find(|n| !m.nbrs(*n, Direction::Incoming).iter().any(|p| left.contains(p))) {
            left.remove(&n);
        }
        left.is_empty()
    };
    match c.rng.below(4) {
        0 => {
            let k = Keep::random(&mut c.rng, &m);
            let fm = k.apply(&m);
            if acyclic(&fm) {
                look(c, &filtered(&g, k), &fm, 5);
            }
        }
        1 => {
            let set: Set = f.descendants(root).into_iter().map(ni).collect();
            let rm = m.restrict(|n| set.contains(&n), |_, _| true);
            if acyclic(&rm) {
                look(c, &Region::new(&g, &h, ni(root)), &rm, 5);
            }
        }
        2 => {
            let mut set: Set = f.kids(root).iter().map(|n| ni(*n)).collect();
            set.insert(ni(root));
            let rm = m.restrict(|n| set.contains(&n), |_, _| true);
            if acyclic(&rm) {
                look(c, &FlatRegion::new_with_root(&g, &h, ni(root)), &rm, 5);
            }
        }
        _ => {
            let k = c.rng.below(11);
            let set: Set = m.nodes.keys().copied().filter(|_| c.rng.chance(k, 10)).collect();
            let sm = m.restrict(|n| set.contains(&n), |_, _| true);
            if acyclic(&sm) {
                let s = Subgraph::with_nodes(&g, set);
                look(c, &s, &sm, 5);
                // a subgraph judges its own convexity within its parent
                let succ = succ_of(&m);
                if acyclic(&m) {
                    let inside: Set = sm.nodes.keys().copied().collect();
                    let b = s.port_boundary();
                    let joined = b.output_indices().iter().any(|p| m.port_links(*p).iter().any(|(_, q)| b.input_indices().contains(&q.0)));
                    let exp = !joined && convex(&succ, &inside);
                    ensure_eq!(must("Subgraph::is_convex", || s.is_convex()), exp, "subgraph", "Subgraph::is_convex of {inside:?}");
                    let t = TopoConvexChecker::new(&g);
                    ensure_eq!(must("Subgraph::is_convex_with_checker", || s.is_convex_with_checker(&t)), exp, "subgraph-topo", "is_convex_with_checker (topo) of {inside:?}");
                    let l = LineConvexChecker::new(&g);
                    ensure_eq!(must("Subgraph::is_convex_with_checker", || s.is_convex_with_checker(&l)), exp, "subgraph-line", "is_convex_with_checker (line) of {inside:?}");
                    c.count("subgraphs", 1);
                }
            }
        }
    }
}
/// Longer lines than two bytes can count.
fn huge<G: Gut>(c: &mut Case) {
    let n = huge_count(c);
    let (g, m, order) = long_chain::<G>(c, n);
    c.log(|| format!("a chain of {n} nodes with {} links", m.link_count()));
    c.feed(m.fingerprint());
    let succ = succ_of(&m);
    let topo = must("TopoConvexChecker::new", || TopoConvexChecker::new(&g));
    let line = must("LineConvexChecker::new", || LineConvexChecker::new(&g));
    for (a, v) in &succ {
        for b in v {
            ensure!(line.get_position(*a) < line.get_position(*b), "huge:position", "{b:?} comes behind {a:?}, but its position is {:?}, after {:?}", line.get_position(*b), line.get_position(*a));
        }
    }
    for _ in 0..8 {
        // stretches of the chain, with holes at times
        let mut set = Set::new();
        for _ in 0..1 + c.rng.below(2) {
            let (a, b) = (c.rng.below(n), c.rng.below(n));
            let (a, b) = if c.rng.bool() { (a.min(b), a.max(b)) } else { (a, (a + 1 + c.rng.below(60)).min(n - 1)) };
            set.extend(&order[a..=b]);
        }
        let v: Vec<_> = set.iter().copied().collect();
        for _ in 0..c.rng.below(3) {
            set.remove(c.rng.pick(&v));
        }
        let v = shuffled(c, &set);
        let exp = convex(&succ, &set);
        ensure_eq!(must("TopoConvexChecker::is_node_convex", || topo.is_node_convex(v.clone())), exp, "huge:topo", "TopoConvexChecker::is_node_convex of {} nodes", v.len());
        ensure_eq!(must("LineConvexChecker::is_node_convex", || line.is_node_convex(v.clone())), exp, "huge:line", "LineConvexChecker::is_node_convex of {} nodes", v.len());
        if let Some(iv) = must("get_intervals_from_nodes", || line.get_intervals_from_nodes(v.clone())) {
            ensure_eq!(must("is_convex_by_intervals", || line.is_convex_by_intervals(&iv)), exp, "huge:by-intervals", "is_convex_by_intervals of {} nodes", v.len());
            let back: Vec<NodeIndex> = must("nodes_in_intervals", || line.nodes_in_intervals(&iv).collect());
            ensure_eq!((back.len(), back.into_iter().collect::<Set>() == set), (set.len(), true), "huge:nodes-in", "nodes_in_intervals of {} nodes", v.len());
        } else {
            ensure!(!exp, "huge:intervals", "a convex set of {} nodes has no intervals", v.len());
        }
        c.count(if exp { "convex_sets" } else { "non_convex_sets" }, 1);
    }
    c.nontrivial();
}

type P = Plain<u16>;
type M = Multi<u16>;
pub static CHECK: Check = Check {
    prop: "C17",
    rule: "random acyclic graphs of both kinds, also seen through views; random, path-closed and all subsets of nodes, random boundary ports; both checkers, the line partition and the interval operations judged by reachability in the reference model; non-trivial if the graph has at least two links",
    assumptions: &["the graph (or view) is acyclic and does not change while a checker is in use", "nodes given to the interval operations are distinct, as documented"],
    suites: &[
        Suite { name: "plain", quick: 120000, thorough: 1000000, max_size: 20, f: graphs::<P> },
        Suite { name: "multi", quick: 120000, thorough: 1000000, max_size: 20, f: graphs::<M> },
        Suite { name: "sets", quick: 2400, thorough: 30000, max_size: 20, f: all_sets::<P> },
        Suite { name: "sets_multi", quick: 2400, thorough: 30000, max_size: 20, f: all_sets::<M> },
        Suite { name: "wide", quick: 6000, thorough: 48000, max_size: 20, f: wide::<P> },
        Suite { name: "wide_multi", quick: 6000, thorough: 48000, max_size: 20, f: wide::<M> },
        Suite { name: "views", quick: 80000, thorough: 640000, max_size: 20, f: views::<P> },
        Suite { name: "huge", quick: 4, thorough: 100, max_size: 4, f: huge::<P> },
        Suite { name: "huge_multi", quick: 4, thorough: 100, max_size: 4, f: huge::<M> },
        Suite { name: "views_multi", quick: 80000, thorough: 640000, max_size: 20, f: views::<M> },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
