//! C21: the petgraph interface describes the same graph.

use ::portgraph::view::{FlatRegion, Region, Subgraph};
use ::portgraph::*;
use petgraph::algo;
use petgraph::stable_graph::StableDiGraph;
use petgraph::visit::{
    Bfs, Dfs, DfsPostOrder, EdgeCount, EdgeRef, GetAdjacencyMatrix, GraphBase, GraphProp, IntoEdgeReferences, IntoEdges, IntoEdgesDirected,
    IntoNeighbors, IntoNeighborsDirected, IntoNodeIdentifiers, IntoNodeReferences, NodeCount, NodeIndexable, NodeRef, Reversed, Topo, VisitMap,
    Visitable,
};
use petgraph::Direction::{Incoming, Outgoing};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use vpharness::forest::Forest;
use vpharness::gen::*;
use vpharness::graphchecks::{Multi, Plain};
use vpharness::hist::*;
use vpharness::itercheck;
use vpharness::model::*;
use vpharness::run::*;
use vpharness::{ensure, ensure_eq};

type Edge = (NodeIndex, NodeIndex, End, End);
fn edge<R: EdgeRef<NodeId = NodeIndex, EdgeId = (E, E)>, E: Ep>(e: R) -> Edge {
    (e.source(), e.target(), e.id().0.end(), e.id().1.end())
}
fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}
fn edges_of(m: &Model, n: NodeIndex, dir: petgraph::Direction) -> Vec<Edge> {
    sorted(match dir {
        Outgoing => m.links_of(n, Direction::Outgoing).into_iter().map(|(a, b)| (n, m.node(b.0), a, b)).collect(),
        Incoming => m.links_of(n, Direction::Incoming).into_iter().map(|(a, b)| (m.node(b.0), n, b, a)).collect(),
    })
}

/// The interface itself.
fn traits<'a, G, E: Ep>(c: &mut Case, g: &'a G, m: &Model, t: &str)
where
    G: GraphBase<NodeId = NodeIndex, EdgeId = (E, E)> + NodeCount + EdgeCount + NodeIndexable + GraphProp<EdgeType = petgraph::Directed> + Visitable + GetAdjacencyMatrix,
    &'a G: GraphBase<NodeId = NodeIndex, EdgeId = (E, E)> + IntoNodeIdentifiers + IntoNodeReferences<NodeRef = NodeIndex> + IntoNeighborsDirected + IntoEdgesDirected + IntoEdgeReferences,
{
    let s = |x: &str| format!("{t}:{x}");
    let nodes: Vec<NodeIndex> = m.nodes.keys().copied().collect();
    ensure!(g.is_directed(), s("is_directed"), "is_directed");
    ensure_eq!(NodeCount::node_count(g), nodes.len(), s("node_count"), "node_count");
    ensure_eq!(EdgeCount::edge_count(g), m.link_count(), s("edge_count"), "edge_count");
    ensure_eq!(sorted(itercheck::seq(g.node_identifiers(), "node_identifiers")), nodes, s("node_identifiers"), "node_identifiers");
    let refs: Vec<NodeIndex> = itercheck::seq(g.node_references(), "node_references").into_iter().map(|r| NodeRef::id(&r)).collect();
    ensure_eq!(sorted(refs), nodes, s("node_references"), "node_references");
    let bound = g.node_bound();
    let mut all = vec![];
    for n in &nodes {
        let i = NodeIndexable::to_index(g, *n);
        ensure!(i < bound, s("node_bound"), "node index {i} with a bound of {bound}");
        ensure_eq!(NodeIndexable::from_index(g, i), *n, s("from_index"), "from_index({i})");
        let out = sorted(m.nbrs(*n, Direction::Outgoing));
        let inc = sorted(m.nbrs(*n, Direction::Incoming));
        ensure_eq!(sorted(itercheck::seq(g.neighbors(*n), "neighbors")), out, s("neighbors"), "neighbors({n:?})");
        ensure_eq!(sorted(itercheck::seq(g.neighbors_directed(*n, Outgoing), "neighbors_directed")), out, s("neighbors-out"), "neighbors_directed({n:?}, Outgoing)");
        ensure_eq!(sorted(itercheck::seq(g.neighbors_directed(*n, Incoming), "neighbors_directed")), inc, s("neighbors-in"), "neighbors_directed({n:?}, Incoming)");
        let eo = edges_of(m, *n, Outgoing);
        ensure_eq!(sorted(itercheck::seq(g.edges(*n).map(edge), "edges")), eo, s("edges"), "edges({n:?})");
        ensure_eq!(sorted(itercheck::seq(g.edges_directed(*n, Outgoing).map(edge), "edges_directed")), eo, s("edges-out"), "edges_directed({n:?}, Outgoing)");
        let ei = edges_of(m, *n, Incoming);
        ensure_eq!(sorted(itercheck::seq(g.edges_directed(*n, Incoming).map(edge), "edges_directed")), ei, s("edges-in"), "edges_directed({n:?}, Incoming)");
        ensure_eq!(g.edges(*n).count(), eo.len(), s("edges-count"), "edges({n:?}).count()");
        ensure_eq!(g.edges_directed(*n, Incoming).count(), ei.len(), s("edges-count"), "edges_directed({n:?}, Incoming).count()");
        all.extend(eo);
    }
    let all = sorted(all);
    ensure_eq!(sorted(itercheck::seq(g.edge_references().map(edge), "edge_references")), all, s("edge_references"), "edge_references");
    ensure_eq!(g.edge_references().count(), all.len(), s("edge_references-count"), "edge_references().count()");
    let seq: Vec<_> = g.edge_references().map(edge).collect();
    itercheck::fwd(&mut c.rng, || g.edge_references().map(edge), "edge_references");
    let k = c.rng.below(all.len() + 2);
    let mut it = g.edge_references();
    for _ in 0..k {
        it.next();
    }
    ensure_eq!(it.count(), all.len().saturating_sub(k), s("edge_references-count-later"), "edge_references: count() after {k} items");
    ensure_eq!(g.edge_references().map(edge).last(), seq.last().copied(), s("edge_references-last"), "edge_references: last");

    // adjacency
    // (its size is quadratic in the largest index)
    let small = nodes.last().map_or(true, |n| n.index() < 3000);
    let mx = small.then(|| must("adjacency_matrix", || g.adjacency_matrix()));
    for a in &nodes {
        let Some(mx) = &mx else { break };
        for b in &nodes {
            let exp = m.links_of(*a, Direction::Outgoing).iter().any(|(_, q)| m.node(q.0) == *b);
            ensure_eq!(g.is_adjacent(mx, *a, *b), exp, s("is_adjacent"), "is_adjacent({a:?}, {b:?})");
        }
    }

    // visit maps
    let mut v = g.visit_map();
    let mut seen = BTreeSet::new();
    for _ in 0..if nodes.is_empty() { 0 } else { 10 } {
        let n = *c.rng.pick(&nodes);
        match c.rng.below(6) {
            0..=2 => ensure_eq!(v.visit(n), seen.insert(n), s("visit"), "visit({n:?}) with {seen:?} visited"),
            3 => ensure_eq!(v.unvisit(n), seen.remove(&n), s("unvisit"), "unvisit({n:?})"),
            4 => ensure_eq!(v.is_visited(&n), seen.contains(&n), s("is_visited"), "is_visited({n:?})"),
            _ => {
                if c.rng.chance(1, 4) {
                    g.reset_map(&mut v);
                    seen.clear();
                }
            }
        }
    }
    for n in &nodes {
        ensure_eq!(v.is_visited(n), seen.contains(n), s("is_visited"), "is_visited({n:?}) at the end");
    }
    g.reset_map(&mut v);
    for n in &nodes {
        ensure!(!v.is_visited(n), s("reset_map"), "{n:?} is visited after reset_map");
    }
    c.count("graphs_compared", 1);
    c.count("edges_compared", all.len() as u64);
}

type Ref = StableDiGraph<(), ()>;
type R = petgraph::stable_graph::NodeIndex<u32>;
fn reference(m: &Model) -> Ref {
    let mut r = Ref::new();
    let upto = m.nodes.keys().last().map_or(0, |n| n.index() + 1);
    for _ in 0..upto {
        r.add_node(());
    }
    for i in 0..upto {
        if !m.nodes.contains_key(&ni(i)) {
            r.remove_node(rn(ni(i)));
        }
    }
    for (a, b) in &m.links {
        if m.dir(a.0) == Direction::Outgoing {
            r.add_edge(rn(m.node(a.0)), rn(m.node(b.0)), ());
        }
    }
    r
}
fn rn(n: NodeIndex) -> R {
    R::new(n.index())
}
fn bn(n: R) -> NodeIndex {
    ni(n.index())
}
fn sccs<T: Copy>(v: Vec<Vec<T>>, f: impl Fn(T) -> NodeIndex) -> BTreeSet<BTreeSet<NodeIndex>> {
    v.into_iter().map(|x| x.into_iter().map(&f).collect()).collect()
}
fn cost(a: NodeIndex, b: NodeIndex) -> i32 {
    1 + ((a.index() * 7 + b.index() * 3) % 5) as i32
}

/// Standard algorithms, against the same algorithms on petgraph's own kind of graph.
fn algos<'a, G, E: Ep>(c: &mut Case, g: &'a G, m: &Model, t: &str)
where
    G: GraphBase<NodeId = NodeIndex, EdgeId = (E, E)> + NodeIndexable + Visitable + NodeCount,
    &'a G: GraphBase<NodeId = NodeIndex, EdgeId = (E, E)>
        + IntoNodeIdentifiers
        + IntoNodeReferences
        + IntoNeighborsDirected
        + IntoEdgesDirected
        + petgraph::visit::Data<NodeWeight = (), EdgeWeight = ()>
        + IntoEdgeReferences
        + NodeIndexable
        + Visitable<Map = G::Map>
        + NodeCount
        + Copy,
{
    let s = |x: &str| format!("{t}:algo:{x}");
    let r = reference(m);
    let nodes: Vec<NodeIndex> = m.nodes.keys().copied().collect();
    let cyc = algo::is_cyclic_directed(&r);
    ensure_eq!(must("is_cyclic_directed", || algo::is_cyclic_directed(g)), cyc, s("is_cyclic_directed"), "is_cyclic_directed");
    ensure_eq!(must("is_cyclic_undirected", || algo::is_cyclic_undirected(g)), algo::is_cyclic_undirected(&r), s("is_cyclic_undirected"), "is_cyclic_undirected");
    match must("toposort", || algo::toposort(g, None)) {
        Ok(v) => {
            ensure!(!cyc, s("toposort"), "toposort finds an order of a cyclic graph");
            let pos: BTreeMap<_, _> = v.iter().enumerate().map(|(i, n)| (*n, i)).collect();
            ensure_eq!(pos.keys().copied().collect::<Vec<_>>(), nodes, s("toposort"), "nodes of toposort {v:?}");
            ensure_eq!(v.len(), nodes.len(), s("toposort"), "length of toposort");
            for n in &nodes {
                for k in m.succ(*n) {
                    ensure!(pos[n] < pos[&k], s("toposort"), "toposort {v:?} has {n:?} behind its successor {k:?}");
                }
            }
        }
        Err(_) => ensure!(cyc, s("toposort"), "toposort finds a cycle in an acyclic graph"),
    }
    let exp = sccs(algo::kosaraju_scc(&r), bn);
    ensure_eq!(sccs(must("kosaraju_scc", || algo::kosaraju_scc(g)), |n| n), exp, s("kosaraju_scc"), "kosaraju_scc");
    ensure_eq!(sccs(must("tarjan_scc", || algo::tarjan_scc(g)), |n| n), exp, s("tarjan_scc"), "tarjan_scc");
    let got = must("min_spanning_tree", || algo::min_spanning_tree(g).filter(|e| matches!(e, petgraph::data::Element::Edge { .. })).count());
    let want = algo::min_spanning_tree(&r).filter(|e| matches!(e, petgraph::data::Element::Edge { .. })).count();
    ensure_eq!(got, want, s("min_spanning_tree"), "edges of min_spanning_tree");
    let mut topo = vec![];
    let mut tp = Topo::new(g);
    while let Some(n) = tp.next(g) {
        topo.push(n);
        ensure!(topo.len() <= nodes.len(), s("Topo"), "Topo yields more nodes than there are: {topo:?}");
    }
    let mut rt = vec![];
    let mut tp = Topo::new(&r);
    while let Some(n) = tp.next(&r) {
        rt.push(bn(n));
    }
    ensure_eq!(topo.into_iter().collect::<BTreeSet<_>>(), rt.into_iter().collect::<BTreeSet<_>>(), s("Topo"), "nodes of Topo");
    let exp: BTreeMap<(NodeIndex, NodeIndex), i32> =
        algo::johnson(&r, |e| cost(bn(e.source()), bn(e.target()))).unwrap().into_iter().map(|((a, b), d)| ((bn(a), bn(b)), d)).collect();
    let got: BTreeMap<_, _> = must("johnson", || algo::johnson(g, |e| cost(e.source(), e.target()))).ok().expect("positive costs").into_iter().collect();
    ensure_eq!(got, exp, s("johnson"), "johnson distances");
    for _ in 0..if nodes.is_empty() { 0 } else { 1 + c.rng.below(3) } {
        let a = *c.rng.pick(&nodes);
        let b = *c.rng.pick(&nodes);
        let mut reach = BTreeSet::from([a]);
        let mut todo = vec![a];
        while let Some(n) = todo.pop() {
            for k in m.succ(n) {
                if reach.insert(k) {
                    todo.push(k);
                }
            }
        }
        let mut back = BTreeSet::from([a]);
        let mut todo = vec![a];
        while let Some(n) = todo.pop() {
            for k in m.nbrs(n, Direction::Incoming) {
                if back.insert(k) {
                    todo.push(k);
                }
            }
        }
        let list = |v: Vec<NodeIndex>, w: &BTreeSet<NodeIndex>, what: &str| {
            ensure_eq!(v.len(), w.len(), s(what), "{what} from {a:?} yields {v:?}");
            ensure_eq!(v.into_iter().collect::<BTreeSet<_>>(), *w, s(what), "{what} from {a:?}");
        };
        macro_rules! walk {
            ($w:ident, $g:expr) => {{
                let mut w = $w::new($g, a);
                let mut v = vec![];
                while let Some(n) = w.next($g) {
                    v.push(n);
                    if v.len() > nodes.len() {
                        break;
                    }
                }
                v
            }};
        }
        list(walk!(Dfs, g), &reach, "Dfs");
        list(walk!(Bfs, g), &reach, "Bfs");
        list(walk!(DfsPostOrder, g), &reach, "DfsPostOrder");
        list(walk!(Dfs, Reversed(g)), &back, "Dfs-reversed");
        ensure_eq!(algo::has_path_connecting(g, a, b, None), reach.contains(&b), s("has_path_connecting"), "has_path_connecting({a:?}, {b:?})");
        let exp: BTreeMap<_, _> = algo::dijkstra(&r, rn(a), None, |e| cost(bn(e.source()), bn(e.target()))).into_iter().map(|(k, d)| (bn(k), d)).collect();
        let got: BTreeMap<_, _> = algo::dijkstra(g, a, None, |e| cost(e.source(), e.target())).into_iter().collect();
        ensure_eq!(got, exp, s("dijkstra"), "dijkstra from {a:?}");
        let p = algo::astar(g, a, |n| n == b, |e| cost(e.source(), e.target()), |_| 0).map(|x| x.0);
        ensure_eq!(p, exp.get(&b).copied(), s("astar"), "astar from {a:?} to {b:?}");
        let d = must("spfa", || algo::spfa(g, a, |e| cost(e.source(), e.target()))).ok().expect("positive costs").distances;
        for n in &nodes {
            ensure_eq!(Some(d[n.index()]).filter(|x| *x != i32::MAX), exp.get(n).copied(), s("spfa"), "spfa from {a:?} to {n:?}");
        }
        let dom = must("simple_fast", || algo::dominators::simple_fast(g, a));
        let rd = algo::dominators::simple_fast(&r, rn(a));
        for n in &nodes {
            ensure_eq!(dom.immediate_dominator(*n), rd.immediate_dominator(rn(*n)).map(bn), s("dominators"), "immediate dominator of {n:?} from {a:?}");
        }
        if m.link_count() <= 14 && a != b {
            type H = std::hash::RandomState;
            let lim = Some(4);
            let got = sorted(algo::all_simple_paths::<Vec<_>, _, H>(g, a, b, 0, lim).collect());
            let exp = sorted(algo::all_simple_paths::<Vec<R>, _, H>(&r, rn(a), rn(b), 0, lim).map(|v| v.into_iter().map(bn).collect::<Vec<_>>()).collect());
            ensure_eq!(got, exp, s("all_simple_paths"), "all_simple_paths({a:?}, {b:?})");
            c.count("paths", got.len() as u64);
        }
        c.count("algorithm_sources", 1);
    }
}

macro_rules! judge {
    ($c:expr, $g:expr, $m:expr, $t:expr) => {{
        let g = $g;
        traits($c, g, $m, $t);
        // (several of them need memory quadratic in the largest index)
        if $m.nodes.keys().last().map_or(true, |n| n.index() < 3000) {
            algos($c, g, $m, $t);
        }
    }};
}

fn sparse_history<G: Gut>(c: &mut Case) -> (G, Model) {
    let logging = c.logging;
    c.logging = false;
    let mut h: Hist<G> = Hist::new(c);
    let k = 4 + c.rng.below(20 + c.size);
    let w = [EVEN, vpharness::graphchecks::CHURN, vpharness::graphchecks::LINKS][c.rng.below(3)];
    h.max_nodes = 3 + c.rng.below(9);
    for _ in 0..k {
        h.step(c, &w);
    }
    c.logging = logging;
    (h.g, h.m)
}

trait Kind: Gut {
    fn whole(c: &mut Case, g: &Self, m: &Model);
}
impl Kind for Plain<u16> {
    fn whole(c: &mut Case, g: &Self, m: &Model) {
        judge!(c, g, m, "plain")
    }
}
impl Kind for Multi<u16> {
    fn whole(c: &mut Case, g: &Self, m: &Model) {
        judge!(c, g, m, "multi")
    }
}

fn make<G: Kind>(c: &mut Case) -> (G, Model) {
    let (g, m) = if c.rng.bool() {
        sparse_history::<G>(c)
    } else {
        let s = shape_big(c, 14);
        graph::<G>(&mut c.rng, s)
    };
    c.log(|| m.describe());
    c.feed(m.fingerprint());
    c.nontrivial_if(m.link_count() > 0);
    (g, m)
}

fn whole<G: Kind>(c: &mut Case) {
    let (g, m) = make::<G>(c);
    G::whole(c, &g, &m);
}

fn views<G: Kind>(c: &mut Case)
where
    G::LinkEndpoint: Eq + Debug,
{
    let (g, m) = make::<G>(c);
    let g = &g;
    let nodes: Vec<usize> = m.nodes.keys().map(|n| n.index()).collect();
    if nodes.is_empty() {
        return;
    }
    let f = Forest::random(&mut c.rng, &nodes);
    let h = f.build();
    let root = ni(*c.rng.pick(&nodes));
    let k = Keep::random(&mut c.rng, &m);
    let kind = c.rng.below(6);
    c.feed(kind as u64);
    c.log(|| format!("view kind {kind}, root {root:?}, {f:?}, {k:?}"));
    match kind {
        0 => judge!(c, &filtered(g, k.clone()), &k.apply(&m), "filter"),
        1 => {
            let set: BTreeSet<_> = f.descendants(root.index()).into_iter().map(ni).collect();
            judge!(c, &Region::new(g, &h, root), &m.restrict(|n| set.contains(&n), |_, _| true), "region")
        }
        2 => {
            let mut set: BTreeSet<_> = f.kids(root.index()).iter().map(|n| ni(*n)).collect();
            let with = c.rng.bool();
            let v = if with {
                set.insert(root);
                FlatRegion::new_with_root(g, Cow::Borrowed(&h), root)
            } else {
                FlatRegion::new_without_root(g, Cow::Borrowed(&h), root)
            };
            judge!(c, &v, &m.restrict(|n| set.contains(&n), |_, _| true), "flat")
        }
        3 => {
            let set: BTreeSet<NodeIndex> = nodes.iter().map(|n| ni(*n)).filter(|_| c.rng.bool()).collect();
            judge!(c, &Subgraph::with_nodes(g, set.clone()), &m.restrict(|n| set.contains(&n), |_, _| true), "subgraph")
        }
        4 => {
            let set: BTreeSet<_> = f.descendants(root.index()).into_iter().map(ni).collect();
            let rm = k.apply(&m).restrict(|n| set.contains(&n), |_, _| true);
            judge!(c, &Region::new(filtered(g, k), &h, root), &rm, "region.filter")
        }
        _ => {
            let set: BTreeSet<_> = f.descendants(root.index()).into_iter().map(ni).collect();
            let rm = k.apply(&m.restrict(|n| set.contains(&n), |_, _| true));
            judge!(c, &filtered(Region::new(g, &h, root), k), &rm, "filter.region")
        }
    }
}

/// More nodes and edges than two bytes can count.
macro_rules! huge {
    ($name:ident, $g:ty) => {
        fn $name(c: &mut Case) {
            let n = huge_count(c);
            let (g, m, order) = long_chain::<$g>(c, n);
            c.log(|| format!("a chain of {n} nodes with {} links", m.link_count()));
            traits(c, &g, &m, "huge");
            ensure_eq!(algo::toposort(&g, None), Ok(order.clone()), "huge:toposort", "toposort of a chain");
            let k = c.rng.below(n);
            let mut dfs = Dfs::new(&g, order[k]);
            ensure_eq!(std::iter::from_fn(|| dfs.next(&g)).count(), n - k, "huge:dfs", "nodes reached from number {k} of {n}");
            c.feed(m.fingerprint());
            c.nontrivial();
        }
    };
}
huge!(huge_plain, Plain<u16>);
huge!(huge_multi, Multi<u16>);

fn directions(c: &mut Case) {
    for (a, b) in [(Direction::Incoming, Incoming), (Direction::Outgoing, Outgoing)] {
        ensure_eq!(petgraph::Direction::from(a), b, "direction", "conversion of {a:?}");
        ensure_eq!(Direction::from(b), a, "direction", "conversion of {b:?}");
    }
    let n = ni(c.rng.below(1000));
    ensure_eq!(NodeRef::id(&n), n, "node_ref", "NodeRef::id");
    c.feed(n.index() as u64);
    c.nontrivial();
}

pub static CHECK: Check = Check {
    prop: "C21",
    rule: "random graphs (sparse indices after removals, swaps and compaction), multigraphs and views (filter, region, flat region, subgraph, stacked); every petgraph trait method compared with the reference model, and standard petgraph algorithms compared with their result on a petgraph StableDiGraph of the same nodes and links",
    assumptions: &["petgraph's algorithms are right on petgraph's own graphs", "the methods are asked about nodes of the graph or view"],
    suites: &[
        Suite { name: "plain", quick: 60000, thorough: 1000000, max_size: 30, f: whole::<Plain<u16>> },
        Suite { name: "multi", quick: 60000, thorough: 1000000, max_size: 30, f: whole::<Multi<u16>> },
        Suite { name: "plain-views", quick: 60000, thorough: 1000000, max_size: 30, f: views::<Plain<u16>> },
        Suite { name: "multi-views", quick: 60000, thorough: 1000000, max_size: 30, f: views::<Multi<u16>> },
        Suite { name: "huge", quick: 4, thorough: 100, max_size: 4, f: huge_plain },
        Suite { name: "huge_multi", quick: 4, thorough: 100, max_size: 4, f: huge_multi },
        Suite { name: "conversions", quick: 100, thorough: 1000, max_size: 2, f: directions },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
