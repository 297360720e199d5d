//! C25: iterators keep the iterator contract.

use ::portgraph::algorithms::{postorder, postorder_filtered, toposort, toposort_filtered, TopoSort};
use ::portgraph::boundary::{Boundary, HasBoundary};
use ::portgraph::index::{MaybeNodeIndex, MaybePortIndex};
use ::portgraph::view::{FlatRegion, LinkView, MultiView, PortView, Region, Subgraph};
use ::portgraph::index::Unsigned;
use ::portgraph::*;
use petgraph::visit::{EdgeRef, IntoEdgeReferences, IntoEdges, IntoEdgesDirected, IntoNeighbors, IntoNeighborsDirected, IntoNodeIdentifiers, IntoNodeReferences, NodeRef};
use std::borrow::Cow;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use vpharness::forest::Forest;
use vpharness::gen::*;
use vpharness::graphchecks::{Multi, Plain};
use vpharness::hist::Gut;
use vpharness::ensure_eq;
use vpharness::itercheck;
use vpharness::model::*;
use vpharness::run::*;

/// An iterator that can be cloned, as all of the graph traits' are.
fn it<I: Iterator + Clone>(c: &mut Case, mk: impl Fn() -> I, name: &str)
where
    I::Item: PartialEq + Debug,
{
    if lean_skip() {
        return;
    }
    let v = itercheck::fwd(&mut c.rng, &mk, name);
    itercheck::cloned(&mut c.rng, &mk, name);
    c.count("iterators", 1);
    c.count("items", v.len() as u64);
    c.max("max_longest", v.len() as u64);
}

fn ports<V: PortView>(c: &mut Case, v: &V, ns: &[NodeIndex], t: &str) {
    let s = |x: &str| format!("{t}:{x}");
    it(c, || v.nodes_iter(), &s("nodes_iter"));
    it(c, || v.ports_iter(), &s("ports_iter"));
    for n in ns {
        let n = *n;
        it(c, || v.inputs(n), &s("inputs"));
        it(c, || v.outputs(n), &s("outputs"));
        it(c, || v.all_ports(n), &s("all_ports"));
        it(c, || v.input_offsets(n), &s("input_offsets"));
        it(c, || v.output_offsets(n), &s("output_offsets"));
        it(c, || v.all_port_offsets(n), &s("all_port_offsets"));
        for d in DIRS {
            it(c, || v.ports(n, d), &s("ports"));
            it(c, || v.port_offsets(n, d), &s("port_offsets"));
        }
    }
}
fn links<V: LinkView>(c: &mut Case, v: &V, ns: &[NodeIndex], ps: &[PortIndex], t: &str)
where
    V::LinkEndpoint: Ep,
{
    let s = |x: &str| format!("{t}:{x}");
    for n in ns {
        let n = *n;
        it(c, || v.input_links(n), &s("input_links"));
        it(c, || v.output_links(n), &s("output_links"));
        it(c, || v.all_links(n), &s("all_links"));
        it(c, || v.input_neighbours(n), &s("input_neighbours"));
        it(c, || v.output_neighbours(n), &s("output_neighbours"));
        it(c, || v.all_neighbours(n), &s("all_neighbours"));
        for d in DIRS {
            it(c, || v.links(n, d), &s("links"));
            it(c, || v.neighbours(n, d), &s("neighbours"));
        }
        for k in ns.iter().chain([&n]) {
            it(c, || v.get_connections(n, *k), &s("get_connections"));
        }
    }
    for p in ps {
        it(c, || v.port_links(*p), &s("port_links"));
    }
}
fn subs<V: MultiView>(c: &mut Case, v: &V, ns: &[NodeIndex], t: &str)
where
    V::LinkEndpoint: Ep,
{
    let s = |x: &str| format!("{t}:{x}");
    for n in ns {
        let n = *n;
        it(c, || v.subport_inputs(n), &s("subport_inputs"));
        it(c, || v.subport_outputs(n), &s("subport_outputs"));
        it(c, || v.all_subports(n), &s("all_subports"));
        for d in DIRS {
            it(c, || v.subports(n, d), &s("subports"));
        }
    }
}

fn few<T: Copy>(c: &mut Case, mut v: Vec<T>, k: usize) -> Vec<T> {
    c.rng.shuffle(&mut v);
    v.truncate(k);
    v
}

fn look<V: LinkView>(c: &mut Case, v: &V, t: &str)
where
    V::LinkEndpoint: Ep,
{
    let ns = few(c, v.nodes_iter().collect(), 4);
    let ps = few(c, v.ports_iter().collect(), 8);
    ports(c, v, &ns, t);
    links(c, v, &ns, &ps, t);
    c.count("graphs", 1);
}
fn look_multi<V: MultiView>(c: &mut Case, v: &V, t: &str)
where
    V::LinkEndpoint: Ep,
{
    let ns = few(c, v.nodes_iter().collect(), 4);
    let ps = few(c, v.ports_iter().collect(), 8);
    ports(c, v, &ns, t);
    links(c, v, &ns, &ps, t);
    subs(c, v, &ns, t);
    c.count("graphs", 1);
}

/// Leaves gaps and unlinked ports of all kinds behind.
fn worn<G: Gut>(c: &mut Case, max: usize, acyclic: bool) -> G {
    let s = Shape { acyclic, ..shape_big(c, max) };
    let (mut g, m) = graph::<G>(&mut c.rng, s);
    c.log(|| m.describe());
    c.feed(m.fingerprint());
    c.nontrivial_if(m.link_count() > 0);
    for _ in 0..c.rng.below(8) {
        let (ns, ps): (Vec<_>, Vec<_>) = (g.nodes_iter().collect(), g.ports_iter().collect());
        if ns.is_empty() {
            break;
        }
        let n = *c.rng.pick(&ns);
        let k = c.rng.below(5);
        let (x, y) = (c.rng.below(4), c.rng.below(4));
        c.log(|| format!("edit {k} {n:?} {x} {y}"));
        c.feed(k as u64);
        match k {
            0 => g.remove_node(n),
            1 if !ps.is_empty() => drop(g.unlink_port(*c.rng.pick(&ps))),
            2 => g.set_num_ports(n, x, y, |_, _| {}),
            3 => drop(g.add_node(x, y)),
            4 if c.rng.chance(1, 4) => g.compact_nodes(|_, _| {}),
            _ => {}
        }
    }
    g
}

macro_rules! through_views {
    ($c:ident, $g:ident, $look:ident, $t:expr) => {{
        let (c, g) = ($c, &$g);
        let nodes: Vec<usize> = g.nodes_iter().map(|n| n.index()).collect();
        let kind = if nodes.is_empty() { 0 } else { c.rng.below(8) };
        c.feed(kind as u64);
        c.log(|| format!("kind {kind}"));
        if kind < 3 {
            return $look(c, g, $t);
        }
        let f = Forest::random(&mut c.rng, &nodes);
        let h = f.build();
        let root = ni(*c.rng.pick(&nodes));
        match kind {
            3 | 4 => {
                let keep = Keep { nodes: nodes.iter().map(|n| ni(*n)).filter(|_| c.rng.chance(3, 4)).collect(), blocked: g.ports_iter().filter(|_| c.rng.chance(1, 5)).collect() };
                $look(c, &filtered(g, keep), &format!("{}.filter", $t))
            }
            5 => $look(c, &Region::new(g, &h, root), &format!("{}.region", $t)),
            6 => {
                let v = if c.rng.bool() { FlatRegion::new_with_root(g, Cow::Borrowed(&h), root) } else { FlatRegion::new_without_root(g, Cow::Borrowed(&h), root) };
                $look(c, &v, &format!("{}.flat", $t))
            }
            _ => {
                let some: Vec<_> = nodes.iter().map(|n| ni(*n)).filter(|_| c.rng.bool()).collect();
                let v = Subgraph::with_nodes(g, some);
                if c.rng.bool() {
                    bounds(c, v.port_boundary().as_ref());
                }
                $look(c, &v, &format!("{}.subgraph", $t))
            }
        }
    }};
}

fn bounds(c: &mut Case, b: &Boundary) {
    for d in DIRS {
        itercheck::fwd(&mut c.rng, || b.ports(d), "boundary:ports");
    }
    itercheck::fwd(&mut c.rng, || b.inputs(), "boundary:inputs");
    itercheck::fwd(&mut c.rng, || b.outputs(), "boundary:outputs");
    itercheck::fwd(&mut c.rng, || b.port_indices(), "boundary:port_indices");
}

fn plain<PO: Unsigned>(c: &mut Case)
where
    PortGraph<u32, u32, PO>: Gut,
{
    let g: PortGraph<u32, u32, PO> = worn(c, 12, false);
    through_views!(c, g, look, "plain")
}
fn multi<PO: Unsigned>(c: &mut Case)
where
    MultiPortGraph<u32, u32, PO>: Gut,
    PO: Default,
{
    let g: MultiPortGraph<u32, u32, PO> = worn(c, 12, false);
    through_views!(c, g, look_multi, "multi")
}

fn trees(c: &mut Case) {
    let n = 1 + c.rng.below(3 + 2 * c.size);
    let nodes: Vec<usize> = (0..n).filter(|_| c.rng.chance(7, 8)).collect();
    let mut f = Forest::random(&mut c.rng, &nodes);
    for _ in 0..c.rng.below(4) {
        if !nodes.is_empty() {
            f.detach(*c.rng.pick(&nodes));
        }
    }
    let h = f.build();
    c.log(|| format!("{f:?}"));
    let mut items = 0;
    it(c, ::portgraph::hierarchy::Children::default, "hierarchy:default-children");
    itercheck::dei(&mut c.rng, ::portgraph::hierarchy::Children::default, "hierarchy:default-children");
    itercheck::exact(::portgraph::hierarchy::Children::default, "hierarchy:default-children");
    it(c, ::portgraph::hierarchy::Descendants::default, "hierarchy:default-descendants");
    ensure_eq!((::portgraph::hierarchy::Children::default().next(), ::portgraph::hierarchy::Descendants::default().next()), (None, None), "hierarchy:default", "first item of a default iterator");
    for n in 0..n + 2 {
        let n = ni(n);
        it(c, || h.children(n), "hierarchy:children");
        itercheck::dei(&mut c.rng, || h.children(n), "hierarchy:children");
        itercheck::exact(|| h.children(n), "hierarchy:children");
        itercheck::exact_dei(&mut c.rng, || h.children(n), "hierarchy:children");
        it(c, || h.descendants(n), "hierarchy:descendants");
        items += h.child_count(n);
    }
    c.feed(items as u64);
    for (a, b) in &f.parent {
        c.feed((a * 1000 + b) as u64);
    }
    c.nontrivial_if(items > 1);
}

/// More than 65535 items of every kind.
fn huge_graph<G: Gut + LinkView>(c: &mut Case) {
    let mut g = G::default();
    let k = 65530 + c.rng.below(600);
    // two nodes with as many ports as one node can have of a kind, linked port by port
    let (a, b) = (g.add_node(20000, 32000), g.add_node(32000, 20000));
    for i in (0..32000).step_by(1 + c.rng.below(3)) {
        g.link_nodes(a, i, b, i).unwrap();
    }
    let mut ns: Vec<_> = (0..k).map(|_| g.add_node(1, 0)).collect();
    for _ in 0..c.rng.below(3) {
        let i = c.rng.below(ns.len());
        g.remove_node(ns.swap_remove(i));
    }
    let v = &g;
    it(c, || v.nodes_iter(), "huge:nodes_iter");
    it(c, || v.ports_iter(), "huge:ports_iter");
    for n in [a, b] {
        it(c, || v.all_ports(n), "huge:all_ports");
        it(c, || v.outputs(n), "huge:outputs");
        it(c, || v.input_offsets(n), "huge:input_offsets");
        it(c, || v.all_port_offsets(n), "huge:all_port_offsets");
        for d in Direction::BOTH {
            it(c, || v.links(n, d), "huge:links");
            it(c, || v.neighbours(n, d), "huge:neighbours");
        }
        it(c, || v.all_links(n), "huge:all_links");
        it(c, || v.all_neighbours(n), "huge:all_neighbours");
    }
    it(c, || v.get_connections(a, b), "huge:get_connections");
    ensure_eq!(v.nodes_iter().count(), ns.len() + 2, "huge:nodes", "number of nodes");
    ensure_eq!(v.ports_iter().count(), ns.len() + 104000, "huge:ports", "number of ports");
    c.feed(k as u64);
    c.nontrivial();
}
fn huge_tree(c: &mut Case) {
    let k = 65530 + c.rng.below(600);
    let mut h = Hierarchy::default();
    for i in 1..=k {
        h.push_child(ni(i), ni(0)).unwrap();
    }
    for _ in 0..c.rng.below(3) {
        h.detach(ni(1 + c.rng.below(k)));
    }
    it(c, || h.children(ni(0)), "huge:children");
    itercheck::dei(&mut c.rng, || h.children(ni(0)), "huge:children");
    itercheck::exact(|| h.children(ni(0)), "huge:children");
    it(c, || h.descendants(ni(0)), "huge:descendants");
    let mut d: UnmanagedDenseMap<NodeIndex, u32> = UnmanagedDenseMap::new();
    let mut b: bitvec::vec::BitVec = bitvec::vec::BitVec::new();
    for i in 0..k {
        d[ni(i)] = i as u32;
        if i % 3 == 0 {
            SecondaryMap::<PortIndex, bool>::set(&mut b, PortIndex::new(i), true);
        }
    }
    itercheck::fwd(&mut c.rng, || d.iter(), "huge:dense");
    itercheck::dei(&mut c.rng, || d.iter(), "huge:dense");
    itercheck::fwd(&mut c.rng, || SecondaryMap::<PortIndex, bool>::iter(&b), "huge:bits");
    c.feed(k as u64);
    c.nontrivial();
}

fn traversals<G: Gut + Clone>(c: &mut Case) {
    let acyclic = c.rng.bool();
    let g: G = worn(c, 12, acyclic);
    let ns: Vec<_> = g.nodes_iter().collect();
    let ps: Vec<_> = g.ports_iter().collect();
    let k = c.rng.below(4);
    let src: HashSet<_> = few(c, ns.clone(), k).into_iter().collect();
    let no_n: HashSet<_> = ns.iter().copied().filter(|_| c.rng.chance(1, 6)).collect();
    let no_p: HashSet<_> = ps.iter().copied().filter(|_| c.rng.chance(1, 6)).collect();
    for d in DIRS {
        let t1 = || -> TopoSort<'_, _, UnmanagedDenseMap<PortIndex, bool>> { toposort(&g, src.iter().copied(), d) };
        itercheck::fwd(&mut c.rng, t1, "toposort");
        let t2 = || -> TopoSort<'_, _, HashSet<PortIndex>> { toposort(&g, src.iter().copied(), d) };
        itercheck::fwd(&mut c.rng, t2, "toposort:set");
        let t3 = || -> TopoSort<'_, _, HashSet<PortIndex>> { toposort_filtered(&g, src.iter().copied(), d, |n| !no_n.contains(&n), |_, p| !no_p.contains(&p)) };
        itercheck::fwd(&mut c.rng, t3, "toposort_filtered");
    }
    if !ps.is_empty() {
        let some: BTreeSet<_> = ps.iter().copied().filter(|_| c.rng.bool()).collect();
        let b = Boundary::from_ports(&g, some.iter().copied());
        bounds(c, &b);
    }
    c.count("graphs", 1);
}

fn postorders(c: &mut Case) {
    let acyclic = c.rng.bool();
    let g: PortGraph = worn(c, 12, acyclic);
    let ns: Vec<_> = g.nodes_iter().collect();
    let k = c.rng.below(4);
    let src: Vec<_> = few(c, ns.clone(), k);
    let no_n: HashSet<_> = ns.iter().copied().filter(|_| c.rng.chance(1, 6)).collect();
    let no_p: HashSet<_> = g.ports_iter().filter(|_| c.rng.chance(1, 6)).collect();
    for d in DIRS {
        itercheck::fwd(&mut c.rng, || postorder(&g, src.iter().copied(), d), "postorder");
        itercheck::fwd(&mut c.rng, || postorder_filtered(&g, src.iter().copied(), d, |n| !no_n.contains(&n), |_, p| !no_p.contains(&p)), "postorder_filtered");
    }
    c.count("graphs", 1);
}

macro_rules! pet {
    ($name:ident, $g:ty) => {
        fn $name(c: &mut Case) {
            let g: $g = worn(c, 12, false);
            let g = &g;
            itercheck::fwd(&mut c.rng, || g.node_identifiers(), "petgraph:node_identifiers");
            itercheck::fwd(&mut c.rng, || g.node_references().map(|r| r.id()), "petgraph:node_references");
            itercheck::fwd(&mut c.rng, || g.edge_references().map(|x| (x.source(), x.target(), x.id())), "petgraph:edge_references");
            itercheck::exact(|| g.edge_references(), "petgraph:edge_references");
            let ns: Vec<NodeIndex> = few(c, g.nodes_iter().collect(), 5);
            for n in ns {
                itercheck::fwd(&mut c.rng, || g.neighbors(n), "petgraph:neighbors");
                itercheck::fwd(&mut c.rng, || g.edges(n).map(|x| (x.source(), x.target(), x.id())), "petgraph:edges");
                for d in [petgraph::Direction::Incoming, petgraph::Direction::Outgoing] {
                    itercheck::fwd(&mut c.rng, || g.neighbors_directed(n, d), "petgraph:neighbors_directed");
                    itercheck::fwd(&mut c.rng, || g.edges_directed(n, d).map(|x| (x.source(), x.target(), x.id())), "petgraph:edges_directed");
                }
            }
            c.count("graphs", 1);
        }
    };
}
pet!(pet_plain, Plain<u16>);
pet!(pet_multi, Multi<u16>);

/// Sets of node or port indices, and optional indices.
fn maps(c: &mut Case) {
    let n = c.rng.below(4 + 8 * c.size);
    let mut d: UnmanagedDenseMap<NodeIndex, u32> = UnmanagedDenseMap::with_capacity(if c.rng.bool() { n } else { 0 });
    let mut b: bitvec::vec::BitVec = bitvec::vec::BitVec::new();
    let mut s: HashSet<PortIndex> = HashSet::new();
    let mut last = 0;
    for i in 0..n {
        if c.rng.chance(1, 3) {
            d[ni(i)] = 1 + c.rng.below(3) as u32;
            SecondaryMap::<PortIndex, bool>::set(&mut b, PortIndex::new(i), c.rng.chance(2, 3));
            if c.rng.bool() {
                SecondaryMap::<PortIndex, bool>::set(&mut s, PortIndex::new(i), true);
            }
            last = i;
        }
    }
    c.feed(last as u64);
    c.feed(n as u64);
    itercheck::fwd(&mut c.rng, || d.iter(), "map:dense");
    itercheck::dei(&mut c.rng, || d.iter(), "map:dense");
    it(c, || SecondaryMap::<NodeIndex, u32>::iter(&d), "map:dense:trait");
    itercheck::fwd(&mut c.rng, || SecondaryMap::<PortIndex, bool>::iter(&b), "map:bits");
    itercheck::dei(&mut c.rng, || SecondaryMap::<PortIndex, bool>::iter(&b), "map:bits");
    itercheck::fwd(&mut c.rng, || SecondaryMap::<PortIndex, bool>::iter(&s), "map:set");
    let x: Option<NodeIndex> = c.rng.bool().then(|| ni(c.rng.below(1000)));
    let y: Option<PortIndex> = c.rng.bool().then(|| PortIndex::new(c.rng.below(1000)));
    itercheck::fwd(&mut c.rng, || MaybeNodeIndex::<u32>::from(x).into_iter(), "maybe_node");
    itercheck::fwd(&mut c.rng, || MaybePortIndex::<u32>::from(y).into_iter(), "maybe_port");
    c.count("maps", 1);
    c.nontrivial_if(last > 0);
}

pub static CHECK: Check = Check {
    prop: "C25",
    rule: "every iterator handed out by random graphs with gaps and unlinked ports, multigraphs, views, hierarchies, maps, boundaries, traversals and petgraph adaptors, driven by random mixtures of next, nth, count, last, fold, skip, step_by, clone and, where possible, next_back, nth_back and rev, its size estimate compared with what is left after every step; non-trivial if the graph has a link",
    assumptions: &[],
    suites: &[
        Suite { name: "plain8", quick: 24000, thorough: 192000, max_size: 16, f: plain::<u8> },
        Suite { name: "plain", quick: 80000, thorough: 640000, max_size: 16, f: plain::<u16> },
        Suite { name: "plain32", quick: 24000, thorough: 192000, max_size: 16, f: plain::<u32> },
        Suite { name: "multi", quick: 100000, thorough: 800000, max_size: 16, f: multi::<u16> },
        Suite { name: "multi32", quick: 24000, thorough: 192000, max_size: 16, f: multi::<u32> },
        Suite { name: "trees", quick: 120000, thorough: 960000, max_size: 16, f: trees },
        Suite { name: "traversals", quick: 80000, thorough: 640000, max_size: 16, f: traversals::<Plain<u16>> },
        Suite { name: "traversals_multi", quick: 60000, thorough: 480000, max_size: 16, f: traversals::<Multi<u16>> },
        Suite { name: "postorders", quick: 60000, thorough: 480000, max_size: 16, f: postorders },
        Suite { name: "petgraph", quick: 60000, thorough: 480000, max_size: 16, f: pet_plain },
        Suite { name: "petgraph_multi", quick: 60000, thorough: 480000, max_size: 16, f: pet_multi },
        Suite { name: "huge", quick: 8, thorough: 200, max_size: 4, f: huge_graph::<Plain<u16>> },
        Suite { name: "huge_multi", quick: 8, thorough: 200, max_size: 4, f: huge_graph::<Multi<u16>> },
        Suite { name: "huge_tree", quick: 16, thorough: 400, max_size: 4, f: huge_tree },
        Suite { name: "maps", quick: 160000, thorough: 1280000, max_size: 30, f: maps },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
