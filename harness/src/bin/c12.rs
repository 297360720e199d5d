//! C12: views show exactly their part of the graph.

use ::portgraph::boundary::{Boundary, HasBoundary};
use ::portgraph::view::{FlatRegion, LinkView, MultiView, PortView, Region, Subgraph};
use ::portgraph::*;
use std::borrow::Cow;
use std::collections::BTreeSet;
use vpharness::forest::Forest;
use vpharness::gen::*;
use vpharness::graphchecks::{Multi, Plain};
use vpharness::model::*;
use vpharness::run::*;
use vpharness::{ensure, ensure_eq};

struct Z;
struct S<D>(std::marker::PhantomData<D>);

/// What every level shares: the base graph's model and the hierarchy.
struct Ctx {
    base: Model,
    f: Forest,
    h: Hierarchy,
    /// Whether links of outside nodes may be asked for (unspecified for subgraph views).
    outside: bool,
}

fn crossing(m: &Model, set: &BTreeSet<NodeIndex>, order: &[NodeIndex]) -> [Vec<PortIndex>; 2] {
    let mut r = [vec![], vec![]];
    for n in order {
        for k in 0..2 {
            for p in &m.nodes[n][k] {
                if m.port_links(*p).iter().any(|(_, b)| !set.contains(&m.node(b.0))) {
                    r[k].push(*p);
                }
            }
        }
    }
    r
}

fn pick_root(c: &mut Case, m: &Model, base: &Model) -> Option<NodeIndex> {
    let v: Vec<_> = if c.rng.chance(1, 8) { base.nodes.keys() } else { m.nodes.keys() }.copied().collect();
    (!v.is_empty()).then(|| *c.rng.pick(&v))
}

fn outside_check<V: LinkView>(v: &V, m: &Model, x: &Ctx, tag: &str)
where
    V::LinkEndpoint: Ep,
{
    let s = |y: &str| format!("{tag}{y}");
    for n in x.base.nodes.keys().filter(|n| !m.nodes.contains_key(n)) {
        ensure!(!v.contains_node(*n), s("outside-node"), "{n:?} is outside the view, but contained");
        if x.outside {
            for dir in DIRS {
                ensure!(v.links(*n, dir).next().is_none(), s("outside-links"), "{n:?} is outside the view, but links({dir:?}) lists some");
            }
            ensure!(v.all_links(*n).next().is_none(), s("outside-all_links"), "{n:?} is outside the view, but all_links lists some");
            for k in m.nodes.keys() {
                ensure!(!v.connected(*n, *k) && !v.connected(*k, *n), s("outside-connected"), "{n:?} is outside the view, but connected to {k:?}");
            }
        }
    }
    for p in x.base.ports.keys().filter(|p| !m.ports.contains_key(p)) {
        ensure!(!v.contains_port(*p), s("outside-port"), "{p:?} is outside the view, but contained");
        if x.outside {
            ensure!(v.port_links(*p).next().is_none(), s("outside-port_links"), "{p:?} is outside the view, but port_links lists some");
            ensure!(v.port_link(*p).is_none(), s("outside-port_link"), "{p:?} is outside the view, but has a port_link");
        }
    }
}

macro_rules! stack {
    ($name:ident, $bound:ident, $sub:expr) => {
        mod $name {
            use super::*;
            pub trait Stack {
                fn next<V: $bound + Clone>(c: &mut Case, v: &V, m: &Model, x: &mut Ctx, tag: &str)
                where
                    V::LinkEndpoint: Ep;
            }
            pub fn look<D: Stack, V: $bound + Clone>(c: &mut Case, v: &V, m: &Model, x: &mut Ctx, tag: &str)
            where
                V::LinkEndpoint: Ep,
            {
                let t = format!("{tag}:");
                c.log(|| format!("view {tag}: {}", m.describe()));
                // single queries in random order, before anything has been asked
                let ns: Vec<_> = x.base.nodes.keys().copied().collect();
                let ps: Vec<_> = x.base.ports.keys().copied().collect();
                for _ in 0..c.rng.below(8) {
                    if !ns.is_empty() && c.rng.bool() {
                        let n = *c.rng.pick(&ns);
                        ensure_eq!(v.contains_node(n), m.nodes.contains_key(&n), format!("{t}contains_node"), "contains_node({n:?}) on {tag}");
                    }
                    if !ps.is_empty() && c.rng.bool() {
                        let p = *c.rng.pick(&ps);
                        ensure_eq!(v.contains_port(p), m.ports.contains_key(&p), format!("{t}contains_port"), "contains_port({p:?}) on {tag}");
                        if m.ports.contains_key(&p) {
                            ensure_eq!(v.port_links(p).count(), m.port_links(p).len(), format!("{t}port_links"), "number of port_links({p:?}) on {tag}");
                        }
                    }
                }
                let early = c.rng.chance(1, 3).then(|| v.clone());
                let o = Opts { absent: false, ..FULL };
                let outside_first = c.rng.bool();
                if outside_first {
                    outside_check(v, m, x, &t);
                }
                check_ports(v, m, &mut c.rng, o, &t);
                check_links(v, m, o, &t);
                #[allow(clippy::redundant_closure_call)]
                ($sub)(v, m, x, &t);
                if !outside_first {
                    outside_check(v, m, x, &t);
                }
                if let Some(e) = early {
                    let t = format!("{t}clone:");
                    outside_check(&e, m, x, &t);
                    check_links(&e, m, o, &t);
                    check_ports(&e, m, &mut c.rng, o, &t);
                }
                if c.rng.chance(1, 6) {
                    let t = format!("{t}again:");
                    check_links(&v.clone(), m, o, &t);
                    check_ports(v, m, &mut c.rng, o, &t);
                }
                c.count("views_compared", 1);
                c.count("view_nodes", m.nodes.len() as u64);
                c.count("view_links", m.link_count() as u64);
                D::next(c, v, m, x, tag);
            }
            impl Stack for Z {
                fn next<V: $bound + Clone>(_: &mut Case, _: &V, _: &Model, _: &mut Ctx, _: &str)
                where
                    V::LinkEndpoint: Ep,
                {
                }
            }
            impl<D: Stack> Stack for S<D> {
                fn next<V: $bound + Clone>(c: &mut Case, v: &V, m: &Model, x: &mut Ctx, tag: &str)
                where
                    V::LinkEndpoint: Ep,
                {
                    let kind = c.rng.below(5);
                    c.feed(kind as u64);
                    match kind {
                        0 => {
                            let k = Keep::random(&mut c.rng, m);
                            let fm = k.apply(m);
                            look::<D, _>(c, &filtered(v.clone(), k), &fm, x, &format!("{tag}.filter"));
                        }
                        1 => {
                            let Some(root) = pick_root(c, m, &x.base) else { return };
                            let set: BTreeSet<_> = x.f.descendants(root.index()).into_iter().map(ni).collect();
                            let rm = m.restrict(|n| set.contains(&n), |_, _| true);
                            let h = x.h.clone();
                            c.log(|| format!("region at {}", root.index()));
                            let r = Region::new(v.clone(), &h, root);
                            ensure_eq!(r.region_root(), root, "region_root", "region_root");
                            look::<D, _>(c, &r, &rm, x, &format!("{tag}.region"));
                        }
                        2 => {
                            let Some(root) = pick_root(c, m, &x.base) else { return };
                            let with = c.rng.bool();
                            let mut set: BTreeSet<_> = x.f.kids(root.index()).iter().map(|n| ni(*n)).collect();
                            if with {
                                set.insert(root);
                            }
                            let rm = m.restrict(|n| set.contains(&n), |_, _| true);
                            let h = x.h.clone();
                            c.log(|| format!("flat region at {} with root {with}", root.index()));
                            let hh = if c.rng.bool() { Cow::Borrowed(&h) } else { Cow::Owned(h.clone()) };
                            #[allow(deprecated)]
                            let r = if with && c.rng.chance(1, 8) {
                                FlatRegion::new(v, &h, root)
                            } else if with && c.rng.chance(1, 8) {
                                FlatRegion::new_with_root(v, h.clone(), root)
                            } else if with { FlatRegion::new_with_root(v, hh, root) } else { FlatRegion::new_without_root(v, hh, root) };
                            ensure_eq!(r.region_root(), root, "region_root", "region_root");
                            ensure_eq!(r.includes_root(), with, "includes_root", "includes_root");
                            look::<D, _>(c, &r, &rm, x, &format!("{tag}.flat"));
                        }
                        3 => {
                            let k = c.rng.below(11);
                            let mut order: Vec<_> = m.nodes.keys().copied().filter(|_| c.rng.chance(k, 10)).collect();
                            c.rng.shuffle(&mut order);
                            let set: BTreeSet<_> = order.iter().copied().collect();
                            let sm = m.restrict(|n| set.contains(&n), |_, _| true);
                            let sub = Subgraph::with_nodes(v, order.clone());
                            let b = sub.port_boundary();
                            let exp = crossing(m, &set, &order);
                            ensure_eq!((b.input_indices(), b.output_indices()), (&exp[0][..], &exp[1][..]), format!("{tag}.subgraph:boundary"), "boundary of the subgraph of {order:?}");
                            let was = std::mem::replace(&mut x.outside, false);
                            look::<D, _>(c, &sub, &sm, x, &format!("{tag}.subgraph"));
                            x.outside = was;
                        }
                        _ => {
                            // a subgraph by its boundary: the components of a node set that touch the boundary
                            let k = c.rng.below(11);
                            let order: Vec<_> = m.nodes.keys().copied().filter(|_| c.rng.chance(k, 10)).collect();
                            let set: BTreeSet<_> = order.iter().copied().collect();
                            let mut b = crossing(m, &set, &order);
                            let bs: BTreeSet<_> = b.iter().flatten().copied().collect();
                            if bs.iter().any(|p| m.port_links(*p).iter().any(|(_, q)| set.contains(&m.node(q.0)))) {
                                return;
                            }
                            // unlinked ports may be part of the boundary as well
                            for k in 0..2 {
                                for n in &order {
                                    for p in &m.nodes[n][k] {
                                        if !m.linked(*p) && c.rng.chance(1, 4) {
                                            b[k].push(*p);
                                        }
                                    }
                                }
                            }
                            let bs: BTreeSet<_> = b.iter().flatten().copied().collect();
                            let mut todo: Vec<NodeIndex> = bs.iter().map(|p| m.node(*p)).collect();
                            let mut got: BTreeSet<NodeIndex> = todo.iter().copied().collect();
                            while let Some(n) = todo.pop() {
                                for dir in DIRS {
                                    for (p, q) in m.links_of(n, dir) {
                                        if !bs.contains(&p.0) && !bs.contains(&q.0) && got.insert(m.node(q.0)) {
                                            todo.push(m.node(q.0));
                                        }
                                    }
                                }
                            }
                            if bs.is_empty() {
                                got = m.nodes.keys().copied().collect();
                            }
                            let sm = m.restrict(|n| got.contains(&n), |_, _| true);
                            let sub = Subgraph::new_subgraph(v, Boundary::new(b[0].clone(), b[1].clone()));
                            c.log(|| format!("boundary {b:?}"));
                            let was = std::mem::replace(&mut x.outside, false);
                            look::<D, _>(c, &sub, &sm, x, &format!("{tag}.bounded"));
                            x.outside = was;
                        }
                    }
                }
            }
        }
    };
}

fn subs<V: MultiView>(v: &V, m: &Model, x: &Ctx, t: &str)
where
    V::LinkEndpoint: Ep,
{
    check_subports(v, m, t);
    if x.outside {
        for (a, b) in x.base.links.iter().filter(|(a, _)| !m.ports.contains_key(&a.0)) {
            let e = <V::LinkEndpoint as Ep>::mk(*a);
            ensure!(v.subport_link(e).is_none(), format!("{t}outside-subport_link"), "{a:?} is outside the view, but linked (to {b:?})");
        }
        for n in x.base.nodes.keys().filter(|n| !m.nodes.contains_key(n)) {
            let any = v.all_subports(*n).next().is_some() || DIRS.iter().any(|d| v.subports(*n, *d).next().is_some()) || v.subport_inputs(*n).next().is_some() || v.subport_outputs(*n).next().is_some();
            ensure!(!any, format!("{t}outside-subports"), "{n:?} is outside the view, but has subports");
        }
    }
}

stack!(plain, LinkView, |_: &V, _: &Model, _: &Ctx, _: &str| {});
stack!(multi, MultiView, |v: &V, m: &Model, x: &Ctx, t: &str| subs(v, m, x, t));

fn ctx(c: &mut Case, m: &Model) -> Ctx {
    let nodes: Vec<usize> = m.nodes.keys().map(|n| n.index()).collect();
    let f = Forest::random(&mut c.rng, &nodes);
    let h = f.build();
    Ctx { base: m.clone(), f, h, outside: true }
}

type Two = S<S<Z>>;
type Three = S<S<S<Z>>>;

fn run_plain<D: plain::Stack>(c: &mut Case) {
    let s = shape_big(c, 24);
    let (g, m) = graph::<Plain<u16>>(&mut c.rng, s);
    let mut x = ctx(c, &m);
    let reps = 1 + c.rng.below(3);
    c.feed(m.fingerprint());
    for _ in 0..reps {
        D::next(c, &&g, &m, &mut x, "plain");
    }
    c.nontrivial_if(m.link_count() > 0);
}
fn run_multi<D: multi::Stack>(c: &mut Case) {
    let s = shape_big(c, 24);
    let (g, m) = graph::<Multi<u16>>(&mut c.rng, s);
    let mut x = ctx(c, &m);
    let reps = 1 + c.rng.below(3);
    c.feed(m.fingerprint());
    for _ in 0..reps {
        D::next(c, &&g, &m, &mut x, "multi");
    }
    c.nontrivial_if(m.link_count() > 0);
}

/// Regions with different query histories are equal and stay usable when cloned at any point;
/// deep hierarchies.
fn region_history(c: &mut Case) {
    let s = Shape { nodes: 2 + c.rng.below(10 + 2 * c.size), acyclic: false, density: 1, max_ports: 2 };
    let (g, m) = graph::<Plain<u16>>(&mut c.rng, s);
    let x = ctx(c, &m);
    let root = ni(*c.rng.pick(&m.nodes.keys().map(|n| n.index()).collect::<Vec<_>>()));
    let set: BTreeSet<_> = x.f.descendants(root.index()).into_iter().map(ni).collect();
    let a = Region::new(&g, &x.h, root);
    let mut views = vec![a];
    let ns: Vec<_> = m.nodes.keys().copied().collect();
    for _ in 0..20 + c.size {
        let k = c.rng.below(views.len());
        if c.rng.chance(1, 10) && views.len() < 5 {
            let v = views[k].clone();
            ensure!(v == views[k], "region-eq", "a region differs from its clone");
            views.push(v);
        }
        let n = *c.rng.pick(&ns);
        let what = c.rng.below(3);
        c.log(|| format!("view {k}: query {what} of {}", n.index()));
        match what {
            0 => ensure_eq!(views[k].is_descendant(n), set.contains(&n), "is_descendant", "is_descendant({n:?})"),
            1 => ensure_eq!(views[k].contains_node(n), set.contains(&n), "contains_node", "contains_node({n:?})"),
            _ => {
                let e = m.all_links_of(n).into_iter().filter(|(a, b)| set.contains(&m.node(a.0)) && set.contains(&m.node(b.0))).count();
                ensure_eq!(views[k].all_links(n).count(), e, "all_links", "number of all_links({n:?})");
            }
        }
    }
    for v in &views {
        ensure!(*v == Region::new(&g, &x.h, root), "region-eq", "a used region differs from a new one");
        let r2 = ni(*c.rng.pick(&m.nodes.keys().map(|n| n.index()).collect::<Vec<_>>()));
        ensure_eq!(*v == Region::new(&g, &x.h, r2), r2 == root, "region-ne", "regions of {root:?} and {r2:?} are equal");
    }
    c.feed(m.fingerprint());
    c.nontrivial();
}

/// The context and type alias of filtered graphs, and filters by context only.
fn node_filtered(c: &mut Case) {
    use ::portgraph::view::{NodeFilter, NodeFiltered};
    let s = shape(c, 16);
    let (g, m) = graph::<Plain<u16>>(&mut c.rng, s);
    let k = Keep { blocked: Default::default(), ..Keep::random(&mut c.rng, &m) };
    let v: NodeFiltered<_, NodeFilter<Keep>, Keep> = NodeFiltered::new_node_filtered(&g, Keep::node, k.clone());
    ensure_eq!(*v.context(), k, "filter-context", "context");
    let fm = k.apply(&m);
    let o = Opts { absent: false, ..FULL };
    check_ports(&v, &fm, &mut c.rng, o, "node_filtered:");
    check_links(&v, &fm, o, "node_filtered:");
    c.feed(fm.fingerprint());
    c.nontrivial_if(fm.link_count() > 0);
}

/// Views of more nodes than two bytes can count.
fn huge(c: &mut Case) {
    let n = huge_count(c);
    let (g, m, order) = long_chain::<Plain<u16>>(c, n);
    let idx: Vec<usize> = order.iter().map(|n| n.index()).collect();
    let mut f = Forest::random(&mut c.rng, &idx);
    if c.rng.bool() {
        f = Forest::default();
        for i in &idx[1..] {
            f.attach(*i, idx[0], f.kids(idx[0]).len());
        }
    }
    let h = f.build();
    // the node with the most descendants of a few
    let root = if f.parent.is_empty() { idx[0] } else { *(0..8).map(|_| c.rng.pick(&idx)).chain(&idx[..1]).max_by_key(|i| f.descendants(**i).len()).unwrap() };
    let kind = c.rng.below(6);
    c.log(|| format!("view {kind} of {n} nodes with root {root}"));
    let keep = Keep::random(&mut c.rng, &m);
    let below: BTreeSet<NodeIndex> = f.descendants(root).into_iter().map(ni).collect();
    let kids: BTreeSet<NodeIndex> = f.kids(root).iter().map(|i| ni(*i)).collect();
    let mut with_root = kids.clone();
    with_root.insert(ni(root));
    let some: BTreeSet<NodeIndex> = keep.nodes.clone();
    let part = |set: &BTreeSet<NodeIndex>| m.restrict(|n| set.contains(&n), |_, _| true);
    fn look<V: LinkView<LinkEndpoint = PortIndex>>(c: &mut Case, v: &V, m: &Model, tag: &str) {
        if c.rng.bool() {
            ensure_eq!(v.node_count(), m.nodes.len(), format!("huge:{tag}-early"), "node_count, asked for first");
        }
        ensure_eq!(v.nodes_iter().collect::<BTreeSet<_>>(), m.nodes.keys().copied().collect(), format!("huge:{tag}-nodes"), "nodes_iter");
        ensure_eq!((v.nodes_iter().count(), v.node_count(), v.is_empty()), (m.nodes.len(), m.nodes.len(), m.nodes.is_empty()), format!("huge:{tag}-counts"), "number of nodes listed, node_count and is_empty");
        ensure_eq!((v.ports_iter().count(), v.port_count(), v.link_count()), (m.ports.len(), m.ports.len(), m.link_count()), format!("huge:{tag}-port-counts"), "number of ports listed, port_count and link_count");
        let nodes: Vec<NodeIndex> = m.nodes.keys().copied().collect();
        for _ in 0..2000.min(nodes.len()) {
            let n = *c.rng.pick(&nodes);
            ensure!(v.contains_node(n), format!("huge:{tag}-contains"), "contains_node({n:?})");
            for dir in DIRS {
                ensure_eq!(v.neighbours(n, dir).collect::<Vec<_>>(), m.nbrs(n, dir), format!("huge:{tag}-neighbours"), "neighbours({n:?}, {dir:?})");
            }
        }
        c.max("max_nodes_in_view", nodes.len() as u64);
    }
    match kind {
        0 => look(c, &filtered(&g, keep.clone()), &keep.apply(&m), "filtered"),
        1 => look(c, &Region::new(&g, &h, ni(root)), &part(&below), "region"),
        2 => look(c, &FlatRegion::new_with_root(&g, &h, ni(root)), &part(&with_root), "flat"),
        3 => look(c, &FlatRegion::new_without_root(&g, &h, ni(root)), &part(&kids), "flat-rootless"),
        4 => look(c, &Subgraph::with_nodes(&g, some.clone()), &part(&some), "subgraph"),
        _ => {
            let both: BTreeSet<NodeIndex> = below.intersection(&some).copied().collect();
            look(c, &Region::new(Subgraph::with_nodes(&g, some), &h, ni(root)), &part(&both), "stacked")
        }
    }
    c.feed(n as u64 ^ (kind as u64) << 32);
    c.nontrivial();
}

pub static CHECK: Check = Check {
    prop: "C12",
    rule: "random graphs with random hierarchies, seen through randomly chosen stacks of up to three views (filter, region, flat region with and without root, subgraph by nodes or by boundary), every query of each view compared with the restricted reference model, in random query orders and on clones; a case is non-trivial if its graph has a link",
    assumptions: &["queries about single nodes and ports outside a subgraph view are documented as unspecified and not made", "port and offset queries of outside items are answered by the underlying graph by design and not compared"],
    suites: &[
        Suite { name: "plain", quick: 240000, thorough: 2500000, max_size: 24, f: run_plain::<Two> },
        Suite { name: "multi", quick: 240000, thorough: 2500000, max_size: 24, f: run_multi::<Two> },
        Suite { name: "plain3", quick: 80000, thorough: 1000000, max_size: 24, f: run_plain::<Three> },
        Suite { name: "region", quick: 120000, thorough: 1000000, max_size: 60, f: region_history },
        Suite { name: "node_filtered", quick: 40000, thorough: 400000, max_size: 24, f: node_filtered },
        Suite { name: "huge", quick: 16, thorough: 300, max_size: 4, f: huge },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
