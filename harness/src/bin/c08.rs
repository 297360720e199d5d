//! C08: inserting or copying a graph yields an isomorphic copy and nothing else.

use ::portgraph::view::{CopySubgraphError, FlatRegion, Region, Subgraph};
use ::portgraph::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use vpharness::forest::Forest;
use vpharness::gen::*;
use vpharness::graphchecks::{Multi, Plain};
use vpharness::hist::Gut;
use vpharness::model::*;
use vpharness::run::*;
use vpharness::{ensure, ensure_eq};

type Pairs = BTreeMap<(PortIndex, PortIndex), usize>;

/// Links as a multiset of (output port, input port).
fn pairs(m: &Model) -> Pairs {
    let mut v = Pairs::new();
    for (a, b) in &m.links {
        if m.dir(a.0) == Direction::Outgoing {
            *v.entry((a.0, b.0)).or_default() += 1;
        }
    }
    v
}

/// The old part of `after` is `before`, and the mapped part is a copy of `src`; `extra` are further
/// links between new and old ports.
fn judge<G: Gut>(c: &mut Case, g: &G, before: &Model, src: &Model, map: &HashMap<NodeIndex, NodeIndex>, extra: &[(NodeIndex, Direction, usize, PortIndex)], tag: &str) -> Model {
    let s = |x: &str| format!("{tag}:{x}");
    let keys: BTreeSet<_> = map.keys().copied().collect();
    ensure_eq!(keys, src.nodes.keys().copied().collect(), s("map-keys"), "nodes in the returned map");
    let vals: BTreeSet<_> = map.values().copied().collect();
    ensure_eq!(vals.len(), keys.len(), s("map-injective"), "distinct nodes the map leads to");
    let after = read_model(g);
    let mut exp_nodes: BTreeSet<NodeIndex> = before.nodes.keys().copied().collect();
    for v in &vals {
        ensure!(exp_nodes.insert(*v), s("map-old"), "the map leads to {v:?}, which was there before");
    }
    ensure_eq!(after.nodes.keys().copied().collect::<BTreeSet<_>>(), exp_nodes, s("nodes"), "set of nodes afterwards");
    for (n, v) in &before.nodes {
        ensure_eq!(after.nodes[n], *v, s("old-ports"), "ports of {n:?}, which was there before");
    }
    let mut exp = pairs(before);
    let mut port: BTreeMap<PortIndex, PortIndex> = BTreeMap::new();
    for (o, n) in map {
        for k in 0..2 {
            let (x, y) = (&src.nodes[o][k], &after.nodes[n][k]);
            ensure_eq!(y.len(), x.len(), s("port-counts"), "{:?} ports of the copy of {o:?}", DIRS[k]);
            for (p, q) in x.iter().zip(y) {
                ensure!(!before.ports.contains_key(q), s("port-alias"), "the copy of {p:?} is {q:?}, which was in use");
                port.insert(*p, *q);
            }
        }
    }
    for ((p, q), k) in pairs(src) {
        *exp.entry((port[&p], port[&q])).or_default() += k;
    }
    for (n, dir, off, q) in extra {
        let p = after.nodes[&map[n]][d(*dir)][*off];
        let e = if *dir == Direction::Outgoing { (p, *q) } else { (*q, p) };
        *exp.entry(e).or_default() += 1;
    }
    ensure_eq!(pairs(&after), exp, s("links"), "links afterwards, as pairs of ports");
    // old links keep their subports
    for (a, b) in &before.links {
        ensure_eq!(after.links.get(a), Some(b), s("old-links"), "link of {a:?} afterwards");
    }
    check_ports(g, &after, &mut c.rng, FULL, tag);
    check_links(g, &after, FULL, tag);
    g.check_sub(&after, tag);
    c.count("copies_judged", 1);
    c.count("nodes_copied", map.len() as u64);
    c.count("links_copied", src.link_count() as u64);
    after
}

fn insert_view<D: Gut, V: LinkView<PortOffsetBase = D::PortOffsetBase>>(c: &mut Case, g: &mut D, m: &Model, v: &V, src: &Model, tag: &str) {
    c.log(|| format!("insert {tag} {} into {}", src.describe(), m.describe()));
    let fits = D::MULTI || src.ports.keys().all(|p| src.port_links(*p).len() < 2);
    let r = must("insert_graph", || g.insert_graph(v));
    match r {
        Ok(map) => {
            ensure!(fits, format!("{tag}:accepted"), "a graph with several links per port was inserted into one without");
            judge(c, g, m, src, &map, &[], tag);
        }
        Err(e) => {
            ensure!(!fits, format!("{tag}:refused"), "insertion failed: {e:?}");
            c.count("refusals", 1);
            let after = read_model(g);
            ensure_eq!(after, *m, format!("{tag}:refused-state"), "graph after a refused insertion");
            check_ports(g, m, &mut c.rng, FULL, tag);
            check_links(g, m, FULL, tag);
            g.check_sub(m, tag);
        }
    }
}

fn insert<S: Gut, D: Gut<PortOffsetBase = S::PortOffsetBase>>(c: &mut Case) {
    let (to, from) = (shape_big(c, 14), shape_big(c, 14));
    insert_on::<S, D>(c, to, from)
}
/// More nodes than two bytes can count, on either side.
fn huge<S: Gut, D: Gut<PortOffsetBase = S::PortOffsetBase>>(c: &mut Case) {
    let (mut to, mut from) = (shape_big(c, 14), shape_big(c, 14));
    let big = if c.rng.bool() { &mut to } else { &mut from };
    (big.nodes, big.density, big.max_ports) = (huge_count(c), 1, 2);
    insert_on::<S, D>(c, to, from)
}
fn insert_on<S: Gut, D: Gut<PortOffsetBase = S::PortOffsetBase>>(c: &mut Case, to: Shape, from: Shape) {
    let (mut g, m) = graph::<D>(&mut c.rng, to);
    let sh = from;
    let (og, om) = graph::<S>(&mut c.rng, sh);
    let nodes: Vec<usize> = om.nodes.keys().map(|n| n.index()).collect();
    let f = Forest::random(&mut c.rng, &nodes);
    let h = f.build();
    let kind = c.rng.below(7);
    c.feed(om.fingerprint() ^ kind as u64);
    c.feed(m.fingerprint());
    let root = *c.rng.pick(&nodes);
    match kind {
        0 | 1 => insert_view(c, &mut g, &m, &og, &om, "graph"),
        2 => {
            let k = Keep::random(&mut c.rng, &om);
            let fm = k.apply(&om);
            insert_view(c, &mut g, &m, &filtered(&og, k), &fm, "filtered");
        }
        3 => {
            let set: BTreeSet<_> = f.descendants(root).into_iter().map(ni).collect();
            let rm = om.restrict(|n| set.contains(&n), |_, _| true);
            insert_view(c, &mut g, &m, &Region::new(&og, &h, ni(root)), &rm, "region");
        }
        4 => {
            let with = c.rng.bool();
            let mut set: BTreeSet<_> = f.kids(root).iter().map(|n| ni(*n)).collect();
            if with {
                set.insert(ni(root));
            }
            let rm = om.restrict(|n| set.contains(&n), |_, _| true);
            let v = if with { FlatRegion::new_with_root(&og, &h, ni(root)) } else { FlatRegion::new_without_root(&og, &h, ni(root)) };
            insert_view(c, &mut g, &m, &v, &rm, "flat");
        }
        5 => {
            let k = c.rng.below(11);
            let set: BTreeSet<_> = om.nodes.keys().copied().filter(|_| c.rng.chance(k, 10)).collect();
            let sm = om.restrict(|n| set.contains(&n), |_, _| true);
            insert_view(c, &mut g, &m, &Subgraph::with_nodes(&og, set), &sm, "subgraph");
        }
        _ => {
            let k = Keep::random(&mut c.rng, &om);
            let set: BTreeSet<_> = f.descendants(root).into_iter().map(ni).collect();
            let fm = k.apply(&om).restrict(|n| set.contains(&n), |_, _| true);
            insert_view(c, &mut g, &m, &Region::new(filtered(&og, k), &h, ni(root)), &fm, "region-filtered");
        }
    }
    c.nontrivial_if(om.link_count() > 0);
}

fn copy<G: Gut>(c: &mut Case) {
    let sh = shape_big(c, 14);
    let (mut g, m) = graph::<G>(&mut c.rng, sh);
    let keys: Vec<NodeIndex> = m.nodes.keys().copied().collect();
    let mut set: BTreeSet<NodeIndex> = {
        let k = c.rng.below(11);
        keys.iter().copied().filter(|_| c.rng.chance(k, 10)).collect()
    };
    // often without boundary: close under links
    if c.rng.chance(1, if G::MULTI { 4 } else { 2 }) {
        let mut todo: Vec<_> = set.iter().copied().collect();
        while let Some(n) = todo.pop() {
            for dir in DIRS {
                for t in m.nbrs(n, dir) {
                    if set.insert(t) {
                        todo.push(t);
                    }
                }
            }
        }
    }
    let sm = m.restrict(|n| set.contains(&n), |_, _| true);
    let mut extra = vec![];
    for n in &set {
        for dir in DIRS {
            for (a, b) in m.links_of(*n, dir) {
                if !set.contains(&m.node(b.0)) {
                    extra.push((*n, dir, m.ports[&a.0].2, b.0));
                }
            }
        }
    }
    c.log(|| format!("copy {set:?} of {} (boundary {extra:?})", m.describe()));
    c.feed(m.fingerprint());
    c.feed(sm.fingerprint());
    let before = g.clone();
    let mut order: Vec<_> = set.iter().copied().collect();
    c.rng.shuffle(&mut order);
    let mut sub = Subgraph::with_nodes(&mut g, order);
    let r = must("copy_in_parent", || sub.copy_in_parent());
    check_ports(&sub, &sm, &mut c.rng, Opts { absent: false, capacities: false, ..FULL }, "copy-sub:");
    check_links(&sub, &sm, Opts { absent: false, ..FULL }, "copy-sub:");
    drop(sub);
    match r {
        Ok(map) => {
            ensure!(G::MULTI || extra.is_empty(), "copy:accepted", "copied although {extra:?} cannot be duplicated");
            let after = judge(c, &g, &m, &sm, &map, &extra, "copy");
            // the copy is independent: taking it out again restores the graph
            for n in map.values() {
                g.remove_node(*n);
            }
            let _ = after;
            let back = read_model(&g);
            ensure_eq!(back, m, "copy:remove", "graph after removing the copy again");
        }
        Err(CopySubgraphError::CantCopyBoundary { internal, external }) => {
            c.count("refusals", 1);
            ensure!(!G::MULTI && !extra.is_empty(), "copy:refused", "refused with internal {internal:?} external {external:?}");
            ensure!(
                m.ports.get(&internal).is_some_and(|x| set.contains(&x.0)) && m.ports.get(&external).is_some_and(|x| !set.contains(&x.0)),
                "copy:cause-sides", "refused because of internal {internal:?}, external {external:?}"
            );
            ensure!(m.port_links(internal).iter().any(|(_, b)| b.0 == external), "copy:cause-link", "refused because of {internal:?} and {external:?}, which are not linked");
            let after = read_model(&g);
            ensure_eq!(after, m, "copy:refused-state", "graph after a refused copy");
            check_ports(&g, &m, &mut c.rng, FULL, "copy-refused:");
            check_links(&g, &m, FULL, "copy-refused:");
            // and it can be used as before
            let (mut a, mut b) = (g.clone(), before);
            let (x, y) = (a.add_node(1, 2), b.add_node(1, 2));
            ensure_eq!((a.node_count(), a.num_outputs(x)), (b.node_count(), b.num_outputs(y)), "copy:refused-use", "counts after adding a node");
        }
        Err(e) => vio("copy:error", format!("unknown error {e:?}")),
    }
    c.nontrivial_if(sm.link_count() > 0 || !extra.is_empty());
}

type P = Plain<u16>;
type M = Multi<u16>;
pub static CHECK: Check = Check {
    prop: "C08",
    rule: "random destination and source graphs of both kinds, sources also seen through each kind of view; random node subsets copied within their graph; the result compared with the disjoint union in the reference model; non-trivial if a link is copied, or lies on the boundary",
    assumptions: &["only the public interface is observed"],
    suites: &[
        Suite { name: "pp", quick: 240000, thorough: 2000000, max_size: 20, f: insert::<P, P> },
        Suite { name: "mm", quick: 160000, thorough: 1500000, max_size: 20, f: insert::<M, M> },
        Suite { name: "pm", quick: 120000, thorough: 1000000, max_size: 20, f: insert::<P, M> },
        Suite { name: "mp", quick: 120000, thorough: 1000000, max_size: 20, f: insert::<M, P> },
        Suite { name: "huge", quick: 6, thorough: 100, max_size: 4, f: huge::<P, P> },
        Suite { name: "huge_multi", quick: 6, thorough: 100, max_size: 4, f: huge::<M, M> },
        Suite { name: "copy", quick: 240000, thorough: 2000000, max_size: 20, f: copy::<P> },
        Suite { name: "copy_multi", quick: 240000, thorough: 2000000, max_size: 20, f: copy::<M> },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
