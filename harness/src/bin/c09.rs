use ::portgraph::hierarchy::AttachError;
use ::portgraph::*;
use vpharness::forest::*;
use vpharness::model::*;
use vpharness::run::*;
use vpharness::{ensure, ensure_eq};

fn steps(c: &mut Case, universe: usize, n: usize) {
    let mut h = match c.rng.below(4) {
        0 => Hierarchy::default(),
        1 => Hierarchy::new(),
        _ => Hierarchy::with_capacity(c.rng.below(2 * universe)),
    };
    let mut f = Forest::default();
    let u = universe;
    for step in 0..n {
        let a = c.rng.below(u);
        let b = if c.rng.chance(1, 12) { a } else { c.rng.below(u) };
        let before = f.clone();
        match c.rng.weighted(&[14, 14, 14, 14, 10, 4, 5, 10, 8, 2, 2, 1]) {
            k @ 0..=3 => {
                let name = ["push_child", "push_front_child", "insert_before", "insert_after"][k];
                c.log(|| format!("{name}({a}, {b})"));
                let r = must(name, || match k {
                    0 => h.push_child(ni(a), ni(b)),
                    1 => h.push_front_child(ni(a), ni(b)),
                    2 => h.insert_before(ni(a), ni(b)),
                    _ => h.insert_after(ni(a), ni(b)),
                });
                let target = if k < 2 { Some(b) } else { f.parent(b) };
                let attached = f.parent(a).is_some();
                let cycle = target.is_some_and(|t| f.is_anc_or_eq(a, t));
                let ok = !attached && target.is_some() && !cycle;
                match r {
                    Ok(()) => {
                        ensure!(ok, format!("accepted:{name}"), "{name}({a}, {b}) was accepted; parent of {a}: {:?}, target parent {target:?}, cycle: {cycle}", f.parent(a));
                        let t = target.unwrap();
                        let at = match k {
                            0 => f.kids(t).len(),
                            1 => 0,
                            2 => f.kids(t).iter().position(|x| *x == b).unwrap(),
                            _ => f.kids(t).iter().position(|x| *x == b).unwrap() + 1,
                        };
                        f.attach(a, t, at);
                        c.count("attached", 1);
                    }
                    Err(e) => {
                        ensure!(!ok, format!("refused:{name}"), "{name}({a}, {b}) was refused with {e:?}");
                        let truth = match &e {
                            AttachError::AlreadyAttached { node } => node.index() == a && attached,
                            AttachError::RootSibling { root } => root.index() == b && k >= 2 && target.is_none(),
                            AttachError::Cycle { node, parent } => node.index() == a && Some(parent.index()) == target && cycle,
                            #[allow(unreachable_patterns)]
                            _ => true,
                        };
                        ensure!(truth, format!("cause:{name}"), "{name}({a}, {b}) gave the untrue cause {e:?}");
                        c.count("refused", 1);
                    }
                }
            }
            4 => {
                c.log(|| format!("detach({a})"));
                let r = must("detach", || h.detach(ni(a)));
                ensure_eq!(r.map(|x| x.index()), f.detach(a), "detach", "result of detach({a})");
                c.count("detached", 1);
            }
            5 => {
                c.log(|| format!("detach_children({a})"));
                must("detach_children", || h.detach_children(ni(a)));
                f.detach_children(a);
            }
            6 => {
                c.log(|| format!("remove({a})"));
                must("remove", || h.remove(ni(a)));
                f.detach_children(a);
                f.detach(a);
            }
            7 => {
                c.log(|| format!("swap_nodes({a}, {b})"));
                must("swap_nodes", || h.swap_nodes(ni(a), ni(b)));
                f.rename(|x| if x == a { b } else if x == b { a } else { x });
                c.count("swapped", 1);
            }
            8 => {
                c.log(|| format!("rekey({a}, {b})"));
                let free = f.parent(b).is_none() && f.kids(b).is_empty();
                let r = catch(|| h.rekey(ni(a), ni(b)));
                if a == b {
                    ensure!(r.is_ok() , "rekey-self", "rekey({a}, {a}) panicked: {r:?}");
                } else if free {
                    ensure!(r.is_ok(), "rekey", "rekey({a}, {b}) panicked: {r:?}");
                    f.rename(|x| if x == a { b } else { x });
                    c.count("rekeyed", 1);
                } else {
                    ensure!(r.is_err(), "rekey-occupied", "rekey({a}, {b}) into an occupied index was accepted");
                    c.count("rekey_refused", 1);
                }
            }
            9 => {
                let k = c.rng.below(u + 2);
                c.log(|| format!("shrink_to({k})"));
                must("shrink_to", || h.shrink_to(k));
                for x in k..u {
                    f.detach_children(x);
                    f.detach(x);
                }
            }
            10 => {
                let k = c.rng.below(2 * u);
                c.log(|| format!("ensure_capacity({k})"));
                must("ensure_capacity", || h.ensure_capacity(k));
            }
            _ => {
                c.log(|| "clone".into());
                let g = h.clone();
                ensure!(g == h, "clone-eq", "a clone differs");
                h = g;
            }
        }
        if step % 3 == 0 || u <= 6 {
            check_forest(&h, &f, u + 2, &mut c.rng);
            c.count("full_comparisons", 1);
        }
        if f != before {
            c.feed(f.parent.iter().fold(7u64, |s, (x, y)| vpharness::rng::mix(s ^ ((*x as u64) << 32 | *y as u64))));
        }
    }
    check_forest(&h, &f, u + 2, &mut c.rng);
    let fresh = f.build();
    ensure!(fresh == h, "eq-rebuilt", "the hierarchy differs from one built afresh with the same forest: {h:?} vs {fresh:?}");
    let mut other = f.clone();
    if let Some((&k, _)) = f.parent.iter().next() {
        other.detach(k);
        ensure!(other.build() != h, "eq-different", "hierarchies with different forests compare equal");
        c.nontrivial();
    }
    c.max("max_members", f.members().len() as u64);
}

fn small(c: &mut Case) {
    let u = 2 + c.rng.below(6);
    let n = 5 + c.size;
    steps(c, u, n)
}
/// Many children of one node, or many levels; counts and indices longer than one or two bytes.
fn many(c: &mut Case) {
    let at = *c.rng.pick(&[0usize, 120, 250, 65400, 65534]);
    let n = if c.rng.chance(1, 20) { 65500 + c.rng.below(100) } else { *c.rng.pick(&[100usize, 126, 128, 255, 256, 300]) + c.rng.below(3) };
    let root = ni(at);
    let deep = c.rng.bool();
    c.log(|| format!("{n} {} from index {at}", if deep { "levels" } else { "children" }));
    let mut h = if c.rng.bool() { Hierarchy::new() } else { Hierarchy::with_capacity(c.rng.below(at + n)) };
    let mut order: std::collections::VecDeque<NodeIndex> = Default::default();
    if deep {
        order.push_back(root);
    }
    for k in 1..=n {
        let x = ni(at + k);
        if deep {
            must("push_child", || h.push_child(x, ni(at + k - 1))).unwrap();
            order.push_back(x);
        } else if c.rng.bool() {
            must("push_child", || h.push_child(x, root)).unwrap();
            order.push_back(x);
        } else {
            must("push_front_child", || h.push_front_child(x, root)).unwrap();
            order.push_front(x);
        }
    }
    let mut order = Vec::from(order);
    for round in 0..3 {
        let k = order.len();
        let i = c.rng.below(k);
        if deep {
            let (top, low) = (order[0], order[k - 1]);
            ensure_eq!(h.descendants(top).count(), k, "many:descendants", "number of descendants of the first of {k} levels");
            ensure_eq!(h.descendants(order[i]).collect::<Vec<_>>(), order[i..].to_vec(), "many:descendants", "descendants at level {i} of {k}");
            ensure_eq!((h.parent(order[i]), h.child_count(order[i])), (i.checked_sub(1).map(|j| order[j]), usize::from(i + 1 < k)), "many:level", "parent and child count at level {i} of {k}");
            ensure!(h.push_child(top, low).is_err() && h.push_front_child(top, order[i]).is_err(), "many:cycle", "attaching the first of {k} levels below the last one was accepted");
            // move the lower part to the front
            if i > 0 {
                h.detach(order[i]);
                ensure!(h.push_child(top, low).is_ok(), "many:move", "moving the upper {i} of {k} levels below the lower ones was refused");
                order.rotate_left(i);
            }
        } else {
            ensure_eq!((h.child_count(root), h.children(root).len()), (k, k), "many:count", "number of children");
            ensure_eq!(h.children(root).collect::<Vec<_>>(), order, "many:children", "children");
            ensure_eq!(h.children(root).rev().collect::<Vec<_>>(), order.iter().rev().copied().collect::<Vec<_>>(), "many:children-rev", "children from the back");
            ensure_eq!((h.first(root), h.last(root)), (order.first().copied(), order.last().copied()), "many:ends", "first and last child");
            ensure_eq!((h.prev(order[i]), h.next(order[i]), h.parent(order[i])), (i.checked_sub(1).map(|j| order[j]), order.get(i + 1).copied(), Some(root)), "many:siblings", "siblings of child {i} of {k}");
            ensure_eq!(h.descendants(root).count(), k + 1, "many:descendants", "number of descendants");
            // take one out, and put it elsewhere
            let x = order.remove(i);
            ensure_eq!(h.detach(x), Some(root), "many:detach", "result of detach");
            let j = c.rng.below(k - 1);
            must("insert_before", || h.insert_before(x, order[j])).unwrap();
            order.insert(j, x);
        }
        c.feed((i as u64) << 32 ^ (k as u64) << 2 ^ round);
    }
    if !deep {
        h.detach_children(root);
        ensure!(h.child_count(root) == 0 && !h.has_children(root) && order.iter().all(|x| h.is_root(*x)), "many:detach_children", "children after detach_children");
    }
    c.max("max_children_or_levels", n as u64);
    c.nontrivial();
}
fn wide(c: &mut Case) {
    let u = 8 + c.rng.below(40);
    let n = 20 + 3 * c.size;
    steps(c, u, n)
}

/// A hierarchy kept next to a graph, following its renamings as documented.
fn follow<G: LinkMut + MultiLinkless>(c: &mut Case) {
    let mut g = G::mk();
    let mut h = Hierarchy::new();
    // Every node is recognised by its number of inputs.
    let mut f = Forest::default();
    let mut next = 1usize;
    let find = |g: &G| -> std::collections::BTreeMap<usize, NodeIndex> { g.nodes_iter().map(|n| (g.num_inputs(n), n)).collect() };
    for _ in 0..6 + c.size {
        let ids = find(&g);
        let keys: Vec<usize> = ids.keys().copied().collect();
        match c.rng.weighted(&[12, 5, 14, 3, 4, 3, 6]) {
            0 => {
                let n = must("add_node", || g.add_node(next, 1));
                c.log(|| format!("add_node -> {} (id {next})", n.index()));
                h.remove(n);
                next += 1;
            }
            1 if !keys.is_empty() => {
                let k = *c.rng.pick(&keys);
                c.log(|| format!("remove_node id {k}"));
                must("remove_node", || g.remove_node(ids[&k]));
                h.remove(ids[&k]);
                f.detach_children(k);
                f.detach(k);
            }
            2 if keys.len() > 1 => {
                let (a, b) = (*c.rng.pick(&keys), *c.rng.pick(&keys));
                c.log(|| format!("push_child id {a} under id {b}"));
                if h.push_child(ids[&a], ids[&b]).is_ok() {
                    let at = f.kids(b).len();
                    f.attach(a, b, at);
                }
            }
            3 => {
                c.log(|| "compact_nodes".into());
                must("compact_nodes+rekey", || g.compact_nodes(|a, b| h.rekey(a, b)));
                c.count("compactions", 1);
                if c.rng.bool() {
                    let cap = g.nodes_iter().map(|n| n.index() + 1).max().unwrap_or(0);
                    h.shrink_to(cap);
                }
            }
            4 if keys.len() > 1 => {
                let (a, b) = (*c.rng.pick(&keys), *c.rng.pick(&keys));
                c.log(|| format!("swap_nodes id {a} id {b}"));
                must("swap_nodes", || g.swap_nodes(ids[&a], ids[&b]));
                h.swap_nodes(ids[&a], ids[&b]);
            }
            5 if keys.len() > 1 => {
                let (a, b) = (*c.rng.pick(&keys), *c.rng.pick(&keys));
                let _ = g.link_nodes(ids[&a], 0, ids[&b], c.rng.below(b));
            }
            6 if !keys.is_empty() => {
                let a = *c.rng.pick(&keys);
                h.detach(ids[&a]);
                f.detach(a);
            }
            _ => {}
        }
        let ids = find(&g);
        let name: std::collections::BTreeMap<usize, usize> = ids.iter().map(|(k, n)| (n.index(), *k)).collect();
        let mut renamed = f.clone();
        renamed.rename(|k| ids[&k].index());
        let upto = name.keys().next_back().map_or(0, |x| x + 2);
        check_forest(&h, &renamed, upto, &mut c.rng);
    }
    c.feed(f.parent.iter().fold(7u64, |s, (x, y)| vpharness::rng::mix(s ^ ((*x as u64) << 32 | *y as u64))));
    if f.parent.len() > 1 {
        c.nontrivial();
    }
}
trait MultiLinkless: Sized {
    fn mk() -> Self;
}
impl MultiLinkless for PortGraph {
    fn mk() -> Self {
        Self::new()
    }
}
impl MultiLinkless for MultiPortGraph {
    fn mk() -> Self {
        Self::new()
    }
}

pub static CHECK: Check = Check {
    prop: "C09",
    rule: "random hierarchy operation sequences mirrored on an ordered-forest model, every query compared; non-trivial if some node is attached at the end, distinct by sequence of forests",
    assumptions: &["the forest model in harness/src/forest.rs states the intended semantics"],
    suites: &[
        Suite { name: "small", quick: 500000, thorough: 12000000, max_size: 60, f: small },
        Suite { name: "wide", quick: 60000, thorough: 1500000, max_size: 60, f: wide },
        Suite { name: "many", quick: 400, thorough: 10000, max_size: 10, f: many },
        Suite { name: "follow", quick: 60000, thorough: 1600000, max_size: 40, f: follow::<PortGraph> },
        Suite { name: "follow_multi", quick: 60000, thorough: 1600000, max_size: 40, f: follow::<MultiPortGraph> },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
