//! C24: several threads querying one shared structure.
//!
//! Every suite builds structures that nobody has queried yet, lets several threads loose on each of
//! them at once and compares every answer with the answer of a fresh structure queried alone. Races
//! are left to ThreadSanitizer and the interpreter, deadlocks to the watchdog of the runner.

use ::portgraph::algorithms::{dominators, lca, postorder, toposort, DominatorTree, TopoConvexChecker, TopoSort, ConvexChecker};
use ::portgraph::boundary::{Boundary, HasBoundary};
use ::portgraph::render::{DotFormat, MermaidFormat};
use ::portgraph::view::{FilteredGraph, FlatRegion, LinkFilter, LinkView, MultiView, NodeFilter, PortView, Region, Subgraph};
use ::portgraph::*;
use std::cell::Cell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex};
use vpharness::ensure;
use vpharness::forest::Forest;
use vpharness::gen::*;
use vpharness::graphchecks::{Multi, Plain};
use vpharness::hist::Gut;
use vpharness::model::*;
use vpharness::rng::{mix, Rng};
use vpharness::run::*;

// ---------------------------------------------------------------- queries and digests

#[derive(Clone, Copy, Debug)]
struct Q {
    code: u8,
    a: NodeIndex,
    b: NodeIndex,
    p: PortIndex,
    dir: Direction,
    off: usize,
}

fn h(x: impl Hash) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
/// Items in any order.
fn bag<T: Hash>(it: impl Iterator<Item = T>) -> u64 {
    it.fold((0u64, 0u64), |(n, s), x| (n + 1, s.wrapping_add(mix(h(x))))).hash_one()
}
trait HashOne: Hash {
    fn hash_one(&self) -> u64 {
        h(self)
    }
}
impl<T: Hash> HashOne for T {}

fn e<X: Ep>(x: X) -> (PortIndex, usize) {
    x.end()
}
fn l<X: Ep>(x: (X, X)) -> (End, End) {
    (e(x.0), e(x.1))
}
fn lines(s: &str) -> u64 {
    bag(s.lines())
}

const VIEW_CODES: u8 = 32;

fn ask_view<V>(v: &V, q: &Q) -> u64
where
    V: LinkView + Clone + PartialEq,
    V::LinkEndpoint: Ep,
{
    let (a, b, p) = (q.a, q.b, q.p);
    match q.code {
        0 | 1 | 2 | 3 => h(v.contains_node(a)),
        4 | 5 => h(v.contains_port(p)),
        6 => h((v.node_count(), v.is_empty())),
        7 => h(v.port_count()),
        8 => h(v.link_count()),
        9 => bag(v.nodes_iter()),
        10 => bag(v.ports_iter()),
        11 | 12 => bag(v.port_links(p).map(l)),
        13 => h(v.port_link(p).map(e)),
        14 | 15 => bag(v.links(a, q.dir).map(l)),
        16 => bag(v.all_links(a).map(l)),
        17 | 18 => bag(v.neighbours(a, q.dir)),
        19 => bag(v.all_neighbours(a)),
        20 => bag(v.get_connections(a, b).map(l)),
        21 => h((v.connected(a, b), v.get_connection(a, b).is_some())),
        22 => h((v.port_node(p), v.port_direction(p), v.port_offset(p).map(|o| (o.direction(), o.index())))),
        23 => h((v.port_index(a, PortOffset::new(q.dir, q.off)), v.input(a, q.off), v.output(a, q.off))),
        24 => h((v.num_ports(a, q.dir), bag(v.ports(a, q.dir)), bag(v.all_ports(a)), v.node_port_capacity(a))),
        25 => h((bag(v.all_port_offsets(a).map(|o| (o.direction(), o.index()))), v.node_capacity() >= v.node_count())),
        26 => {
            let d = v.clone();
            h((d.contains_node(a), d.contains_node(b), d.contains_port(p), bag(d.nodes_iter()), d.contains_node(a)))
        }
        #[allow(clippy::eq_op)]
        27 => h((*v == v.clone(), *v == *v)),
        28 => {
            let src: Vec<_> = v.nodes_iter().filter(|n| v.links(*n, Direction::Incoming).next().is_none()).collect();
            let t: TopoSort<_, HashSet<PortIndex>> = toposort(v, src, Direction::Outgoing);
            bag(t)
        }
        29 => lines(&v.dot_string()),
        30 => lines(&v.mermaid_string()),
        _ => {
            // an iterator held over other queries
            let mut it = v.nodes_iter();
            let mut s = 0u64;
            while let Some(n) = it.next() {
                s = s.wrapping_add(mix(h((n, v.contains_node(n), v.contains_node(a), v.all_links(n).count()))));
            }
            s
        }
    }
}

fn ask_multi<V>(v: &V, q: &Q) -> u64
where
    V: MultiView + Clone + PartialEq,
    V::LinkEndpoint: Ep,
{
    match q.code {
        VIEW_CODES => bag(v.subports(q.a, q.dir).map(e)),
        33 => bag(v.all_subports(q.a).map(e)),
        34 => bag(v.all_subports(q.a).map(|s| (e(s), v.subport_link(s).map(e)))),
        35 => h((bag(v.subport_inputs(q.a).map(e)), bag(v.subport_outputs(q.a).map(e)))),
        _ => ask_view(v, q),
    }
}

fn queries(c: &mut Case, nodes: &[NodeIndex], ports: &[PortIndex], codes: u8, n: usize) -> Vec<Q> {
    let heavy = c.rng.chance(1, 4);
    (0..n)
        .map(|_| {
            let code = match c.rng.below(10) {
                // membership is what is memoised
                0..=4 => 0,
                _ => loop {
                    let k = c.rng.below(codes as usize) as u8;
                    if heavy || !(28..=31).contains(&k) {
                        break k;
                    }
                },
            };
            let node = |c: &mut Case| if nodes.is_empty() || c.rng.chance(1, 30) { ni(c.rng.below(200)) } else { *c.rng.pick(nodes) };
            Q {
                code,
                a: node(c),
                b: node(c),
                p: if ports.is_empty() || c.rng.chance(1, 40) { PortIndex::new(c.rng.below(500)) } else { *c.rng.pick(ports) },
                dir: *c.rng.pick(&DIRS),
                off: c.rng.below(4),
            }
        })
        .collect()
}

// ---------------------------------------------------------------- the race

/// Shares a value no matter what the type system thinks of it: whether the types are `Sync` is
/// judged by the suite `markers`.
struct Share<'a, T: ?Sized>(&'a T);
unsafe impl<T: ?Sized> Sync for Share<'_, T> {}
unsafe impl<T: ?Sized> Send for Share<'_, T> {}
impl<'a, T: ?Sized> Share<'a, T> {
    fn get(&self) -> &'a T {
        self.0
    }
}

thread_local! {
    static NAP: Cell<u64> = const { Cell::new(0) };
}
/// Injected delays: nothing, a few spins, handing over the processor, or a short sleep.
fn nap() {
    let x = NAP.with(|n| {
        n.set(mix(n.get().wrapping_add(0x9e37_79b9)));
        n.get()
    });
    match x % 64 {
        0 => std::thread::yield_now(),
        1..=6 => (0..(x >> 8) % 200).for_each(|_| std::hint::spin_loop()),
        7 if !cfg!(miri) && x >> 60 == 0 => std::thread::sleep(std::time::Duration::from_micros(x >> 20 & 63)),
        _ => {}
    }
}

fn race<S>(c: &mut Case, views: Vec<S>, alone: impl Fn(&Q) -> u64, ask: impl Fn(&S, &Q) -> u64, qs: &[Q]) {
    let panicked = 0xdead_u64;
    let expected: Vec<u64> = qs.iter().map(|q| catch(|| alone(q)).unwrap_or(panicked)).collect();
    let threads = if cfg!(miri) { 2 + c.rng.below(2) } else { 2 + c.rng.below(6) };
    let steps = qs.len().min(4 + c.rng.below(if cfg!(miri) { 6 } else { 40 }));
    let style = c.rng.below(4);
    let seed = c.rng.u64();
    c.log(|| format!("{threads} threads, {steps} queries each in each of {} rounds, style {style}; first queries {:?}", views.len(), &qs[..qs.len().min(4)]));
    let rounds = views.len();
    let arrived: Vec<AtomicUsize> = (0..rounds).map(|_| AtomicUsize::new(0)).collect();
    let tickets: Vec<AtomicU64> = (0..rounds).map(|_| AtomicU64::new(0)).collect();
    let barrier = Barrier::new(threads);
    let orders: Mutex<Vec<Vec<(u32, u64, u8)>>> = Mutex::new(vec![]);
    let wrong: Mutex<Vec<String>> = Mutex::new(vec![]);
    {
        let (views, ask) = (Share(&views[..]), Share(&ask));
        let (arrived, tickets, barrier, orders, wrong, expected) = (&arrived, &tickets, &barrier, &orders, &wrong, &expected);
        let body = move |t: usize, views: Share<[S]>, ask: Share<dyn Fn(&S, &Q) -> u64>| {
            NAP.with(|n| n.set(mix(seed ^ t as u64)));
            let mut rng = Rng::new(mix(seed ^ (t as u64) << 32));
            let mut mine = Vec::with_capacity(rounds * steps);
            let (views, ask) = (views.get(), ask.get());
            for r in 0..rounds {
                let mut round = Rng::new(mix(seed ^ (r as u64) << 40));
                // what to ask: everyone the same first, everyone the same sequence, or all different
                let pick: Vec<usize> = match style {
                    0 => (0..steps).map(|_| round.below(qs.len())).collect(),
                    1 => std::iter::once(round.below(qs.len())).chain((1..steps).map(|_| rng.below(qs.len()))).collect(),
                    _ => (0..steps).map(|_| rng.below(qs.len())).collect(),
                };
                let ticket = r % 2 == 0;
                if cfg!(miri) {
                    barrier.wait();
                } else {
                    arrived[r].fetch_add(1, Ordering::SeqCst);
                    let mut spins = 0u32;
                    while arrived[r].load(Ordering::SeqCst) < threads {
                        spins += 1;
                        if spins % 64 == 0 {
                            std::thread::yield_now()
                        }
                        std::hint::spin_loop();
                    }
                }
                for i in pick {
                    if style == 3 {
                        nap();
                    }
                    let got = catch(|| ask(&views[r], &qs[i]));
                    let d = *got.as_ref().unwrap_or(&panicked);
                    if d != expected[i] {
                        let why = match got {
                            Err(e) => format!("panicked: {e}"),
                            Ok(_) if expected[i] == panicked => "answered, alone it panics".into(),
                            Ok(_) => "gave another answer than alone".into(),
                        };
                        wrong.lock().unwrap().push(format!("round {r}, thread {t} of {threads}, query {:?}: {why}", qs[i]));
                    }
                    if ticket {
                        // relaxed: must not order the accesses under test
                        mine.push((r as u32, tickets[r].fetch_add(1, Ordering::Relaxed), t as u8));
                    }
                }
            }
            orders.lock().unwrap().push(mine);
        };
        std::thread::scope(|s| {
            for t in 1..threads {
                let (views, ask) = (Share(views.0), Share(ask.0 as &dyn Fn(&S, &Q) -> u64));
                let body = &body;
                let body = Share(body);
                s.spawn(move || {
                    let (body, views, ask) = (body, views, ask);
                    (body.get())(t, views, ask)
                });
            }
            body(0, Share(views.0), Share(ask.0 as &dyn Fn(&S, &Q) -> u64));
        });
    }
    // which threads answered in which order
    let mut by: HashMap<u32, Vec<(u64, u8)>> = HashMap::new();
    for (r, k, t) in orders.into_inner().unwrap().into_iter().flatten() {
        by.entry(r).or_default().push((k, t));
    }
    let mut seen = HashSet::new();
    let mut switches = 0;
    for v in by.values_mut() {
        v.sort();
        switches += v.windows(2).filter(|w| w[0].1 != w[1].1).count();
        seen.insert(h(v.iter().map(|x| x.1).collect::<Vec<_>>()));
    }
    c.count("rounds", rounds as u64);
    c.count("concurrent_queries", (rounds * steps * threads) as u64);
    c.count("distinct_interleavings_seen", seen.len() as u64);
    c.count("switches_between_threads", switches as u64);
    c.max("max_threads", threads as u64);
    let wrong = wrong.into_inner().unwrap();
    ensure!(wrong.is_empty(), "concurrent-answer", "{} of the answers differ; first: {}", wrong.len(), wrong[0]);
    // what the threads left behind
    for v in &views {
        for (i, q) in qs.iter().enumerate().take(12) {
            let d = catch(|| ask(v, q)).unwrap_or(panicked);
            ensure!(d == expected[i], "answer-afterwards", "after the threads are done, query {q:?} gives another answer than alone");
        }
    }
    c.feed(expected.iter().fold(seed, |a, x| mix(a ^ x)));
    c.nontrivial_if(expected.iter().collect::<HashSet<_>>().len() > 2 && switches > 0);
}

// ---------------------------------------------------------------- worlds

struct World<G> {
    g: G,
    m: Model,
    f: Forest,
    h: Hierarchy,
    nodes: Vec<NodeIndex>,
    ports: Vec<PortIndex>,
    root: NodeIndex,
}

fn world<G: Gut>(c: &mut Case) -> World<G> {
    let big = !cfg!(miri) && c.rng.chance(1, 3);
    let sh = Shape {
        nodes: if cfg!(miri) { 4 + c.rng.below(8) } else { 4 + c.rng.below(if big { 120 } else { 24 }) },
        acyclic: c.rng.bool(),
        density: *c.rng.pick(&[0, 1, 1, 2]),
        max_ports: *c.rng.pick(&[1, 2, 3]),
    };
    let (g, m): (G, Model) = graph(&mut c.rng, sh);
    let nodes: Vec<NodeIndex> = m.nodes.keys().copied().collect();
    let ix: Vec<usize> = nodes.iter().map(|n| n.index()).collect();
    let mut f = Forest::random(&mut c.rng, &ix);
    if c.rng.bool() && ix.len() > 3 {
        // two long chains below one root
        f = Forest::default();
        for (i, n) in ix.iter().enumerate().skip(1) {
            if i == ix.len() - 1 && c.rng.bool() {
                continue;
            }
            f.attach(*n, ix[i.saturating_sub(2)], 0);
        }
    }
    let h = f.build();
    let inner: Vec<usize> = ix.iter().copied().filter(|n| !f.kids(*n).is_empty()).collect();
    let root = if inner.is_empty() { ix[0] } else { *c.rng.pick(&inner) };
    let ports = m.ports.keys().copied().collect();
    World { g, m, f, h, nodes, ports, root: ni(root) }
}

fn rounds(c: &mut Case) -> usize {
    if cfg!(miri) {
        2
    } else {
        4 + c.rng.below(24)
    }
}

fn n_queries(c: &mut Case) -> usize {
    if cfg!(miri) {
        8
    } else {
        12 + c.rng.below(40)
    }
}

macro_rules! region_suites {
    ($m:ident, $G:ty, $ask:ident, $codes:expr) => {
        #[allow(dead_code)]
        mod $m {
            use super::*;
            type G = $G;
            pub fn region(c: &mut Case) {
                let w: World<G> = world(c);
                let (k, n) = (rounds(c), n_queries(c));
                let qs = queries(c, &w.nodes, &w.ports, $codes, n);
                let mk = || Region::new(&w.g, &w.h, w.root);
                race(c, (0..k).map(|_| mk()).collect(), |q| $ask(&mk(), q), |v, q| $ask(v, q), &qs)
            }
            /// Two equal views, queried and compared with each other in both orders.
            pub fn pair(c: &mut Case) {
                let w: World<G> = world(c);
                let (k, n) = (rounds(c), n_queries(c));
                let mut qs = queries(c, &w.nodes, &w.ports, $codes, n);
                for q in qs.iter_mut() {
                    if c.rng.chance(1, 3) {
                        q.code = 27
                    }
                }
                let mk = || (Region::new(&w.g, &w.h, w.root), Region::new(&w.g, &w.h, w.root));
                let ask = |v: &(Region<&G>, Region<&G>), q: &Q| match (q.code, q.off % 2) {
                    (27, 0) => h(v.0 == v.1),
                    (27, _) => h(v.1 == v.0),
                    (_, 0) => $ask(&v.0, q),
                    _ => $ask(&v.1, q),
                };
                race(c, (0..k).map(|_| mk()).collect(), |q| ask(&mk(), q), |v, q| ask(v, q), &qs)
            }
            pub fn nested(c: &mut Case) {
                let w: World<G> = world(c);
                let (k, n) = (rounds(c), n_queries(c));
                let qs = queries(c, &w.nodes, &w.ports, $codes, n);
                let below: Vec<usize> = w.f.descendants(w.root.index());
                let sub = ni(*c.rng.pick(&below));
                // both levels are shared: by the threads that ask the outer one, and several outer ones share an inner one
                let inner: Vec<_> = (0..k.div_ceil(2)).map(|_| Region::new(&w.g, &w.h, w.root)).collect();
                let outer: Vec<_> = (0..k).map(|i| Region::new(&inner[i / 2], &w.h, sub)).collect();
                let alone = |q: &Q| {
                    let i = Region::new(&w.g, &w.h, w.root);
                    $ask(&Region::new(&i, &w.h, sub), q)
                };
                race(c, outer, alone, |v, q| $ask(v, q), &qs)
            }
            pub fn mixed(c: &mut Case) {
                let w: World<G> = world(c);
                let (k, n) = (rounds(c), n_queries(c));
                let qs = queries(c, &w.nodes, &w.ports, $codes, n);
                let keep = Keep::random(&mut c.rng, &w.m);
                let filt = || lazy(&w.g, keep.clone());
                match c.rng.below(4) {
                    0 => {
                        let with = c.rng.bool();
                        let mk = || if with { FlatRegion::new_with_root(&w.g, &w.h, w.root) } else { FlatRegion::new_without_root(&w.g, &w.h, w.root) };
                        race(c, (0..k).map(|_| mk()).collect(), |q| $ask(&mk(), q), |v, q| $ask(v, q), &qs)
                    }
                    1 => {
                        let mk = || filt();
                        race(c, (0..k).map(|_| mk()).collect(), |q| $ask(&mk(), q), |v, q| $ask(v, q), &qs)
                    }
                    2 => {
                        let mk = || Region::new(filt(), &w.h, w.root);
                        race(c, (0..k).map(|_| mk()).collect(), |q| $ask(&mk(), q), |v, q| $ask(v, q), &qs)
                    }
                    _ => {
                        let mk = || lazy(Region::new(&w.g, &w.h, w.root), keep.clone());
                        race(c, (0..k).map(|_| mk()).collect(), |q| $ask(&mk(), q), |v, q| $ask(v, q), &qs)
                    }
                }
            }
            pub fn subgraph(c: &mut Case) {
                let w: World<G> = world(c);
                let (k, n) = (rounds(c), n_queries(c));
                let set: BTreeSet<NodeIndex> = w.nodes.iter().copied().filter(|_| c.rng.chance(2, 3)).collect();
                let nodes: Vec<_> = set.iter().copied().collect();
                let ports: Vec<_> = nodes.iter().flat_map(|n| w.m.nodes[n].iter().flatten().copied()).collect();
                let qs = queries(c, &nodes, &ports, $codes, n);
                if nodes.is_empty() {
                    return;
                }
                let mk = || Subgraph::with_nodes(&w.g, set.iter().copied());
                race(
                    c,
                    (0..k).map(|_| mk()).collect(),
                    |q| sub(&mk(), q, |v, q| $ask(v, q)),
                    |v, q| sub(v, q, |v, q| $ask(v, q)),
                    &qs,
                )
            }
            pub fn base(c: &mut Case) {
                let w: World<G> = world(c);
                let (k, n) = (rounds(c), n_queries(c));
                let qs = queries(c, &w.nodes, &w.ports, $codes, n);
                race(c, (0..k).map(|_| w.g.clone()).collect(), |q| $ask(&w.g.clone(), q), |v, q| $ask(v, q), &qs)
            }
            /// Regions of different roots over one graph and one hierarchy, all asked by all threads.
            pub fn many(c: &mut Case) {
                let w: World<G> = world(c);
                let (k, n) = (rounds(c), n_queries(c));
                let qs = queries(c, &w.nodes, &w.ports, $codes, n);
                let roots: Vec<_> = (0..3).map(|_| *c.rng.pick(&w.nodes)).collect();
                let mk = || roots.iter().map(|r| Region::new(&w.g, &w.h, *r)).collect::<Vec<_>>();
                race(c, (0..k).map(|_| mk()).collect(), |q| $ask(&mk()[q.off % 3], q), |v, q| $ask(&v[q.off % 3], q), &qs)
            }
        }
    };
}

region_suites!(p32, Plain<u32>, ask_view, VIEW_CODES);
region_suites!(p8, Plain<u8>, ask_view, VIEW_CODES);
region_suites!(m16, Multi<u16>, ask_multi, VIEW_CODES + 4);

fn sub<G: Clone + LinkView>(v: &Subgraph<G>, q: &Q, ask: impl Fn(&Subgraph<G>, &Q) -> u64) -> u64 {
    match q.code {
        2 => h(v.is_convex()),
        3 => {
            let b = v.port_boundary();
            h(&*b)
        }
        _ => ask(v, q),
    }
}

type Lazy<G> = FilteredGraph<G, NodeFilter<Keep>, LinkFilter<Keep>, Keep>;
/// A filtered graph whose filters dawdle.
fn lazy<G: Clone>(g: G, k: Keep) -> Lazy<G> {
    fn node(n: NodeIndex, k: &Keep) -> bool {
        nap();
        Keep::node(n, k)
    }
    fn link(p: PortIndex, k: &Keep) -> bool {
        nap();
        Keep::link(p, k)
    }
    FilteredGraph::new(g, node as NodeFilter<Keep>, link as LinkFilter<Keep>, k)
}

fn hierarchy(c: &mut Case) {
    let w: World<Plain<u32>> = world(c);
    let (k, n) = (rounds(c), n_queries(c));
    let qs = queries(c, &w.nodes, &w.ports, VIEW_CODES, n);
    let l = lca(&w.g, &w.h);
    let mk = || (w.h.clone(), l.clone());
    let ask = |(hi, l): &(Hierarchy, algorithms::LCA), q: &Q| {
        let (a, b) = (q.a, q.b);
        match (q.code as usize + q.off) % 12 {
            0 => h((hi.parent(a), hi.is_root(a))),
            1 => h((hi.first(a), hi.last(a), hi.next(a), hi.prev(a))),
            2 => h((hi.child_count(a), hi.has_children(a))),
            3 => h(hi.children(a).collect::<Vec<_>>()),
            4 => h(hi.children(a).rev().collect::<Vec<_>>()),
            5 => h(hi.descendants(a).collect::<Vec<_>>()),
            6 => h((hi == &hi.clone(), hi.clone().parent(b))),
            7 => h(l.lca(a, b)),
            8 => h((l.is_ancestor(a, b), l.root(a))),
            9 => {
                let l2 = lca(&w.g, hi);
                h((l2.lca(a, b), l2.root(b)))
            }
            10 => {
                let r = Region::new(&w.g, hi, a);
                h((r.contains_node(b), r.node_count()))
            }
            _ => h(serde_json::to_string(hi).unwrap()),
        }
    };
    race(c, (0..k).map(|_| mk()).collect(), |q| ask(&mk(), q), ask, &qs)
}

type Maps = (UnmanagedDenseMap<NodeIndex, u64>, bitvec::vec::BitVec, Weights<u32, String>, DominatorTree, Boundary, HashSet<PortIndex>);
fn maps(c: &mut Case) {
    let w: World<Plain<u16>> = world(c);
    let (k, n) = (rounds(c), n_queries(c));
    let qs = queries(c, &w.nodes, &w.ports, VIEW_CODES, n);
    let (mut d, mut b, mut ws, mut hm) = (UnmanagedDenseMap::with_default(7), bitvec::vec::BitVec::new(), Weights::new(), HashSet::new());
    for n in &w.nodes {
        if c.rng.bool() {
            d.set(*n, c.rng.u64());
            SecondaryMap::<NodeIndex, bool>::set(&mut b, *n, true);
            ws[*n] = c.rng.below(90) as u32;
        }
    }
    for p in &w.ports {
        if c.rng.bool() {
            ws[*p] = format!("{p:?}");
            SecondaryMap::<PortIndex, bool>::set(&mut hm, *p, true);
        }
    }
    let entry = *c.rng.pick(&w.nodes);
    let s = Subgraph::with_nodes(&w.g, w.nodes.iter().copied().take(5));
    let bd = s.port_boundary().into_owned();
    let mk = || -> Maps { (d.clone(), b.clone(), ws.clone(), dominators(&w.g, entry, Direction::Outgoing), bd.clone(), hm.clone()) };
    let ask = |s: &Maps, q: &Q| {
        let (d, b, ws, t, bd, hm) = s;
        match (q.code as usize + q.off) % 12 {
            0 => h((d.get(q.a), d[q.b], d.capacity() > 0)),
            1 => h((SecondaryMap::<NodeIndex, bool>::get(b, q.a), SecondaryMap::<NodeIndex, bool>::default_value(b))),
            2 => h((ws[q.a], &ws[q.p])),
            3 => h((t.root(), t.immediate_dominator(q.a))),
            4 => h((bd.num_ports(), bd.port_indices().collect::<Vec<_>>(), bd.is_compatible(&bd.clone()))),
            5 => {
                let o = bd.port_ordering(&w.g);
                h(bd.inputs().chain(bd.outputs()).map(|p| (bag(o.reachable_ports(p).iter()), bag(o.reaching_ports(p).iter()))).collect::<Vec<_>>())
            },
            6 => h((SecondaryMap::<PortIndex, bool>::get(hm, q.p), hm.contains(&q.p))),
            7 => bag(d.iter().map(|(k, v)| (k, *v)).filter(|x| x.1 != 7)),
            8 => h((d.clone().get(q.a), ws.clone()[q.a])),
            9 => h((bd, bd == &bd.clone())),
            10 => {
                let t: DominatorTree = dominators(&w.g, q.a, q.dir);
                bag(postorder(&w.g, [q.a], q.dir).map(|n| (n, t.immediate_dominator(n))))
            }
            _ => {
                let ck = TopoConvexChecker::new(&w.g);
                h((ck.is_node_convex([q.a, q.b]), ck.is_convex([q.a, q.b], [], [])))
            }
        }
    };
    race(c, (0..k).map(|_| mk()).collect(), |q| ask(&mk(), q), ask, &qs)
}
/// Convexity checkers that can be shared.
fn checker(c: &mut Case) {
    let w: World<Plain<u32>> = world(c);
    let (k, n) = (rounds(c), n_queries(c));
    let qs = queries(c, &w.nodes, &w.ports, VIEW_CODES, n);
    let mk = || TopoConvexChecker::new(&w.g);
    let ask = |v: &TopoConvexChecker<&Plain<u32>>, q: &Q| {
        let set: Vec<_> = w.f.descendants(q.a.index()).into_iter().chain([q.b.index()]).map(ni).filter(|n| w.m.nodes.contains_key(n)).collect::<BTreeSet<_>>().into_iter().collect();
        h((v.is_node_convex(set.clone()), v.is_convex(set, [], [])))
    };
    race(c, (0..k).map(|_| mk()).collect(), |q| ask(&mk(), q), ask, &qs)
}

// ---------------------------------------------------------------- markers

struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
trait No {
    const SYNC: bool = false;
    const SEND: bool = false;
}
impl<T: ?Sized> No for T {}
struct SyncProbe<T: ?Sized>(std::marker::PhantomData<T>);
#[allow(dead_code)]
impl<T: ?Sized + Sync> SyncProbe<T> {
    const SYNC: bool = true;
}
#[allow(dead_code)]
impl<T: ?Sized + Send> Probe<T> {
    const SEND: bool = true;
}

fn markers(c: &mut Case) {
    let mut n = 0;
    macro_rules! both {
        ($($t:ty),* $(,)?) => { $(
            n += 1;
            ensure!(<SyncProbe<$t>>::SYNC, "not-sync", "{} cannot be shared between threads", stringify!($t));
            ensure!(<Probe<$t>>::SEND, "not-send", "{} cannot be given to another thread", stringify!($t));
        )* };
    }
    type P = PortGraph<u32, u32, u16>;
    type M = MultiPortGraph<u32, u32, u16>;
    type F = Lazy<&'static P>;
    both!(
        P, M, &'static P, &'static M, Hierarchy, Weights<u32, String>, NodeIndex, PortIndex, PortOffset<u16>,
        Region<'static, &'static P>, Region<'static, &'static M>, Region<'static, P>, Region<'static, Region<'static, &'static P>>,
        FlatRegion<'static, &'static P>, FlatRegion<'static, &'static M>, F, Region<'static, F>,
        Subgraph<&'static P>, Subgraph<&'static M>, Subgraph<Region<'static, &'static P>>, Boundary,
        UnmanagedDenseMap<NodeIndex, u32>, DominatorTree, algorithms::LCA, TopoConvexChecker<&'static P>, LinkError<u16>, SubportIndex,
    );
    ensure!(!<SyncProbe<Cell<u8>>>::SYNC && !<Probe<std::rc::Rc<u8>>>::SEND, "probe", "the probe of the markers does not work");
    c.count("types_probed", n);
    c.feed(n);
}
use ::portgraph::multiportgraph::SubportIndex;

pub static CHECK: Check = Check {
    prop: "C24",
    rule: "two to seven threads released at once on structures nobody has queried before, mixing all queries with clones and comparisons; every answer compared with that of a fresh structure queried alone, and again after the threads are done; non-trivial if the queries have more than two different answers and the threads were seen to interleave",
    assumptions: &["the operating system's and the interpreter's schedules, with injected delays; not all interleavings"],
    suites: &[
        Suite { name: "markers", quick: 1, thorough: 1, max_size: 10, f: markers },
        Suite { name: "region", quick: 1500, thorough: 120000, max_size: 40, f: p32::region },
        Suite { name: "region8", quick: 300, thorough: 40000, max_size: 40, f: p8::region },
        Suite { name: "region-multi", quick: 900, thorough: 60000, max_size: 40, f: m16::region },
        Suite { name: "pair", quick: 500, thorough: 40000, max_size: 40, f: p32::pair },
        Suite { name: "pair-multi", quick: 300, thorough: 20000, max_size: 40, f: m16::pair },
        Suite { name: "nested", quick: 600, thorough: 60000, max_size: 40, f: p32::nested },
        Suite { name: "nested-multi", quick: 400, thorough: 30000, max_size: 40, f: m16::nested },
        Suite { name: "many", quick: 400, thorough: 40000, max_size: 40, f: p32::many },
        Suite { name: "many-multi", quick: 200, thorough: 20000, max_size: 40, f: m16::many },
        Suite { name: "mixed", quick: 600, thorough: 60000, max_size: 40, f: p32::mixed },
        Suite { name: "mixed-multi", quick: 400, thorough: 30000, max_size: 40, f: m16::mixed },
        Suite { name: "subgraph", quick: 300, thorough: 30000, max_size: 40, f: p32::subgraph },
        Suite { name: "subgraph-multi", quick: 200, thorough: 20000, max_size: 40, f: m16::subgraph },
        Suite { name: "graph", quick: 300, thorough: 30000, max_size: 40, f: p32::base },
        Suite { name: "graph8", quick: 100, thorough: 10000, max_size: 40, f: p8::base },
        Suite { name: "multigraph", quick: 300, thorough: 30000, max_size: 40, f: m16::base },
        Suite { name: "hierarchy", quick: 600, thorough: 60000, max_size: 40, f: hierarchy },
        Suite { name: "maps", quick: 600, thorough: 60000, max_size: 40, f: maps },
        Suite { name: "checker", quick: 200, thorough: 20000, max_size: 40, f: checker },
    ],
};
fn main() {
    main_(&CHECK)
}
