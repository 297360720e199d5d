//! C23: no undefined behaviour. Runs the workloads of all other checks and hostile ones of its
//! own; what is observed are crashes, sanitizer reports and the interpreter's reports (see
//! tools/san.py), not the oracles of the workloads.

use ::portgraph::algorithms::*;
use ::portgraph::index::*;
use ::portgraph::render::{DotFormat, MermaidFormat};
use ::portgraph::view::{FlatRegion, LinkView, MultiView, PortView, Region, Subgraph};
use ::portgraph::*;
use std::collections::HashSet;
use std::sync::atomic::Ordering;
use vpharness::forest::Forest;
use vpharness::gen::*;
use vpharness::graphchecks::{Multi, Plain};
use vpharness::hist::Gut;
use vpharness::model::*;
use vpharness::run::*;
use vpharness::{ensure, ensure_eq};

macro_rules! others {
    ($(#[$a:meta] $($m:ident $f:literal)*;)*) => {
        $($(#[$a] #[path = $f] #[allow(dead_code)] mod $m;)*)*
        fn all() -> Vec<&'static Check> {
            let mut v: Vec<&'static Check> = vec![];
            $($(#[$a] v.push(&$m::CHECK);)*)*
            v
        }
    };
}
// Those with very many instances of generic views take minutes to compile with instrumentation and
// are left to the interpreter.
others! {
    #[cfg(all())] c01 "c01.rs" c02 "c02.rs" c03 "c03.rs" c04 "c04.rs" c05 "c05.rs" c06 "c06.rs" c07 "c07.rs" c08 "c08.rs" c09 "c09.rs"
        c10 "c10.rs" c11 "c11.rs" c18 "c18.rs" c20 "c20.rs";
    #[cfg(any(miri, not(vp_san)))] c12 "c12.rs" c13 "c13.rs" c14 "c14.rs" c15 "c15.rs" c16 "c16.rs" c17 "c17.rs"
        c19 "c19.rs" c21 "c21.rs" c22 "c22.rs" c25 "c25.rs";
}

/// A key whose equality is finer than the slot it names.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Key(usize, u8);
impl From<Key> for usize {
    fn from(k: Key) -> usize {
        k.0
    }
}
thread_local! {
    static WOBBLE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// A key that names another slot each time it is asked.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Shifty(usize);
impl From<Shifty> for usize {
    fn from(k: Shifty) -> usize {
        WOBBLE.with(|w| {
            w.set(w.get() + 1);
            (k.0 + w.get() / 2) % 7
        })
    }
}

/// Writes through all borrows and checks that they name different places.
fn all_apart<const N: usize>(c: &mut Case, refs: Option<[&mut Box<u64>; N]>, must_be: Option<bool>) {
    if let Some(b) = must_be {
        ensure_eq!(refs.is_some(), b, "disjoint", "whether get_disjoint_mut succeeds");
    }
    if let Some(mut refs) = refs {
        let at: HashSet<*const Box<u64>> = refs.iter().map(|r| &**r as *const Box<u64>).collect();
        if at.len() != N {
            // two mutable references to one place: say so even where nothing crashes
            eprintln!("UNDEFINED BEHAVIOUR: get_disjoint_mut returned the same place twice");
            std::process::abort();
        }
        for (i, r) in refs.iter_mut().enumerate() {
            **r = Box::new(i as u64);
        }
        for (i, r) in refs.iter().enumerate() {
            ensure_eq!(***r, i as u64, "disjoint-value", "value written through a disjoint borrow");
        }
        c.count("disjoint_borrows", N as u64);
    }
}

fn disjoint(c: &mut Case) {
    let cap = c.rng.below(6);
    let mut a: UnmanagedDenseMap<Key, Box<u64>> = UnmanagedDenseMap::with_capacity(cap);
    let mut n: UnmanagedDenseMap<NodeIndex, Box<u64>> = UnmanagedDenseMap::with_default(Box::new(7));
    let mut s: UnmanagedDenseMap<Shifty, Box<u64>> = UnmanagedDenseMap::new();
    for _ in 0..2 + c.size / 2 {
        let mut k = || Key(c.rng.below(8), c.rng.below(2) as u8);
        let (x, y, z) = (k(), k(), k());
        let apart = x.0 != y.0 && y.0 != z.0 && x.0 != z.0;
        c.feed((x.0 * 64 + y.0 * 8 + z.0) as u64);
        c.log(|| format!("{x:?} {y:?} {z:?}"));
        if x != y && y != z && x != z && !apart {
            c.nontrivial();
        }
        all_apart(c, a.get_disjoint_mut([x, y, z]), None);
        all_apart(c, a.get_disjoint_mut([x, y]), None);
        all_apart(c, n.get_disjoint_mut([ni(x.0), ni(y.0), ni(z.0)]), Some(apart));
        all_apart(c, n.get_disjoint_mut([ni(x.0)]), Some(true));
        all_apart(c, n.get_disjoint_mut([]), None);
        all_apart(c, s.get_disjoint_mut([Shifty(x.0), Shifty(y.0), Shifty(z.0)]), None);
        // wider requests, where the coinciding keys may be far apart in the list
        let w: [usize; 5] = std::array::from_fn(|_| c.rng.below(9));
        let d: HashSet<usize> = w.iter().copied().collect();
        c.log(|| format!("{w:?}"));
        all_apart(c, n.get_disjoint_mut(w.map(ni)), Some(d.len() == 5));
        all_apart(c, a.get_disjoint_mut(w.map(|i| Key(i, (i % 2) as u8))), None);
        let mut far: [usize; 12] = std::array::from_fn(|i| i);
        if c.rng.bool() {
            let (i, j) = (c.rng.below(12), c.rng.below(12));
            far[i] = far[j];
        }
        let d: HashSet<usize> = far.iter().copied().collect();
        all_apart(c, n.get_disjoint_mut(far.map(ni)), Some(d.len() == 12));
        match c.rng.below(4) {
            0 => n.ensure_capacity(c.rng.below(10)),
            1 => n.shrink_to(c.rng.below(10)),
            2 => n.swap(ni(x.0), ni(y.0)),
            _ => n.rekey(ni(x.0), c.rng.bool().then(|| ni(y.0))),
        }
    }
}

/// Index types at their limits, and writes through the reinterpreting borrow.
fn bits<U: Unsigned + std::fmt::Debug>(c: &mut Case) {
    let max = PortOffset::<U>::max_offset();
    let pick = |c: &mut Case| match c.rng.below(5) {
        0 => c.rng.below(4),
        1 => max - c.rng.below(3).min(max),
        2 => max.saturating_add(c.rng.below(3)),
        3 => usize::MAX - c.rng.below(3),
        _ => c.rng.below(max.min(1 << 20) + 1),
    };
    for _ in 0..1 + c.size {
        let (x, y) = (pick(c), pick(c));
        c.feed(x as u64 ^ (y as u64) << 20);
        let _ = catch(|| NodeIndex::<U>::new(x));
        let _ = catch(|| PortIndex::<U>::new(x));
        let _ = catch(|| PortOffset::<U>::new_outgoing(x));
        if let (Ok(mut b), Ok(n)) = (BitField::<U>::try_from(x), NodeIndex::<U>::try_from(y)) {
            let r: &mut NodeIndex<U> = b.as_mut();
            *r = n;
            let r: &mut NodeIndex<U> = b.as_mut();
            let old = std::mem::replace(r, n);
            ensure_eq!(old, n, "as_mut-read", "node read through as_mut");
            c.nontrivial();
        }
        let mut m = MaybeNodeIndex::<U>::from(NodeIndex::<U>::try_from(x).ok());
        let _ = (m.take(), m.to_option(), m.is_none());
    }
}

struct Stop;
/// Panics out of a callback at a random point.
struct Bomb(usize);
impl Bomb {
    fn tick(&mut self) {
        if self.0 == 0 {
            std::panic::panic_any(Stop);
        }
        self.0 -= 1;
    }
}
fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

/// Callbacks that panic in the middle of an edit leave the graph usable in the sense that further
/// calls succeed or panic.
fn bombs<G: Gut>(c: &mut Case) {
    let s = shape(c, 10);
    let (mut g, m) = graph::<G>(&mut c.rng, s);
    c.log(|| m.describe());
    c.feed(m.fingerprint());
    let nodes: Vec<usize> = m.nodes.keys().map(|n| n.index()).collect();
    let f = Forest::random(&mut c.rng, &nodes);
    let mut h = f.build();
    let mut w: Weights<Box<u32>, Box<u32>> = Weights::new();
    for _ in 0..1 + c.size {
        let n = ni(c.rng.below(12));
        let p = PortIndex::new(c.rng.below(40));
        let (x, y) = (c.rng.below(6), c.rng.below(6));
        let mut b = Bomb(c.rng.below(6));
        let k = c.rng.below(14);
        c.log(|| format!("{k} {n:?} {p:?} {x} {y} bomb in {}", b.0));
        c.feed(k as u64 * 100 + b.0 as u64);
        let r = quiet(|| match k {
            0 | 1 => g.set_num_ports(n, x, y, |_, _| b.tick()),
            2 => g.compact_nodes(|_, _| b.tick()),
            3 => g.compact_ports(|_, _| b.tick()),
            4 => g.swap_nodes(n, ni(x)),
            5 => g.remove_node(n),
            6 => drop(g.add_node(x, y)),
            7 => drop(g.link_ports(p, PortIndex::new(x))),
            8 => drop(g.unlink_port(p)),
            9 => drop(g.clone()),
            10 => h.rekey(n, ni(y)),
            11 => w.nodes.rekey(n, (x > 2).then(|| ni(y))),
            12 => drop(h.push_child(n, ni(x))),
            _ => drop(w.ports.get_disjoint_mut([p, PortIndex::new(y)])),
        });
        c.count("panics", r.is_none() as u64);
        if r.is_none() {
            c.nontrivial();
        }
        // everything stays answerable without harm
        quiet(|| {
            for n in g.nodes_iter() {
                let _ = (g.all_ports(n).count(), g.all_links(n).take(100).count(), g.all_neighbours(n).take(100).count());
                let _ = (g.num_inputs(n), g.all_port_offsets(n).count(), g.node_port_capacity(n));
            }
            for p in g.ports_iter() {
                let _ = (g.port_node(p), g.port_offset(p), g.port_links(p).take(100).count());
            }
        });
    }
    quiet(|| drop(format!("{g:?} {h:?}")));
}

/// User closures that panic inside views and algorithms.
fn closures(c: &mut Case) {
    let s = shape(c, 10);
    let (g, m) = graph::<Plain<u16>>(&mut c.rng, s);
    c.feed(m.fingerprint());
    c.nontrivial_if(m.link_count() > 0);
    let nodes: Vec<_> = m.nodes.keys().copied().collect();
    let fuse = std::cell::Cell::new(c.rng.below(12));
    let tick = || {
        if fuse.get() == 0 {
            std::panic::panic_any(Stop);
        }
        fuse.set(fuse.get() - 1);
    };
    let n = *c.rng.pick(&nodes);
    let r = match c.rng.below(6) {
        0 => quiet(|| {
            let f = |_: NodeIndex| {
                tick();
                true
            };
            let it: TopoSort<'_, _, HashSet<PortIndex>> = toposort_filtered(&g, nodes.iter().copied(), Direction::Outgoing, f, |_, _| true);
            it.count()
        }),
        1 => quiet(|| {
            let t: DominatorTree = dominators_filtered(&g, n, Direction::Outgoing, |_| { tick(); true }, |_, _| { tick(); true });
            nodes.iter().filter(|n| t.immediate_dominator(**n).is_some()).count()
        }),
        2 => quiet(|| g.dot_format().with_node_style(|_| { tick(); Default::default() }).finish().len()),
        3 => quiet(|| g.mermaid_format().with_node_style(|_| { tick(); Default::default() }).finish().len()),
        4 => quiet(|| postorder_filtered(&g, nodes.iter().copied(), Direction::Outgoing, |_| { tick(); true }, |_, _| { tick(); true }).count()),
        _ => {
            let mut t = g.clone();
            quiet(|| t.set_num_ports(n, 5, 5, |_, _| tick()));
            quiet(|| t.compact_ports(|_, _| tick()));
            quiet(|| t.nodes_iter().map(|n| t.all_links(n).count()).sum::<usize>())
        }
    };
    c.count("panics", r.is_none() as u64);
}
/// Port counts around the limits of the tables.
fn limits<G: Gut>(c: &mut Case) {
    let mut g = G::default();
    let pick = |c: &mut Case| *c.rng.pick(&[0, 1, 2, 32766, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 131071]);
    for _ in 0..3 {
        let (x, y, z, w) = (pick(c), pick(c), pick(c), pick(c));
        c.log(|| format!("add {x} {y} resize {z} {w}"));
        c.feed((x ^ y << 18 ^ z << 36) as u64);
        let n = quiet(|| g.add_node(x, y));
        if let Some(n) = n {
            quiet(|| g.set_num_ports(n, z, w, |_, _| {}));
            quiet(|| g.all_port_offsets(n).count() + g.ports_iter().count());
            quiet(|| g.input(n, 0).and_then(|i| Some(g.link_ports(g.output(n, 0)?, i).is_ok())));
            quiet(|| g.set_num_ports(n, w, x, |_, _| {}));
            quiet(|| g.compact_ports(|_, _| {}));
            quiet(|| g.remove_node(n));
        }
        quiet(|| g.nodes_iter().count());
        c.nontrivial();
    }
}

/// Every query with indices the graph does not have.
fn absent<G: Gut>(c: &mut Case) {
    let s = shape(c, 8);
    let (mut g, m) = graph::<G>(&mut c.rng, s);
    c.feed(m.fingerprint());
    let any = |c: &mut Case| *c.rng.pick(&[0usize, 1, 3, 9, 30, 1000, 0x7FFF_FFFE, 0x7FFF_FFFD, 1 << 24]);
    for _ in 0..2 + c.size {
        let (n, k) = (ni(any(c)), ni(any(c)));
        let p = PortIndex::new(any(c));
        let d = *c.rng.pick(&DIRS);
        let o = any(c).min(G::max_offset());
        let dropped = [
            quiet(|| g.num_ports(n, d) + g.ports(n, d).count() + g.all_port_offsets(n).count() + g.node_port_capacity(n)),
            quiet(|| g.port_node(p).is_some() as usize + g.port_offset(p).is_some() as usize + g.port_direction(p).is_some() as usize),
            quiet(|| g.port_index(n, PortOffset::new(d, o)).is_some() as usize),
            quiet(|| g.port_links(p).count()),
            quiet(|| g.all_links(n).count() + g.neighbours(n, d).count()),
            quiet(|| g.get_connections(n, k).count()),
            quiet(|| g.unlink_port(p).is_some() as usize),
            quiet(|| g.link_ports(p, PortIndex::new(o)).is_ok() as usize),
            quiet(|| g.link_nodes(n, o, k, o).is_ok() as usize),
        ];
        quiet(|| g.remove_node(n));
        quiet(|| g.set_num_ports(n, 3, 3, |_, _| {}));
        if n.index() < 2000 && k.index() < 2000 {
            quiet(|| g.swap_nodes(n, k));
        }
        c.count("panics", dropped.iter().filter(|x| x.is_none()).count() as u64);
    }
    c.nontrivial();
}

fn twist(c: &mut Case, v: &mut serde_json::Value) {
    use serde_json::Value as V;
    match v {
        V::Number(n) => {
            if c.rng.chance(1, 6) {
                let k = *c.rng.pick(&[0i64, 1, 2, -1, 255, 65534, 65535, 65536, 0x7FFF_FFFF, 0xFFFF_FFFF, 0x8000_0000, 0x8000_0001, i64::MAX]);
                *v = if c.rng.bool() { k.into() } else { (n.as_i64().unwrap_or(0) + c.rng.below(5) as i64 - 2).into() };
            }
        }
        V::Array(a) => {
            if !a.is_empty() && c.rng.chance(1, 12) {
                let i = c.rng.below(a.len());
                if c.rng.bool() {
                    a.remove(i);
                } else {
                    let x = a[i].clone();
                    a.push(x);
                }
            }
            a.iter_mut().for_each(|x| twist(c, x));
        }
        // The bit vectors' own deserialiser (another library) is unsound on damaged data.
        V::Object(o) if o.contains_key("head") => {}
        V::Object(o) => o.iter_mut().for_each(|(_, x)| twist(c, x)),
        V::Null => {
            if c.rng.chance(1, 10) {
                *v = c.rng.below(5).into();
            }
        }
        _ => {}
    }
}

/// Data of unknown origin: whatever is accepted can be used without undefined behaviour.
fn twisted<G: Gut + serde::Serialize + serde::de::DeserializeOwned>(c: &mut Case) {
    let s = shape(c, 6);
    let (g, m) = graph::<G>(&mut c.rng, s);
    let nodes: Vec<usize> = m.nodes.keys().map(|n| n.index()).collect();
    let f = Forest::random(&mut c.rng, &nodes);
    let mut v = serde_json::to_value(&g).unwrap();
    twist(c, &mut v);
    c.log(|| v.to_string());
    c.feed(m.fingerprint());
    if let Some(Ok(mut g)) = quiet(|| serde_json::from_value::<G>(v)) {
        c.count("twisted_graphs_accepted", 1);
        c.nontrivial();
        for n in (0..10).map(ni) {
            quiet(|| g.all_ports(n).take(1000).count() + g.all_port_offsets(n).take(1000).count());
            quiet(|| g.all_links(n).take(1000).count());
            quiet(|| g.all_neighbours(n).take(1000).count());
            quiet(|| g.node_port_capacity(n) + g.num_outputs(n));
        }
        for p in (0..20).map(PortIndex::new) {
            quiet(|| (g.port_node(p), g.port_offset(p), g.port_direction(p)));
            quiet(|| g.port_links(p).take(100).count());
        }
        quiet(|| g.nodes_iter().take(1000).count() + g.ports_iter().take(1000).count());
        for _ in 0..4 {
            let (n, k) = (ni(c.rng.below(8)), c.rng.below(4));
            match c.rng.below(4) {
                0 => drop(quiet(|| g.add_node(k, 1))),
                1 => drop(quiet(|| g.remove_node(n))),
                2 => drop(quiet(|| g.set_num_ports(n, k, 2, |_, _| {}))),
                _ => drop(quiet(|| g.link_nodes(n, 0, ni(k), 0).is_ok())),
            }
        }
    }
    let mut v = serde_json::to_value(f.build()).unwrap();
    twist(c, &mut v);
    if let Some(Ok(h)) = quiet(|| serde_json::from_value::<Hierarchy>(v)) {
        for n in (0..10).map(ni) {
            quiet(|| (h.parent(n), h.children(n).take(100).count(), h.children(n).rev().take(100).count(), h.child_count(n)));
            quiet(|| h.descendants(n).take(100).count());
        }
    }
}

/// All kinds of views at once on one graph, used after edits elsewhere.
fn views(c: &mut Case) {
    let s = shape(c, 10);
    let (g, m) = graph::<Multi<u16>>(&mut c.rng, s);
    let nodes: Vec<usize> = m.nodes.keys().map(|n| n.index()).collect();
    let f = Forest::random(&mut c.rng, &nodes);
    let h = f.build();
    let root = ni(*c.rng.pick(&nodes));
    c.feed(m.fingerprint());
    c.nontrivial_if(m.link_count() > 0);
    let sum = |v: &dyn Fn(NodeIndex) -> usize| nodes.iter().map(|n| v(ni(*n))).sum::<usize>();
    let r = Region::new(&g, &h, root);
    let r2 = r.clone();
    let a = sum(&|n| r.all_links(n).count() + r.all_subports(n).count());
    drop(r);
    let b = sum(&|n| r2.all_links(n).count() + r2.all_subports(n).count());
    ensure_eq!(a, b, "region", "links of a region and its clone");
    let fl = FlatRegion::new_without_root(&g, std::borrow::Cow::Owned(h.clone()), root);
    sum(&|n| fl.all_links(n).count());
    let su = Subgraph::with_nodes(&fl, fl.nodes_iter().collect::<Vec<_>>());
    let it = su.nodes_iter().map(|n| su.all_links(n).count()).sum::<usize>();
    ensure!(it < 10_000, "sub", "many links");
    let l = lca(&g, &h);
    sum(&|n| l.lca(n, root).is_some() as usize);
}

fn main() {
    CRASH_ONLY.store(true, Ordering::Relaxed);
    // Too large for the interpreter (or not about memory): named in the evidence by their absence.
    let skip: Vec<String> = std::env::var("VP_SKIP").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let mut suites: Vec<Suite> = vec![
        Suite { name: "disjoint", quick: 40000, thorough: 1000000, max_size: 12, f: disjoint },
        Suite { name: "bits8", quick: 20000, thorough: 300000, max_size: 12, f: bits::<u8> },
        Suite { name: "bits16", quick: 20000, thorough: 300000, max_size: 12, f: bits::<u16> },
        Suite { name: "bits32", quick: 20000, thorough: 300000, max_size: 12, f: bits::<u32> },
        Suite { name: "bombs", quick: 40000, thorough: 1000000, max_size: 24, f: bombs::<Plain<u16>> },
        Suite { name: "bombs_multi", quick: 40000, thorough: 1000000, max_size: 24, f: bombs::<Multi<u16>> },
        Suite { name: "closures", quick: 20000, thorough: 300000, max_size: 12, f: closures },
        Suite { name: "limits", quick: 300, thorough: 3000, max_size: 4, f: limits::<Plain<u32>> },
        Suite { name: "limits16", quick: 200, thorough: 2000, max_size: 4, f: limits::<Plain<u16>> },
        Suite { name: "limits_multi", quick: 200, thorough: 2000, max_size: 4, f: limits::<Multi<u32>> },
        Suite { name: "absent", quick: 20000, thorough: 300000, max_size: 12, f: absent::<Plain<u16>> },
        Suite { name: "absent_multi", quick: 20000, thorough: 300000, max_size: 12, f: absent::<Multi<u16>> },
        Suite { name: "twisted", quick: 40000, thorough: 1000000, max_size: 12, f: twisted::<Plain<u16>> },
        Suite { name: "twisted_multi", quick: 40000, thorough: 1000000, max_size: 12, f: twisted::<Multi<u16>> },
        Suite { name: "views", quick: 20000, thorough: 300000, max_size: 12, f: views },
    ];
    for o in all() {
        for s in o.suites {
            let name: &'static str = Box::leak(format!("{}/{}", o.prop, s.name).into_boxed_str());
            suites.push(Suite { name, quick: s.quick / 12 + 1, thorough: s.thorough / 12 + 1, ..*s });
        }
    }
    suites.retain(|s| !skip.iter().any(|x| !x.is_empty() && s.name.contains(x.as_str())));
    main_(Box::leak(Box::new(Check {
        prop: "C23",
        rule: "the workloads of all other checks and hostile ones (panicking callbacks, extreme and absent arguments, port counts around the limits, damaged serialised data, keys with unusual equality), executed under AddressSanitizer with the standard library's precondition checks and under the Miri interpreter; any report of either, and any crash, is a violation; a case is non-trivial as its own workload defines it",
        assumptions: &["undefined behaviour is observed only where an execution triggers it and the sanitizer or interpreter detects it"],
        suites: Box::leak(suites.into_boxed_slice()),
    })));
}
