//! C20: serialised structures come back equal and behave identically.

use ::portgraph::index::Unsigned;
use ::portgraph::multiportgraph::SubportIndex;
use ::portgraph::*;
use bitvec::vec::BitVec;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use vpharness::forest::*;
use vpharness::graphchecks::{self as gc, Multi, Plain};
use vpharness::hist::*;
use vpharness::model::*;
use vpharness::run::*;
use vpharness::{ensure, ensure_eq};

const FORMATS: [&str; 6] = ["JSON", "JSON value", "MessagePack", "MessagePack with names", "CBOR", "JSON, pretty"];

/// Writes and reads back in one of the self-describing formats.
fn trip_in<T: Serialize + DeserializeOwned>(k: usize, x: &T) -> Result<T, String> {
    let e = |e: &dyn std::fmt::Display| e.to_string();
    Ok(match k {
        0 => serde_json::from_str(&serde_json::to_string(x).map_err(|x| e(&x))?).map_err(|x| e(&x))?,
        1 => serde_json::from_value(serde_json::to_value(x).map_err(|x| e(&x))?).map_err(|x| e(&x))?,
        2 => rmp_serde::from_slice(&rmp_serde::to_vec(x).map_err(|x| e(&x))?).map_err(|x| e(&x))?,
        3 => rmp_serde::from_slice(&rmp_serde::to_vec_named(x).map_err(|x| e(&x))?).map_err(|x| e(&x))?,
        4 => {
            let mut v = vec![];
            ciborium::into_writer(x, &mut v).map_err(|x| e(&x))?;
            ciborium::from_reader(&v[..]).map_err(|x| e(&x))?
        }
        _ => serde_json::from_slice(&serde_json::to_vec_pretty(x).map_err(|x| e(&x))?).map_err(|x| e(&x))?,
    })
}
fn trip<T: Serialize + DeserializeOwned>(c: &mut Case, what: &str, x: &T) -> T {
    let k = c.rng.below(FORMATS.len());
    trip_k(c, k, what, x)
}
fn trip_k<T: Serialize + DeserializeOwned>(c: &mut Case, k: usize, what: &str, x: &T) -> T {
    c.count(["json", "json_value", "msgpack", "msgpack_named", "cbor", "json_pretty"][k], 1);
    c.log(|| format!("-- {what} through {}", FORMATS[k]));
    match must(&format!("serialising {what}"), || trip_in(k, x)) {
        Ok(y) => y,
        Err(e) => vio(format!("{what}:refused"), format!("{what} does not come back through {}: {e}", FORMATS[k])),
    }
}

fn twin<G: Gut>(h: &Hist<G>, g: G) -> Hist<G> {
    Hist {
        g,
        m: h.m.clone(),
        freed: h.freed.clone(),
        node_tag: h.node_tag.clone(),
        port_tag: h.port_tag.clone(),
        m_node_tag: h.m_node_tag.clone(),
        m_port_tag: h.m_port_tag.clone(),
        next_tag: h.next_tag,
        typical_ports: h.typical_ports,
        max_nodes: h.max_nodes,
    }
}

fn graphs<G: Gut + Serialize + DeserializeOwned>(c: &mut Case) {
    let mixes = [EVEN, gc::RESIZE, gc::COMPACT, gc::CHURN, gc::LINKS];
    let mut h: Hist<G> = Hist::new(c);
    let w = *c.rng.pick(&mixes);
    let n = c.rng.below(4 + c.size);
    for _ in 0..n {
        h.step(c, &w);
    }
    let rounds = 1 + c.rng.below(2);
    for _ in 0..rounds {
        let back = trip(c, G::NAME, &h.g);
        ensure!(back == h.g && h.g == back, "graph:eq", "the {} read back is not equal to the one written:\n{:?}\n{:?}", G::NAME, h.g, back);
        // (the debug form of a bit vector contains its address)
        if !G::MULTI {
            ensure_eq!(format!("{back:?}"), format!("{:?}", h.g), "graph:debug", "debug form of what was read back");
        }
        let mut b = twin(&h, back);
        b.full_check(c);
        // the same edits on both
        let w = *c.rng.pick(&mixes);
        let k = 1 + c.rng.below(10);
        let start = c.rng.clone();
        for _ in 0..k {
            h.step(c, &w);
        }
        let end = c.rng.clone();
        c.rng = start;
        c.log(|| "-- the same on what was read back".into());
        for _ in 0..k {
            b.step(c, &w);
        }
        ensure_eq!(b.m, h.m, "graph:later", "state after the same further edits");
        ensure_eq!(b.freed, h.freed, "graph:later", "free indices after the same further edits");
        ensure!(b.g == h.g, "graph:later-eq", "not equal after the same further edits:\n{:?}\n{:?}", h.g, b.g);
        c.rng = end;
        b.full_check(c);
        // which indices come next, until nothing is left to reuse
        let mut x = (h.g.clone(), b.g.clone());
        for j in 0..(h.freed.len() + 2).min(20) {
            let (i, o) = (c.rng.below(1 + j % 5), c.rng.below(3));
            let f = |g: &mut G| {
                let n = g.add_node(i, o);
                (n, g.all_ports(n).collect::<Vec<_>>())
            };
            let (r, s) = (must("add_node", || f(&mut x.0)), must("add_node", || f(&mut x.1)));
            ensure_eq!(s, r, "graph:next-index", "indices of the next new node");
        }
        c.count("later_edits", k as u64);
        if c.rng.bool() {
            h = b;
        }
    }
    c.feed(h.m.fingerprint());
    c.nontrivial_if(h.m.link_count() > 0 && h.m.nodes.len() > 1);
}

/// Large indices: encodings change length at powers of two.
fn big<G: Gut + Serialize + DeserializeOwned>(c: &mut Case) {
    let total = if c.rng.chance(1, 40) { 66000 } else { *c.rng.pick(&[100usize, 140, 270, 300]) };
    let mut g = G::default();
    let mut nodes = vec![];
    if G::MULTI && c.rng.bool() {
        // many links between the same two ports
        let (a, b) = (g.add_node(1, 1), g.add_node(1, 1));
        for _ in 0..*c.rng.pick(&[60usize, 126, 130, 260, 520]) {
            let _ = if c.rng.chance(1, 9) { g.link_nodes(b, 0, a, 0) } else { g.link_nodes(a, 0, b, 0) };
        }
    }
    for _ in 0..total {
        nodes.push(g.add_node(c.rng.below(3), c.rng.below(3)));
    }
    let big = c.rng.chance(1, 4);
    if big && G::max_offset() > 30000 {
        nodes.push(g.add_node(16000, 17000));
        nodes.push(g.add_node(0, 32760));
        nodes.push(g.add_node(1, 1));
    }
    for _ in 0..total {
        let (a, b) = (*c.rng.pick(&nodes), *c.rng.pick(&nodes));
        let (o, i) = (g.num_outputs(a), g.num_inputs(b));
        if o > 0 && i > 0 {
            let (o, i) = if c.rng.bool() { (o - 1, i - 1) } else { (c.rng.below(o), c.rng.below(i)) };
            let _ = g.link_nodes(a, o, b, i);
        }
    }
    for _ in 0..c.rng.below(total / 2) {
        let n = *c.rng.pick(&nodes);
        g.remove_node(n);
    }
    let m = read_model(&g);
    c.log(|| format!("{} nodes, {} ports, {} links", m.nodes.len(), m.ports.len(), m.link_count()));
    let back = trip(c, G::NAME, &g);
    ensure!(back == g, "big:eq", "a large {} is not equal after reading back", G::NAME);
    ensure_eq!(read_model(&back), m, "big:queries", "queries of what was read back");
    let counts = |g: &G| (g.node_count(), g.port_count(), g.link_count(), g.is_empty());
    ensure_eq!(counts(&back), counts(&g), "big:counts", "numbers of nodes, ports and links of what was read back");
    ensure_eq!(g.port_count(), m.ports.len(), "big:counts", "number of ports");
    let (mut a, mut b) = (g, back);
    for _ in 0..total {
        let (i, o) = (c.rng.below(3), c.rng.below(3));
        let (x, y) = (a.add_node(i, o), b.add_node(i, o));
        ensure_eq!(y, x, "big:next-index", "index of the next new node");
        ensure_eq!(b.all_ports(y).collect::<Vec<_>>(), a.all_ports(x).collect::<Vec<_>>(), "big:next-port", "ports of the next new node");
    }
    ensure!(a == b, "big:later-eq", "not equal after the same further edits");
    c.feed(m.fingerprint());
    c.max("max_largest_port", m.ports.keys().last().map_or(0, |p| p.index() as u64));
    c.nontrivial();
}

fn hierarchy(c: &mut Case) {
    let upto = if c.rng.chance(1, 100) { 130 + c.rng.below(200) } else { 2 + c.rng.below(2 + c.size) };
    let wide = c.rng.chance(1, 20);
    let at = if wide { *c.rng.pick(&[120usize, 250, 65530]) } else { 0 };
    let nodes: Vec<usize> = (at..at + upto).collect();
    let mut f = Forest::random(&mut c.rng, &nodes);
    let mut h = f.build();
    for _ in 0..c.rng.below(5) {
        let n = *c.rng.pick(&nodes);
        match c.rng.below(3) {
            0 => {
                h.detach(ni(n));
                f.detach(n);
            }
            1 => {
                h.detach_children(ni(n));
                f.detach_children(n);
            }
            _ => {
                h.remove(ni(n));
                f.detach(n);
                f.detach_children(n);
            }
        }
    }
    c.log(|| format!("{f:?}"));
    let mut b = trip(c, "Hierarchy", &h);
    ensure!(b == h, "hierarchy:eq", "the hierarchy read back is not equal:\n{h:?}\n{b:?}");
    if !wide {
        check_forest(&b, &f, upto + 3, &mut c.rng);
    }
    for _ in 0..1 + c.rng.below(12) {
        let (x, y) = (ni(*c.rng.pick(&nodes)), ni(*c.rng.pick(&nodes)));
        let k = c.rng.below(8);
        let op = |h: &mut Hierarchy| -> String {
            match k {
                0 => format!("{:?}", h.push_child(x, y)),
                1 => format!("{:?}", h.push_front_child(x, y)),
                2 => format!("{:?}", h.insert_before(x, y)),
                3 => format!("{:?}", h.insert_after(x, y)),
                4 => format!("{:?}", h.detach(x)),
                5 => format!("{:?}", h.detach_children(x)),
                6 => format!("{:?}", h.swap_nodes(x, y)),
                _ => format!("{:?}", h.remove(x)),
            }
        };
        let (r, s) = (catch(|| op(&mut h)), catch(|| op(&mut b)));
        c.log(|| format!("operation {k} on {x:?}, {y:?}: {r:?}"));
        ensure_eq!(s, r, "hierarchy:later", "result of the same further operation on {x:?}, {y:?}");
        ensure!(b == h, "hierarchy:later-eq", "not equal after the same further edits:\n{h:?}\n{b:?}");
    }
    for n in &nodes {
        let q = |h: &Hierarchy| (h.parent(ni(*n)), h.children(ni(*n)).collect::<Vec<_>>(), h.child_count(ni(*n)), h.next(ni(*n)), h.prev(ni(*n)));
        ensure_eq!(q(&b), q(&h), "hierarchy:later-query", "queries about {n} after further edits");
    }
    let mut fp = 0;
    for (a, b) in &f.parent {
        fp = vpharness::rng::mix(fp ^ (*a as u64) << 20 ^ *b as u64);
    }
    c.feed(fp);
    c.nontrivial_if(!f.parent.is_empty());
}

trait Val: Clone + PartialEq + Debug + Default + Serialize + DeserializeOwned {
    fn v(i: usize) -> Self;
}
impl Val for u32 {
    fn v(i: usize) -> Self {
        i as u32
    }
}
impl Val for bool {
    fn v(i: usize) -> Self {
        i % 2 == 1
    }
}
impl Val for String {
    fn v(i: usize) -> Self {
        ["", "a", "\"", "\u{0}x", "é", "null"][i % 6].to_string()
    }
}
impl Val for Option<i64> {
    fn v(i: usize) -> Self {
        (i % 3 > 0).then(|| i as i64 - 500)
    }
}
impl Val for (u8, Vec<PortIndex>) {
    fn v(i: usize) -> Self {
        (i as u8, (0..i % 3).map(pi).collect())
    }
}

trait Key: Copy + Eq + Debug + Into<usize> + TryFrom<usize> + std::hash::Hash + Ord {
    fn k(i: usize) -> Self {
        Self::try_from(i).ok().unwrap()
    }
}
impl Key for usize {}
impl Key for NodeIndex {}
impl Key for PortIndex {}

/// One random operation of the common interface, deterministic in `r`.
fn edit<K: Key, V: Clone + PartialEq + Debug, M: SecondaryMap<K, V>>(m: &mut M, r: &mut vpharness::rng::Rng, u: usize, val: impl Fn(usize) -> V) -> String {
    let (i, j, x) = (K::k(r.below(u)), K::k(r.below(u)), val(r.below(1000)));
    match r.below(10) {
        0..=3 => format!("{:?}", m.set(i, x)),
        4 => format!("{:?}", m.take(i)),
        5 => format!("{:?}", m.remove(i)),
        6 => format!("{:?}", m.rekey(i, if r.bool() { Some(j) } else { None })),
        7 => format!("{:?}", m.swap(i, j)),
        8 => format!("{}", m.get(i) == m.get(j)),
        _ => format!("{:?}", m.ensure_capacity(r.below(u + 5))),
    }
}
fn content<K: Key, V: Clone + PartialEq + Debug, M: SecondaryMap<K, V>>(m: &M, u: usize) -> (Vec<V>, BTreeMap<K, V>) {
    // how many default values are stored explicitly depends on the spare capacity
    let d = m.default_value();
    ((0..u).map(|i| m.get(K::k(i)).clone()).collect(), m.iter().filter(|(_, v)| **v != d).map(|(k, v)| (k, v.clone())).collect())
}

fn secmap<K: Key, V: Clone + PartialEq + Debug, M: SecondaryMap<K, V> + Clone + Debug + Serialize + DeserializeOwned>(c: &mut Case, what: &str, mk: impl Fn(&mut Case) -> M, val: impl Fn(usize) -> V + Copy) {
    let u = *c.rng.pick(&[1usize, 3, 10, 70, 140, 300]);
    let mut a = mk(c);
    for _ in 0..c.rng.below(4 + c.size) {
        edit::<K, V, M>(&mut a, &mut c.rng, u, val);
    }
    c.log(|| format!("{what} {a:?}"));
    let mut b: M = trip(c, what, &a);
    ensure_eq!(content::<K, V, M>(&b, u + 70), content::<K, V, M>(&a, u + 70), format!("{what}:content"), "values of what was read back");
    for _ in 0..c.rng.below(12) {
        let mut r = c.rng.clone();
        let x = edit::<K, V, M>(&mut a, &mut c.rng, u, val);
        let y = edit::<K, V, M>(&mut b, &mut r, u, val);
        ensure_eq!(y, x, format!("{what}:later"), "result of the same further operation");
        ensure_eq!(content::<K, V, M>(&b, u + 70), content::<K, V, M>(&a, u + 70), format!("{what}:later-content"), "values after the same further edits");
    }
    let (k, _) = (content::<K, V, M>(&a, u), ());
    c.feed(vpharness::rng::mix(k.1.len() as u64 ^ (u as u64) << 32));
    c.nontrivial_if(!k.1.is_empty());
}

fn dense<K: Key + Serialize + DeserializeOwned, V: Val>(c: &mut Case) {
    secmap::<K, V, UnmanagedDenseMap<K, V>>(
        c,
        "UnmanagedDenseMap",
        |c| match c.rng.below(3) {
            0 => UnmanagedDenseMap::new(),
            1 => UnmanagedDenseMap::with_default(V::v(c.rng.below(20))),
            _ => UnmanagedDenseMap::with_capacity_and_default(c.rng.below(30), V::v(c.rng.below(20))),
        },
        V::v,
    );
}
fn maps(c: &mut Case) {
    match c.rng.below(10) {
        0 => dense::<NodeIndex, u32>(c),
        1 => dense::<PortIndex, String>(c),
        2 => dense::<usize, Option<i64>>(c),
        3 => dense::<NodeIndex, (u8, Vec<PortIndex>)>(c),
        4 => secmap::<NodeIndex, bool, BitVec>(c, "BitVec", |c| <BitVec as SecondaryMap<NodeIndex, bool>>::with_capacity(c.rng.below(100)), |i| i % 2 == 1),
        5 => secmap::<PortIndex, bool, HashSet<PortIndex>>(c, "HashSet", |_| SecondaryMap::new(), |i| i % 2 == 1),
        6 => dense::<PortIndex, bool>(c),
        _ => weights(c),
    }
}
fn weights(c: &mut Case) {
    let mut w: Weights<String, Option<i64>> = match c.rng.below(3) {
        0 => Weights::new(),
        1 => Weights::with_capacity(c.rng.below(10), c.rng.below(10)),
        _ => Weights::default(),
    };
    let u = *c.rng.pick(&[1usize, 4, 20, 140]);
    for _ in 0..c.rng.below(4 + c.size) {
        if c.rng.bool() {
            edit::<NodeIndex, String, _>(&mut w.nodes, &mut c.rng, u, String::v);
        } else {
            edit::<PortIndex, Option<i64>, _>(&mut w.ports, &mut c.rng, u, Val::v);
        }
    }
    c.log(|| format!("{w:?}"));
    let b = trip(c, "Weights", &w);
    for i in 0..u + 5 {
        ensure_eq!(b[ni(i)], w[ni(i)], "weights:node", "weight of node {i} after reading back");
        ensure_eq!(b[pi(i)], w[pi(i)], "weights:port", "weight of port {i} after reading back");
    }
    ensure_eq!(content::<NodeIndex, String, _>(&b.nodes, u), content::<NodeIndex, String, _>(&w.nodes, u), "weights:content", "node weights after reading back");
    ensure_eq!(content::<PortIndex, Option<i64>, _>(&b.ports, u), content::<PortIndex, Option<i64>, _>(&w.ports, u), "weights:content", "port weights after reading back");
    c.nontrivial();
}

fn value(c: &mut Case, bits: u32) -> usize {
    let max = if bits == 64 { u64::MAX as usize / 2 } else { (1usize << (bits - 1)) - 1 };
    let raw = c.rng.u64() as usize;
    match c.rng.below(5) {
        0 => c.rng.below(4).min(max),
        1 => max - c.rng.below(4),
        2 => {
            let k = c.rng.below(bits as usize);
            ((1usize << k) - 1 + c.rng.below(3)).min(max)
        }
        _ => raw & max,
    }
}
fn one<T: Serialize + DeserializeOwned + PartialEq + Debug>(c: &mut Case, what: &str, x: T) {
    c.log(|| format!("{what} {x:?}"));
    for k in 0..FORMATS.len() {
        let y = trip_k(c, k, what, &x);
        ensure_eq!(y, x, format!("{what}:eq"), "{what} through {}", FORMATS[k]);
    }
    // as part of other values
    let v: Vec<Option<T>> = vec![Some(x), None];
    let y = trip(c, what, &v);
    ensure_eq!(y, v, format!("{what}:nested"), "{what} within a list");
}
fn width<U: Unsigned + Serialize + DeserializeOwned + Debug>(c: &mut Case) {
    let bits = (std::mem::size_of::<U>() * 8) as u32;
    // the all-ones pattern stands for "none"
    let v = value(c, bits).min(NodeIndex::<U>::max_index());
    c.feed(v as u64 ^ (bits as u64) << 56);
    one(c, "NodeIndex", NodeIndex::<U>::new(v));
    one(c, "PortIndex", PortIndex::<U>::new(v));
    let (a, b) = (if c.rng.chance(1, 4) { None } else { Some(NodeIndex::<U>::new(v)) }, if c.rng.chance(1, 4) { None } else { Some(PortIndex::<U>::new(v)) });
    for k in 0..FORMATS.len() {
        let y = trip_k(c, k, "MaybeNodeIndex", &::portgraph::index::MaybeNodeIndex::from(a));
        ensure_eq!(y.to_option(), a, "MaybeNodeIndex:eq", "MaybeNodeIndex through {}", FORMATS[k]);
        let y = trip_k(c, k, "MaybePortIndex", &::portgraph::index::MaybePortIndex::from(b));
        ensure_eq!(y.to_option(), b, "MaybePortIndex:eq", "MaybePortIndex through {}", FORMATS[k]);
    }
    let dir = *c.rng.pick(&[Direction::Incoming, Direction::Outgoing]);
    let o = v.min(PortOffset::<U>::max_offset());
    let x = PortOffset::<U>::new(dir, o);
    one(c, "PortOffset", x);
    let y = trip(c, "PortOffset", &x);
    ensure_eq!((y.direction(), y.index()), (dir, o), "PortOffset:parts", "parts of a PortOffset read back");
    one(c, "Direction", dir);
    c.nontrivial();
}
fn indices(c: &mut Case) {
    match c.rng.below(5) {
        0 => width::<u8>(c),
        1 => width::<u16>(c),
        2 => width::<u64>(c),
        3 => width::<usize>(c),
        _ => {
            width::<u32>(c);
            let p = pi(value(c, 32).min(PortIndex::<u32>::max_index()));
            one(c, "SubportIndex", SubportIndex::new_unique(p));
            let x = SubportIndex::new_multi(p, value(c, 16));
            one(c, "SubportIndex", x);
            let y = trip(c, "SubportIndex", &x);
            ensure_eq!((y.port(), y.offset()), (x.port(), x.offset()), "SubportIndex:parts", "parts of a SubportIndex read back");
            // as keys
            let m: HashMap<NodeIndex, PortIndex> = (0..c.rng.below(9)).map(|i| (ni(i * i * 31), p)).collect();
            one(c, "HashMap", m);
            let s: BTreeSet<PortIndex> = (0..c.rng.below(9)).map(|i| pi(i * i * 31)).collect();
            one(c, "BTreeSet", s);
        }
    }
}

pub static CHECK: Check = Check {
    prop: "C20",
    rule: "graphs and multigraphs after random histories, hierarchies, weights, secondary maps and indices written and read back through JSON (text, value, pretty), MessagePack (with and without names) and CBOR; compared for equality and by every query, then the same random edits applied to both and compared again, including the indices handed out; non-trivial if there is content",
    assumptions: &["formats are self-describing, as the stored form of ports requires", "weights and keys serialise faithfully themselves"],
    suites: &[
        Suite { name: "plain-16", quick: 24000, thorough: 600000, max_size: 60, f: graphs::<Plain<u16>> },
        Suite { name: "plain-8", quick: 10000, thorough: 300000, max_size: 60, f: graphs::<Plain<u8>> },
        Suite { name: "plain-32", quick: 10000, thorough: 300000, max_size: 60, f: graphs::<Plain<u32>> },
        Suite { name: "multi-16", quick: 20000, thorough: 600000, max_size: 60, f: graphs::<Multi<u16>> },
        Suite { name: "multi-8", quick: 6000, thorough: 200000, max_size: 60, f: graphs::<Multi<u8>> },
        Suite { name: "multi-32", quick: 6000, thorough: 200000, max_size: 60, f: graphs::<Multi<u32>> },
        Suite { name: "big-plain", quick: 400, thorough: 8000, max_size: 10, f: big::<Plain<u16>> },
        Suite { name: "big-multi", quick: 400, thorough: 8000, max_size: 10, f: big::<Multi<u16>> },
        Suite { name: "hierarchy", quick: 60000, thorough: 2000000, max_size: 30, f: hierarchy },
        Suite { name: "maps", quick: 40000, thorough: 1000000, max_size: 60, f: maps },
        Suite { name: "indices", quick: 30000, thorough: 1000000, max_size: 10, f: indices },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
