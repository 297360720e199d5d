use ::portgraph::index::*;
use ::portgraph::multiportgraph::SubportIndex;
use ::portgraph::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use vpharness::run::*;
use vpharness::{ensure, ensure_eq};

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

fn ser<T: Serialize + DeserializeOwned + PartialEq + Debug>(x: &T, what: &str) {
    let j = serde_json::to_string(x).expect("json");
    let y: T = must(&format!("json:{what}"), || serde_json::from_str(&j)).unwrap_or_else(|e| vio(format!("json:{what}"), format!("{what} {x:?} -> {j} does not read back: {e}")));
    ensure_eq!(y, *x, format!("json:{what}"), "{what} through {j}");
    let b = rmp_serde::to_vec(x).expect("rmp");
    let y: T = must(&format!("rmp:{what}"), || rmp_serde::from_slice(&b)).unwrap_or_else(|e| vio(format!("rmp:{what}"), format!("{what} {x:?} does not read back: {e}")));
    ensure_eq!(y, *x, format!("rmp:{what}"), "{what} through MessagePack");
}

trait Width: Unsigned + Serialize + DeserializeOwned + Hash {
    const BITS: u32;
}
impl Width for u8 {
    const BITS: u32 = 8;
}
impl Width for u16 {
    const BITS: u32 = 16;
}
impl Width for u32 {
    const BITS: u32 = 32;
}
impl Width for u64 {
    const BITS: u32 = 64;
}
impl Width for usize {
    const BITS: u32 = usize::BITS;
}
/// 2^(n-1) - 2: the value with all bits set is taken by the absent index.
fn limit<U: Width>() -> usize {
    (1usize << (U::BITS - 1)) - 2
}

fn digits(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

macro_rules! index_case {
    ($fname:ident, $pair:ident, $idx:ident, $maybe:ident, $name:literal) => {
        fn $fname<U: Width>(c: &mut Case, v: usize, serde: bool) {
            let ok = v <= limit::<U>();
            let s = |x: &str| format!("{}{}:{x}", $name, U::BITS);
            c.count("values", 1);
            let made = catch(|| $idx::<U>::new(v));
            let tried = $idx::<U>::try_from(v);
            if !ok {
                ensure!(made.is_err(), s("new-too-large"), "new({v}) gave {made:?}, the maximum is {}", limit::<U>());
                ensure!(tried.is_err(), s("try_from-too-large"), "try_from({v}) gave {tried:?}, the maximum is {}", limit::<U>());
                if serde {
                    let r = catch(|| serde_json::from_str::<$idx<U>>(&v.to_string()));
                    ensure!(!matches!(r, Ok(Ok(_))), s("json-too-large"), "reading back {v} gave {r:?}");
                    let r = catch(|| serde_json::from_str::<$maybe<U>>(&v.to_string()));
                    ensure!(!matches!(r, Ok(Ok(_))), s("json-maybe-too-large"), "reading back {v} gave {r:?}");
                }
                c.count("refused", 1);
                return;
            }
            let x = match made {
                Ok(x) => x,
                Err(e) => vio(s("new"), format!("new({v}) panicked: {e}")),
            };
            ensure_eq!(x.index(), v, s("index"), "index() of new({v})");
            ensure_eq!(tried, Ok(x), s("try_from"), "try_from({v})");
            ensure_eq!(usize::from(x), v, s("usize"), "usize::from(new({v}))");
            ensure_eq!(digits(&format!("{x:?}")), vec![v], s("debug"), "Debug of new({v}): {x:?}");
            let y = x;
            ensure!(x == y && x.cmp(&y).is_eq() && h(&x) == h(&y), s("eq"), "new({v}) differs from its copy");
            // optional index
            let m: $maybe<U> = x.into();
            let m2 = $maybe::<U>::new(Some(x));
            let m3: $maybe<U> = Some(x).into();
            ensure!(m == m2 && m == m3, s("maybe-eq"), "optional indices built from {x:?} differ");
            ensure!(m.is_some() && !m.is_none(), s("maybe-some"), "optional {x:?} is absent");
            ensure_eq!(m.to_option(), Some(x), s("to_option"), "to_option of optional {x:?}");
            ensure_eq!(Option::<$idx<U>>::from(m), Some(x), s("into-option"), "Option from optional {x:?}");
            ensure_eq!(must("unwrap", || m.unwrap()), x, s("unwrap"), "unwrap of optional {x:?}");
            ensure_eq!(must("expect", || m.expect("x")), x, s("expect"), "expect of optional {x:?}");
            ensure_eq!(m.into_iter().collect::<Vec<_>>(), vec![x], s("into_iter"), "into_iter of optional {x:?}");
            let none = $maybe::<U>::default();
            ensure!(m != none, s("maybe-none"), "optional {x:?} equals the absent one");
            ensure!(format!("{m:?}") == format!("{:?}", Some(x)), s("maybe-debug"), "Debug of optional {x:?}: {m:?}");
            let mut t = m;
            let old = t.take();
            ensure!(old == m && t == none && t.is_none(), s("take"), "take of optional {x:?} gave {old:?}, left {t:?}");
            let old = t.replace(x);
            ensure!(old == none && t == m, s("replace"), "replace of an absent index by {x:?} gave {old:?}, left {t:?}");
            if let Some(r) = t.as_mut() {
                *r = $idx::new(0);
            } else {
                vio(s("as_mut"), format!("as_mut of optional {x:?} is None"));
            }
            ensure_eq!(t.to_option(), Some($idx::new(0)), s("as_mut"), "optional {x:?} after writing 0 through as_mut");
            if serde {
                ser(&x, &s("serde"));
                ser(&m, &s("serde-maybe"));
                let j = serde_json::to_string(&x).unwrap();
                ensure_eq!(digits(&j), vec![v], s("json-form"), "serialised form of new({v}): {j}");
            }
        }
        fn $pair<U: Width>(v: usize, w: usize) {
            let s = |x: &str| format!("{}{}:{x}", $name, U::BITS);
            let (x, y) = ($idx::<U>::new(v), $idx::<U>::new(w));
            ensure_eq!(x == y, v == w, s("pair-eq"), "new({v}) == new({w})");
            ensure_eq!(x.cmp(&y), v.cmp(&w), s("pair-ord"), "comparison of new({v}) with new({w})");
            ensure_eq!(x.partial_cmp(&y), Some(v.cmp(&w)), s("pair-ord"), "comparison of new({v}) with new({w})");
            let (a, b): ($maybe<U>, $maybe<U>) = (x.into(), y.into());
            ensure_eq!(a == b, v == w, s("pair-maybe-eq"), "optional {x:?} == optional {y:?}");
        }
    };
}
index_case!(node_case, node_pair, NodeIndex, MaybeNodeIndex, "NodeIndex");
index_case!(port_case, port_pair, PortIndex, MaybePortIndex, "PortIndex");

fn offset_case<U: Width>(c: &mut Case, v: usize, serde: bool) {
    let s = |x: &str| format!("PortOffset{}:{x}", U::BITS);
    let ok = v <= limit::<U>();
    for dir in [Direction::Incoming, Direction::Outgoing] {
        c.count("values", 1);
        let made = catch(|| PortOffset::<U>::new(dir, v));
        let short = catch(|| match dir {
            Direction::Incoming => PortOffset::<U>::new_incoming(v),
            Direction::Outgoing => PortOffset::<U>::new_outgoing(v),
        });
        if !ok {
            ensure!(made.is_err(), s("new-too-large"), "new({dir:?}, {v}) gave {made:?}, the maximum is {}", limit::<U>());
            ensure!(short.is_err(), s("new-too-large"), "new_incoming/outgoing({v}) gave {short:?}, the maximum is {}", limit::<U>());
            if serde {
                let j = format!("{{\"index\":{v},\"direction\":\"{dir:?}\"}}");
                let r = catch(|| serde_json::from_str::<PortOffset<U>>(&j));
                ensure!(!matches!(r, Ok(Ok(_))), s("json-too-large"), "reading back {j} gave {r:?}");
            }
            c.count("refused", 1);
            continue;
        }
        let x = match made {
            Ok(x) => x,
            Err(e) => vio(s("new"), format!("new({dir:?}, {v}) panicked: {e}")),
        };
        ensure_eq!(short, Ok(x), s("new_dir"), "new_incoming/outgoing({v})");
        ensure_eq!(must("direction", || x.direction()), dir, s("direction"), "direction of new({dir:?}, {v})");
        ensure_eq!(must("index", || x.index()), v, s("index"), "index of new({dir:?}, {v})");
        let o = x.opposite();
        ensure_eq!((must("opposite", || o.direction()), must("opposite", || o.index())), (dir.reverse(), v), s("opposite"), "opposite of new({dir:?}, {v})");
        ensure!(o.opposite() == x && o != x, s("opposite"), "opposite twice of new({dir:?}, {v})");
        let dbg = format!("{x:?}");
        ensure!(dbg.contains(&format!("{dir:?}")) && digits(&dbg) == vec![v], s("debug"), "Debug of new({dir:?}, {v}): {dbg}");
        ensure!(h(&x) == h(&PortOffset::<U>::new(dir, v)), s("hash"), "hash of new({dir:?}, {v})");
        if serde {
            ser(&x, &s("serde"));
        }
    }
}

fn offset_pair<U: Width>(v: usize, w: usize) {
    for d1 in [Direction::Incoming, Direction::Outgoing] {
        for d2 in [Direction::Incoming, Direction::Outgoing] {
            let (x, y) = (PortOffset::<U>::new(d1, v), PortOffset::<U>::new(d2, w));
            let same = d1 == d2 && v == w;
            ensure_eq!(x == y, same, format!("PortOffset{}:pair-eq", U::BITS), "{x:?} == {y:?}");
            ensure_eq!(x.cmp(&y).is_eq(), same, format!("PortOffset{}:pair-ord", U::BITS), "{x:?} cmp {y:?}");
            ensure!(x.cmp(&y) == y.cmp(&x).reverse(), format!("PortOffset{}:pair-ord", U::BITS), "{x:?} cmp {y:?} is not antisymmetric");
            if d1 == d2 {
                ensure_eq!(x.cmp(&y), v.cmp(&w), format!("PortOffset{}:pair-ord", U::BITS), "{x:?} cmp {y:?}");
            }
        }
    }
}

fn none_case<U: Width>() {
    let n = MaybeNodeIndex::<U>::default();
    let n2 = MaybeNodeIndex::<U>::new(None);
    let n3: MaybeNodeIndex<U> = None.into();
    ensure!(n == n2 && n == n3 && n.is_none() && !n.is_some(), "none", "absent node index is not absent");
    ensure!(n.to_option().is_none() && Option::<NodeIndex<U>>::from(n).is_none() && n.into_iter().next().is_none(), "none", "absent node index yields one");
    let mut k = n;
    ensure!(k.as_mut().is_none(), "none", "as_mut of an absent node index");
    ensure!(catch(|| n.unwrap()).is_err() && catch(|| n.expect("x")).is_err(), "none", "unwrap of an absent node index");
    ser(&n, "maybe-node-none");
    let n = MaybePortIndex::<U>::default();
    ensure!(n == MaybePortIndex::<U>::new(None) && n.is_none() && !n.is_some(), "none", "absent port index is not absent");
    ensure!(n.to_option().is_none() && n.into_iter().next().is_none(), "none", "absent port index yields one");
    ensure!(catch(|| n.unwrap()).is_err() && catch(|| n.expect("x")).is_err(), "none", "unwrap of an absent port index");
    ser(&n, "maybe-port-none");
    ensure_eq!(PortIndex::<U>::default().index(), 0, "default", "default port index");
    ensure_eq!(PortOffset::<U>::default().index(), 0, "default", "default port offset");
    ensure_eq!(std::mem::size_of::<MaybeNodeIndex<U>>(), std::mem::size_of::<U>(), "size", "size of an optional node index");
}

fn limits_of<U: Width>() {
    ensure_eq!(NodeIndex::<U>::max_index(), limit::<U>(), "max_index", "NodeIndex::max_index for {} bits", U::BITS);
    ensure_eq!(PortIndex::<U>::max_index(), limit::<U>(), "max_index", "PortIndex::max_index for {} bits", U::BITS);
    ensure_eq!(PortOffset::<U>::max_offset(), limit::<U>(), "max_offset", "PortOffset::max_offset for {} bits", U::BITS);
    none_case::<U>();
}

fn one<U: Width>(c: &mut Case, v: usize, serde: bool) {
    node_case::<U>(c, v, serde);
    port_case::<U>(c, v, serde);
    offset_case::<U>(c, v, serde);
}

/// Every value of the 8- and 16-bit types (in blocks), and beyond.
fn block16(c: &mut Case) {
    let b = c.seed as usize % 128;
    c.log(|| format!("u16 values {}..{}", b * 1024, (b + 1) * 1024));
    for v in b * 1024..(b + 1) * 1024 {
        one::<u16>(c, v, v % 7 == 0 || v >= 32700 && v < 32800);
    }
    c.feed(b as u64);
    c.nontrivial();
}
fn all8(c: &mut Case) {
    limits_of::<u8>();
    limits_of::<u16>();
    limits_of::<u32>();
    limits_of::<u64>();
    limits_of::<usize>();
    for v in 0..600 {
        one::<u8>(c, v, true);
    }
    for v in 0..=limit::<u8>() {
        for w in 0..=limit::<u8>() {
            node_pair::<u8>(v, w);
            port_pair::<u8>(v, w);
            offset_pair::<u8>(v, w);
        }
    }
    c.log(|| "all u8 values and pairs; limits of all widths".into());
    c.nontrivial();
}

fn interesting(c: &mut Case, bits: u32) -> usize {
    let top = if bits == 64 { usize::MAX } else { (1usize << bits) - 1 };
    match c.rng.below(6) {
        0 => c.rng.below(70000),
        1 => (1usize << c.rng.below(bits as usize)).wrapping_add(c.rng.below(5)).wrapping_sub(2),
        2 => (top >> 1).wrapping_add(c.rng.below(9)).wrapping_sub(4),
        3 => top.wrapping_sub(c.rng.below(4)),
        4 => c.rng.u64() as usize & (top >> 1),
        _ => c.rng.u64() as usize,
    }
}
fn wide<U: Width>(c: &mut Case) {
    let mut seen: HashMap<usize, NodeIndex<U>> = HashMap::new();
    for _ in 0..60 {
        let v = interesting(c, U::BITS);
        c.log(|| format!("value {v}"));
        let serde = c.rng.bool();
        one::<U>(c, v, serde);
        c.feed(v as u64);
        if v <= limit::<U>() {
            for w in seen.keys() {
                node_pair::<U>(v, *w);
                port_pair::<U>(v, *w);
                offset_pair::<U>(v, *w);
            }
            if seen.len() < 20 {
                seen.insert(v, NodeIndex::new(v));
            }
        }
    }
    c.nontrivial();
}

fn subports(c: &mut Case) {
    for _ in 0..50 {
        let p = PortIndex::new(c.rng.u64() as usize & 0x3fff_ffff);
        let k = match c.rng.below(3) {
            0 => c.rng.below(10),
            1 => c.rng.below(65535),
            _ => 65530 + c.rng.below(20),
        };
        c.log(|| format!("subport {k} of {p:?}"));
        let r = catch(|| SubportIndex::new_multi(p, k));
        c.feed(k as u64 ^ (p.index() as u64) << 20);
        match r {
            Ok(s) => {
                ensure_eq!((s.port(), s.offset()), (p, k), "subport", "accessors of new_multi({p:?}, {k})");
                ensure_eq!(PortIndex::from(s), p, "subport-from", "port of new_multi({p:?}, {k})");
                ensure_eq!(s == SubportIndex::new_unique(p), k == 0, "subport-unique", "new_multi({p:?}, {k}) == new_unique");
                ensure!(s != SubportIndex::new_multi(p, if k == 0 { 1 } else { k - 1 }) , "subport-eq", "distinct subports of {p:?} compare equal");
                ensure!(s.cmp(&SubportIndex::new_multi(p, k / 2)).is_eq() == (k == k / 2), "subport-ord", "comparison of subports");
                c.count("values", 1);
            }
            Err(e) => ensure!(k >= 65535, "subport-refused", "new_multi({p:?}, {k}) panicked: {e}"),
        }
    }
    ensure_eq!(Direction::Incoming.reverse(), Direction::Outgoing, "direction", "reverse");
    for d in [Direction::Incoming, Direction::Outgoing] {
        ensure_eq!(d.reverse().reverse(), d, "direction", "reverse twice");
        let u: usize = d.into();
        ensure_eq!(Direction::try_from(u), Ok(d), "direction-usize", "Direction through usize");
        ensure_eq!(d as usize, u, "direction-usize", "Direction as usize");
    }
    for u in [2usize, 3, 255, usize::MAX] {
        ensure!(Direction::try_from(u).is_err(), "direction-usize", "Direction::try_from({u}) is accepted");
    }
    c.nontrivial();
}

pub static CHECK: Check = Check {
    prop: "C11",
    rule: "values: all 8-bit values and pairs, all 16-bit values in random blocks, values around powers of two and limits for wider types; each through every constructor, accessor, conversion and serialised form; distinct by values",
    assumptions: &["a panic or an error both count as refusing a value"],
    suites: &[
        Suite { name: "all8", quick: 4, thorough: 8, max_size: 2, f: all8 },
        Suite { name: "block16", quick: 1500, thorough: 20000, max_size: 2, f: block16 },
        Suite { name: "u16", quick: 3000, thorough: 200000, max_size: 2, f: wide::<u16> },
        Suite { name: "u32", quick: 6000, thorough: 400000, max_size: 2, f: wide::<u32> },
        Suite { name: "u64", quick: 6000, thorough: 400000, max_size: 2, f: wide::<u64> },
        Suite { name: "usize", quick: 3000, thorough: 200000, max_size: 2, f: wide::<usize> },
        Suite { name: "subports", quick: 3000, thorough: 100000, max_size: 2, f: subports },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
