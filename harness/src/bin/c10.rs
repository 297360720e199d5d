use ::portgraph::secondary::*;
use ::portgraph::*;
use bitvec::vec::BitVec;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use vpharness::itercheck;
use vpharness::run::*;
use vpharness::{ensure, ensure_eq};

trait Key: Copy + Eq + Debug + Into<usize> + TryFrom<usize> + std::hash::Hash {
    fn k(i: usize) -> Self {
        Self::try_from(i).ok().unwrap()
    }
}
impl Key for usize {}
impl Key for NodeIndex {}
impl Key for PortIndex {}

trait Val: Clone + PartialEq + Debug {
    fn v(i: u64) -> Self;
}
impl Val for bool {
    fn v(i: u64) -> Self {
        i % 2 == 1
    }
}
impl Val for u32 {
    fn v(i: u64) -> Self {
        i as u32
    }
}
impl Val for String {
    fn v(i: u64) -> Self {
        format!("{i}")
    }
}
impl Val for Option<Box<u64>> {
    fn v(i: u64) -> Self {
        (i > 0).then(|| Box::new(i))
    }
}

/// Extra operations of particular map kinds.
trait Extra<K: Key, V: Val>: SecondaryMap<K, V> + Clone + Debug {
    const DEI: bool;
    const KIND: &'static str;
    fn make(c: &mut Case) -> (Self, V);
    /// Returns true if an extra operation was performed.
    fn extra(&mut self, _c: &mut Case, _m: &mut Model<V>, _u: usize) {}
    fn iter_check(&self, c: &mut Case);
    fn same(&self, other: &Self) -> bool;
}

#[derive(Clone, Debug)]
struct Model<V> {
    v: BTreeMap<usize, V>,
    default: V,
}
impl<V: Val> Model<V> {
    fn get(&self, i: usize) -> &V {
        self.v.get(&i).unwrap_or(&self.default)
    }
    fn set(&mut self, i: usize, x: V) {
        if x == self.default {
            self.v.remove(&i);
        } else {
            self.v.insert(i, x);
        }
    }
    fn take(&mut self, i: usize) -> V {
        self.v.remove(&i).unwrap_or(self.default.clone())
    }
}

impl<K: Key> Extra<K, bool> for BitVec {
    const DEI: bool = true;
    const KIND: &'static str = "BitVec";
    fn make(c: &mut Case) -> (Self, bool) {
        (if c.rng.bool() { <BitVec as SecondaryMap<K, bool>>::new() } else { <BitVec as SecondaryMap<K, bool>>::with_capacity(c.rng.below(200)) }, false)
    }
    fn iter_check(&self, c: &mut Case) {
        itercheck::fwd(&mut c.rng, || SecondaryMap::<K, bool>::iter(self), "BitVec::iter");
        itercheck::dei(&mut c.rng, || SecondaryMap::<K, bool>::iter(self), "BitVec::iter");
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl<K: Key> Extra<K, bool> for HashSet<K> {
    const DEI: bool = false;
    const KIND: &'static str = "HashSet";
    fn make(c: &mut Case) -> (Self, bool) {
        (if c.rng.bool() { SecondaryMap::new() } else { <Self as SecondaryMap<K, bool>>::with_capacity(c.rng.below(100)) }, false)
    }
    fn iter_check(&self, c: &mut Case) {
        itercheck::fwd(&mut c.rng, || SecondaryMap::<K, bool>::iter(self), "HashSet::iter");
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl<K: Key, V: Val + Default> Extra<K, V> for UnmanagedDenseMap<K, V> {
    const DEI: bool = true;
    const KIND: &'static str = "UnmanagedDenseMap";
    fn make(c: &mut Case) -> (Self, V) {
        let dv = V::v([0, 0, 1, 7][c.rng.below(4)]);
        match c.rng.below(5) {
            0 => (UnmanagedDenseMap::new(), V::default()),
            1 => (UnmanagedDenseMap::with_capacity(c.rng.below(100)), V::default()),
            2 => (UnmanagedDenseMap::with_capacity_and_default(c.rng.below(100), dv.clone()), dv),
            3 => (UnmanagedDenseMap::default(), V::default()),
            _ => (UnmanagedDenseMap::with_default(dv.clone()), dv),
        }
    }
    fn extra(&mut self, c: &mut Case, m: &mut Model<V>, u: usize) {
        let i = c.rng.below(u);
        let j = c.rng.below(u);
        let l = c.rng.below(u);
        let x = V::v(c.rng.below(1000) as u64);
        match c.rng.below(8) {
            0 => {
                c.log(|| format!("get_mut({i}) = {x:?}"));
                let r = self.get_mut(K::k(i));
                ensure_eq!(*r, *m.get(i), "get_mut", "get_mut({i})");
                *r = x.clone();
                m.set(i, x);
            }
            1 => {
                c.log(|| format!("index_mut({i}) = {x:?}"));
                ensure_eq!(self[K::k(i)], *m.get(i), "index", "map[{i}]");
                self[K::k(i)] = x.clone();
                m.set(i, x);
            }
            2 => {
                c.log(|| format!("try_get_mut({i}) = {x:?}"));
                match self.try_get_mut(K::k(i)) {
                    Some(r) => {
                        ensure_eq!(*r, *m.get(i), "try_get_mut", "try_get_mut({i})");
                        *r = x.clone();
                        m.set(i, x);
                    }
                    None => ensure!(!m.v.contains_key(&i), "try_get_mut-none", "try_get_mut({i}) is None, but a value is stored"),
                }
            }
            3 | 4 => {
                c.log(|| format!("get_disjoint_mut([{i}, {j}])"));
                let (mi, mj) = (m.get(i).clone(), m.get(j).clone());
                let y = V::v(c.rng.below(1000) as u64);
                match self.get_disjoint_mut([K::k(i), K::k(j)]) {
                    Some([a, b]) => {
                        ensure!(i != j, "disjoint-alias", "get_disjoint_mut([{i}, {j}]) gave two references to one entry");
                        ensure_eq!((&*a, &*b), (&mi, &mj), "disjoint", "get_disjoint_mut([{i}, {j}])");
                        *a = x.clone();
                        ensure_eq!(*b, mj, "disjoint-alias", "writing the first of get_disjoint_mut([{i}, {j}]) changed the second");
                        *b = y.clone();
                        ensure_eq!(*a, x, "disjoint-alias", "writing the second of get_disjoint_mut([{i}, {j}]) changed the first");
                        m.set(i, x);
                        m.set(j, y);
                        c.count("disjoint_borrows", 1);
                    }
                    None => ensure!(i == j, "disjoint-none", "get_disjoint_mut([{i}, {j}]) is None"),
                }
            }
            5 => {
                c.log(|| format!("get_disjoint_mut([{i}, {j}, {l}])"));
                let want = [m.get(i).clone(), m.get(j).clone(), m.get(l).clone()];
                match self.get_disjoint_mut([K::k(i), K::k(j), K::k(l)]) {
                    Some(r) => {
                        ensure!(i != j && j != l && i != l, "disjoint-alias", "get_disjoint_mut([{i}, {j}, {l}]) gave several references to one entry");
                        for (k, (a, w)) in r.iter().zip(&want).enumerate() {
                            ensure_eq!(**a, *w, "disjoint", "entry {k} of get_disjoint_mut([{i}, {j}, {l}])");
                        }
                        let [a, b, d] = r;
                        // rotate
                        std::mem::swap(a, b);
                        std::mem::swap(b, d);
                        let [wi, wj, wl] = want;
                        m.set(i, wj);
                        m.set(j, wl);
                        m.set(l, wi);
                    }
                    None => ensure!(i == j || j == l || i == l, "disjoint-none", "get_disjoint_mut([{i}, {j}, {l}]) is None"),
                }
                // a wide request, with the coinciding keys anywhere in the list
                let mut w: [usize; 9] = std::array::from_fn(|k| (i + k) % (u + 9));
                if c.rng.bool() {
                    let (a, b) = (c.rng.below(9), c.rng.below(9));
                    w[a] = w[b];
                }
                let apart = w.iter().collect::<std::collections::HashSet<_>>().len() == 9;
                let want = w.map(|k| m.get(k).clone());
                match self.get_disjoint_mut(w.map(K::k)) {
                    Some(r) => {
                        ensure!(apart, "disjoint-alias", "get_disjoint_mut({w:?}) gave several references to one entry");
                        for (k, (a, x)) in r.iter().zip(&want).enumerate() {
                            ensure_eq!(**a, *x, "disjoint", "entry {k} of get_disjoint_mut({w:?})");
                        }
                    }
                    None => ensure!(!apart, "disjoint-none", "get_disjoint_mut({w:?}) is None"),
                }
            }
            6 => {
                let k = c.rng.below(u + 3);
                c.log(|| format!("shrink_to({k})"));
                self.shrink_to(k);
                m.v.retain(|i, _| *i < k);
            }
            _ => {
                // equality ignores trailing defaults and capacity
                let mut other = UnmanagedDenseMap::<K, V>::with_default(m.default.clone());
                for (i, v) in m.v.iter().rev() {
                    other[K::k(*i)] = v.clone();
                }
                ensure!(*self == other && other == *self, "eq", "maps with the same contents are unequal: {self:?} {other:?}");
                let mut foreign = UnmanagedDenseMap::<K, V>::with_default(x.clone());
                for (j, v) in &m.v {
                    foreign[K::k(*j)] = v.clone();
                }
                for j in 0..u {
                    if !m.v.contains_key(&j) {
                        foreign[K::k(j)] = m.default.clone();
                    }
                }
                ensure_eq!(*self == foreign, x == m.default, "eq-default", "equality of maps whose defaults are {:?} and {x:?}", m.default);
                ensure_eq!(foreign == *self, x == m.default, "eq-default", "equality of maps whose defaults are {x:?} and {:?}", m.default);
                let y = other[K::k(i)].clone();
                other[K::k(i)] = x.clone();
                ensure_eq!(*self == other, x == y, "eq-diff", "equality after storing {x:?} over {y:?} at {i}");
                ensure_eq!(other == *self, x == y, "eq-diff", "equality after storing {x:?} over {y:?} at {i}");
            }
        }
    }
    fn iter_check(&self, c: &mut Case) {
        itercheck::fwd(&mut c.rng, || self.iter(), "UnmanagedDenseMap::iter");
        itercheck::dei(&mut c.rng, || self.iter(), "UnmanagedDenseMap::iter");
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

fn compare<K: Key, V: Val, M: Extra<K, V>>(c: &mut Case, map: &M, m: &Model<V>, u: usize) {
    for i in 0..u + 3 {
        ensure_eq!(*map.get(K::k(i)), *m.get(i), "get", "{}: get({i})", M::KIND);
    }
    for i in [u + 70, u + 1000, 1_000_000] {
        ensure_eq!(*map.get(K::k(i)), m.default, "get-beyond", "{}: get({i}) of a never stored index", M::KIND);
    }
    ensure_eq!(map.default_value(), m.default, "default_value", "{}: default_value", M::KIND);
    let mut seen = HashSet::new();
    for (k, v) in map.iter() {
        let i: usize = k.into();
        ensure!(seen.insert(i), "iter-dup", "{}: iter yields index {i} twice", M::KIND);
        ensure_eq!(*v, *m.get(i), "iter-value", "{}: iter's value at {i}", M::KIND);
    }
    for i in m.v.keys() {
        ensure!(seen.contains(i), "iter-missing", "{}: iter does not yield the stored index {i}", M::KIND);
    }
    c.count("full_comparisons", 1);
}

fn go<K: Key, V: Val, M: Extra<K, V>>(c: &mut Case) {
    let (mut map, default) = M::make(c);
    let mut m = Model { v: BTreeMap::new(), default };
    let mut u = *c.rng.pick(&[2usize, 4, 8, 40, 130, 300]);
    if !cfg!(miri) && c.rng.chance(1, 1000) {
        u = if c.rng.chance(1, 10) { 66000 } else { 4200 };
    }
    for step in 0..4 + c.size {
        let i = c.rng.below(u);
        let j = if c.rng.chance(1, 8) { i } else { c.rng.below(u) };
        let (ki, kj) = (K::k(i), K::k(j));
        match c.rng.weighted(&[20, 6, 4, 12, 4, 12, 3, 1, 16, 1]) {
            0 => {
                let x = if c.rng.chance(1, 6) { m.default.clone() } else { V::v(c.rng.below(1000) as u64) };
                c.log(|| format!("set({i}, {x:?})"));
                must("set", || map.set(ki, x.clone()));
                m.set(i, x);
                c.count("set", 1);
            }
            1 => {
                c.log(|| format!("take({i})"));
                let got = must("take", || map.take(ki));
                ensure_eq!(got, m.take(i), "take", "{}: take({i})", M::KIND);
                c.count("take", 1);
            }
            2 => {
                c.log(|| format!("remove({i})"));
                must("remove", || map.remove(ki));
                m.take(i);
            }
            3 => {
                c.log(|| format!("rekey({i}, Some({j}))"));
                must("rekey", || map.rekey(ki, Some(kj)));
                let x = m.take(i);
                m.set(j, x);
                c.count("rekey", 1);
            }
            4 => {
                c.log(|| format!("rekey({i}, None)"));
                must("rekey", || map.rekey(ki, None));
                m.take(i);
            }
            5 => {
                c.log(|| format!("swap({i}, {j})"));
                must("swap", || map.swap(ki, kj));
                let (x, y) = (m.take(i), if i == j { m.default.clone() } else { m.take(j) });
                if i == j {
                    m.set(i, x);
                } else {
                    m.set(i, y);
                    m.set(j, x);
                }
                c.count("swap", 1);
            }
            6 => {
                let k = c.rng.below(2 * u + 2);
                c.log(|| format!("ensure_capacity({k})"));
                let before = map.capacity();
                must("ensure_capacity", || map.ensure_capacity(k));
                ensure!(map.capacity() >= k, "ensure_capacity", "{}: capacity {} after ensure_capacity({k}), was {before}", M::KIND, map.capacity());
                c.count("capacity_changes", 1);
            }
            7 => {
                c.log(|| "clone".into());
                let n = map.clone();
                ensure!(n.same(&map), "clone-eq", "a clone differs");
                map = n;
            }
            8 => map.extra(c, &mut m, u),
            _ => map.iter_check(c),
        }
        if u <= 8 || step % 8 == 0 {
            compare(c, &map, &m, u);
        } else {
            for x in [i, j] {
                ensure_eq!(*map.get(K::k(x)), *m.get(x), "get", "{}: get({x})", M::KIND);
            }
        }
    }
    compare(c, &map, &m, u);
    map.iter_check(c);
    for (k, v) in &m.v {
        c.feed(*k as u64);
        c.feed(format!("{v:?}").len() as u64);
    }
    if !m.v.is_empty() {
        c.nontrivial();
    }
}

fn weights(c: &mut Case) {
    let mut w: Weights<u32, String> = match c.rng.below(3) {
        0 => Weights::new(),
        1 => Weights::default(),
        _ => Weights::with_capacity(c.rng.below(20), c.rng.below(20)),
    };
    let mut n: BTreeMap<usize, u32> = BTreeMap::new();
    let mut p: BTreeMap<usize, String> = BTreeMap::new();
    for _ in 0..3 + c.size {
        let (i, j) = (c.rng.below(12), c.rng.below(12));
        let x = c.rng.below(50) as u32;
        let (ni, pi, pj) = (NodeIndex::new(i), PortIndex::new(i), PortIndex::new(j));
        match c.rng.below(6) {
            0 => {
                c.log(|| format!("w[node {i}] = {x}"));
                w[ni] = x;
                n.insert(i, x);
            }
            1 => {
                c.log(|| format!("w[port {i}] = {x}"));
                w[pi] = x.to_string();
                p.insert(i, x.to_string());
            }
            2 => {
                c.log(|| format!("nodes.rekey({i}, {j})"));
                w.nodes.rekey(ni, Some(NodeIndex::new(j)));
                let v = n.remove(&i).unwrap_or_default();
                n.insert(j, v);
            }
            3 => {
                c.log(|| format!("ports.swap({i}, {j})"));
                w.ports.swap(pi, pj);
                let (a, b) = (p.remove(&i).unwrap_or_default(), if i == j { String::new() } else { p.remove(&j).unwrap_or_default() });
                p.insert(j, a.clone());
                p.insert(i, if i == j { a } else { b });
            }
            4 => w = w.clone(),
            _ => {
                w.nodes.ensure_capacity(j);
            }
        }
        for k in 0..14 {
            ensure_eq!(w[NodeIndex::new(k)], n.get(&k).copied().unwrap_or_default(), "weights-node", "weight of node {k}");
            ensure_eq!(w[PortIndex::new(k)], p.get(&k).cloned().unwrap_or_default(), "weights-port", "weight of port {k}");
        }
    }
    c.feed(n.len() as u64 * 100 + p.values().map(|s| s.len() as u64).sum::<u64>());
    c.nontrivial();
}

pub static CHECK: Check = Check {
    prop: "C10",
    rule: "random operation sequences on each map kind and default mirrored on a total function, every index compared; non-trivial if some value is stored at the end, distinct by final contents",
    assumptions: &["the dense map may list default entries in its iteration; only stored values have to appear"],
    suites: &[
        Suite { name: "dense_u32_node", quick: 600000, thorough: 4800000, max_size: 60, f: go::<NodeIndex, u32, UnmanagedDenseMap<NodeIndex, u32>> },
        Suite { name: "dense_string_port", quick: 240000, thorough: 1920000, max_size: 60, f: go::<PortIndex, String, UnmanagedDenseMap<PortIndex, String>> },
        Suite { name: "dense_bool_usize", quick: 240000, thorough: 1920000, max_size: 60, f: go::<usize, bool, UnmanagedDenseMap<usize, bool>> },
        Suite { name: "dense_box", quick: 240000, thorough: 1920000, max_size: 60, f: go::<NodeIndex, Option<Box<u64>>, UnmanagedDenseMap<NodeIndex, Option<Box<u64>>>> },
        Suite { name: "bitvec_port", quick: 400000, thorough: 3200000, max_size: 60, f: go::<PortIndex, bool, BitVec> },
        Suite { name: "bitvec_usize", quick: 160000, thorough: 1280000, max_size: 60, f: go::<usize, bool, BitVec> },
        Suite { name: "hashset_port", quick: 240000, thorough: 1920000, max_size: 60, f: go::<PortIndex, bool, HashSet<PortIndex>> },
        Suite { name: "hashset_node", quick: 160000, thorough: 1280000, max_size: 60, f: go::<NodeIndex, bool, HashSet<NodeIndex>> },
        Suite { name: "weights", quick: 120000, thorough: 960000, max_size: 40, f: weights },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
