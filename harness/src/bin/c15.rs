//! C15: the dominator tree is exact for every node reachable from the entry.

use ::portgraph::algorithms::{dominators, dominators_filtered, DominatorTree};
type MaybeNodeIndex = ::portgraph::index::MaybeNodeIndex<u32>;
use ::portgraph::*;
use std::collections::{BTreeMap, BTreeSet};
use vpharness::gen::*;
use vpharness::graphchecks::Plain;
use vpharness::model::*;
use vpharness::run::*;
use vpharness::ensure_eq;

fn reach(m: &Model, entry: NodeIndex, dir: Direction, without: Option<NodeIndex>) -> BTreeSet<NodeIndex> {
    let mut set = BTreeSet::new();
    if !m.nodes.contains_key(&entry) || without == Some(entry) {
        return set;
    }
    let mut todo = vec![entry];
    set.insert(entry);
    while let Some(n) = todo.pop() {
        for t in m.nbrs(n, dir) {
            if Some(t) != without && set.insert(t) {
                todo.push(t);
            }
        }
    }
    set
}

/// By the definition: `d` dominates `n` if `n` cannot be reached without `d`; the immediate
/// dominator is the strict dominator that all other strict dominators dominate.
fn reference(m: &Model, entry: NodeIndex, dir: Direction) -> BTreeMap<NodeIndex, NodeIndex> {
    let all = reach(m, entry, dir, None);
    let mut dom: BTreeMap<NodeIndex, BTreeSet<NodeIndex>> = all.iter().map(|n| (*n, BTreeSet::new())).collect();
    for x in &all {
        let r = reach(m, entry, dir, Some(*x));
        for n in all.difference(&r) {
            dom.get_mut(n).unwrap().insert(*x);
        }
    }
    let mut out = BTreeMap::new();
    for n in &all {
        if *n != entry {
            let i = dom[n].iter().filter(|x| *x != n).max_by_key(|x| dom[x].len()).unwrap();
            out.insert(*n, *i);
        }
    }
    out
}

/// A map that only knows the basics.
struct Tree(BTreeMap<NodeIndex, MaybeNodeIndex>, MaybeNodeIndex);
impl SecondaryMap<NodeIndex, MaybeNodeIndex> for Tree {
    type Iter<'a> = std::iter::Empty<(NodeIndex, &'a MaybeNodeIndex)>;
    fn new() -> Self {
        Tree(BTreeMap::new(), MaybeNodeIndex::default())
    }
    fn with_capacity(_: usize) -> Self {
        Self::new()
    }
    fn ensure_capacity(&mut self, _: usize) {}
    fn capacity(&self) -> usize {
        0
    }
    fn default_value(&self) -> MaybeNodeIndex {
        self.1
    }
    fn get(&self, k: NodeIndex) -> &MaybeNodeIndex {
        self.0.get(&k).unwrap_or(&self.1)
    }
    fn set(&mut self, k: NodeIndex, v: MaybeNodeIndex) {
        self.0.insert(k, v);
    }
    fn take(&mut self, k: NodeIndex) -> MaybeNodeIndex {
        self.0.remove(&k).unwrap_or_default()
    }
    fn iter<'a>(&'a self) -> Self::Iter<'a>
    where
        NodeIndex: 'a,
        MaybeNodeIndex: 'a,
    {
        std::iter::empty()
    }
}

fn compare<M: SecondaryMap<NodeIndex, MaybeNodeIndex>>(c: &mut Case, t: &DominatorTree<M>, m: &Model, entry: NodeIndex, exp: &BTreeMap<NodeIndex, NodeIndex>, tag: &str) {
    ensure_eq!(t.root(), entry, format!("{tag}:root"), "root");
    let max = m.nodes.keys().last().map_or(0, |n| n.index()) + 3;
    for n in (0..max).map(ni) {
        ensure_eq!(t.immediate_dominator(n), exp.get(&n).copied(), format!("{tag}:idom"), "immediate_dominator({n:?}), entry {entry:?}");
    }
    c.count("idoms_compared", max as u64);
    c.count("idoms_present", exp.len() as u64);
}

fn run_on(c: &mut Case, sh: Shape) {
    let (g, m) = graph::<Plain<u16>>(&mut c.rng, sh);
    let dir = *c.rng.pick(&DIRS);
    let keys: Vec<_> = m.nodes.keys().copied().collect();
    let entry = *c.rng.pick(&keys);
    let k = Keep::random(&mut c.rng, &m);
    let fm = k.apply(&m);
    c.log(|| format!("{} | dir {dir:?} entry {entry:?} keep {k:?}", m.describe()));
    c.feed(m.fingerprint());
    c.feed(fm.fingerprint() ^ entry.index() as u64);
    let exp = reference(&m, entry, dir);
    let t: DominatorTree = dominators(&g, entry, dir);
    compare(c, &t, &m, entry, &exp, "plain");
    let t: DominatorTree<Tree> = dominators(&g, entry, dir);
    compare(c, &t, &m, entry, &exp, "plain-map");
    let nf = |n| Keep::node(n, &k);
    let pf = |n: NodeIndex, q: PortIndex| {
        ensure_eq!(m.node(q), n, "filter-args", "node handed to the port filter with {q:?}");
        Keep::link(q, &k)
    };
    let expf = reference(&fm, entry, dir);
    let t: DominatorTree = dominators_filtered(&g, entry, dir, nf, pf);
    compare(c, &t, &m, entry, &expf, "filtered");
    c.nontrivial_if(exp.len() > 2);
}
fn small(c: &mut Case) {
    let sh = shape_big(c, 20);
    run_on(c, sh)
}
/// Denser, often irreducible graphs.
fn dense(c: &mut Case) {
    let sh = Shape { nodes: 4 + c.rng.below(12), acyclic: c.rng.chance(1, 4), density: 3 + c.rng.below(3), max_ports: 4 + c.rng.below(4) };
    run_on(c, sh)
}
fn large(c: &mut Case) {
    let sh = Shape { nodes: 40 + c.rng.below(4 * c.size), acyclic: c.rng.bool(), density: 2, max_ports: 4 };
    run_on(c, sh)
}
/// More nodes than two bytes can count. On an acyclic graph the immediate dominator of a node is
/// the closest common dominator of its predecessors.
fn huge(c: &mut Case) {
    let n = huge_count(c);
    let (g, m) = match c.rng.below(3) {
        0 => {
            let (g, m, _) = long_chain::<Plain<u16>>(c, n);
            (g, m)
        }
        k => graph::<Plain<u16>>(&mut c.rng, Shape { nodes: n, acyclic: true, density: 1 + k, max_ports: 4 }),
    };
    let dir = *c.rng.pick(&DIRS);
    c.log(|| format!("{n} nodes, {} links, dir {dir:?}", m.link_count()));
    // a topological order
    let mut missing: BTreeMap<NodeIndex, usize> = m.nodes.keys().map(|n| (*n, m.nbrs(*n, dir.reverse()).len())).collect();
    let mut order: Vec<NodeIndex> = missing.iter().filter(|x| *x.1 == 0).map(|x| *x.0).collect();
    let starts = order.clone();
    let mut i = 0;
    while i < order.len() {
        for t in m.nbrs(order[i], dir) {
            let k = missing.get_mut(&t).unwrap();
            *k -= 1;
            if *k == 0 {
                order.push(t);
            }
        }
        i += 1;
    }
    ensure_eq!(order.len(), m.nodes.len(), "huge:acyclic", "length of a topological order");
    // the start that most can be reached from, of a few
    let entry = (0..6).map(|_| *c.rng.pick(&starts)).max_by_key(|s| reach(&m, *s, dir, None).len()).unwrap();
    let all = reach(&m, entry, dir, None);
    let mut exp: BTreeMap<NodeIndex, NodeIndex> = BTreeMap::new();
    let mut depth = BTreeMap::from([(entry, 0usize)]);
    for x in order.iter().filter(|x| all.contains(x) && **x != entry) {
        let mut meet: Option<NodeIndex> = None;
        for p in m.nbrs(*x, dir.reverse()).into_iter().filter(|p| all.contains(p)) {
            let (mut a, mut b) = (p, meet.unwrap_or(p));
            while a != b {
                if depth[&a] < depth[&b] {
                    std::mem::swap(&mut a, &mut b);
                }
                a = exp[&a];
            }
            meet = Some(a);
        }
        exp.insert(*x, meet.unwrap());
        depth.insert(*x, depth[&meet.unwrap()] + 1);
    }
    let t: DominatorTree = dominators(&g, entry, dir);
    compare(c, &t, &m, entry, &exp, "huge");
    c.max("max_reachable", all.len() as u64);
    c.feed(m.fingerprint());
    c.nontrivial_if(exp.len() > 2);
}

pub static CHECK: Check = Check {
    prop: "C15",
    rule: "random graphs, entries, directions and filters; every immediate dominator compared with the definition by node removal; non-trivial if more than two nodes have an immediate dominator",
    assumptions: &["the entry is a node of the graph"],
    suites: &[
        Suite { name: "small", quick: 600000, thorough: 5000000, max_size: 40, f: small },
        Suite { name: "dense", quick: 400000, thorough: 4000000, max_size: 40, f: dense },
        Suite { name: "large", quick: 2000, thorough: 20000, max_size: 40, f: large },
        Suite { name: "huge", quick: 8, thorough: 200, max_size: 4, f: huge },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
