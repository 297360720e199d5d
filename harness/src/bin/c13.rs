//! C13: a topological order lists exactly the eligible nodes, predecessors first.

use ::portgraph::algorithms::{toposort, toposort_filtered, TopoSort};
use ::portgraph::*;
use std::collections::{BTreeSet, HashSet};
use vpharness::gen::*;
use vpharness::graphchecks::{Multi, Plain};
use vpharness::hist::Gut;
use vpharness::model::*;
use vpharness::run::*;
use vpharness::{ensure, ensure_eq};

/// Least set containing the sources and every node all of whose incoming links come from it.
fn eligible(m: &Model, sources: &BTreeSet<NodeIndex>, back: Direction) -> BTreeSet<NodeIndex> {
    let mut set: BTreeSet<NodeIndex> = sources.iter().copied().filter(|n| m.nodes.contains_key(n)).collect();
    let mut todo: Vec<NodeIndex> = set.iter().copied().collect();
    while let Some(n) = todo.pop() {
        for t in m.nbrs(n, back.reverse()) {
            if !set.contains(&t) && m.nbrs(t, back).iter().all(|p| set.contains(p)) {
                set.insert(t);
                todo.push(t);
            }
        }
    }
    set
}

#[derive(Clone)]
struct Plan {
    /// The model after filtering.
    m: Model,
    first: Vec<NodeIndex>,
    /// Sources added after that many nodes were yielded.
    late: Vec<(usize, Vec<NodeIndex>)>,
    dir: Direction,
}

/// Runs the iterator by the plan and judges what it yields.
fn judge<G: LinkView, M: SecondaryMap<PortIndex, bool>>(c: &mut Case, mut t: TopoSort<'_, G, M>, p: &Plan, tag: &str) -> Vec<NodeIndex> {
    let s = |x: &str| format!("{tag}:{x}");
    let back = p.dir.reverse();
    let mut sources: BTreeSet<NodeIndex> = p.first.iter().copied().collect();
    let mut out: Vec<NodeIndex> = vec![];
    let mut seen = BTreeSet::new();
    // (asking may take linear time)
    let every = 1 + p.m.nodes.len() / 2000 * 500;
    let mut hints = vec![(0, t.size_hint())];
    let mut late = p.late.clone();
    late.reverse();
    loop {
        while late.last().is_some_and(|(k, _)| *k <= out.len()) {
            let (_, v) = late.pop().unwrap();
            t.add_sources(v.iter().copied());
            sources.extend(v);
            hints.push((out.len(), t.size_hint()));
        }
        let Some(n) = t.next() else {
            if let Some((k, _)) = late.last_mut() {
                *k = 0;
                continue;
            }
            break;
        };
        ensure!(p.m.nodes.contains_key(&n), s("filtered"), "{n:?} was yielded, but is filtered or does not exist");
        ensure!(seen.insert(n), s("twice"), "{n:?} was yielded twice, after {out:?}");
        if !sources.contains(&n) {
            let pre = p.m.nbrs(n, back);
            ensure!(!pre.is_empty(), s("unreached"), "{n:?} was yielded, but is no source and has no link");
            for q in pre {
                ensure!(seen.contains(&q), s("order"), "{n:?} was yielded before its predecessor {q:?}; sources {sources:?}");
            }
        }
        out.push(n);
        if out.len() % every == 0 {
            hints.push((out.len(), t.size_hint()));
        }
        c.count("nodes_yielded", 1);
    }
    for _ in 0..2 {
        ensure!(t.next().is_none(), s("fused"), "yields again after the end");
    }
    let exp = eligible(&p.m, &sources, back);
    ensure_eq!(seen, exp, s("set"), "set of yielded nodes (sources {:?})", sources);
    if p.late.is_empty() {
        for (i, (lo, hi)) in hints {
            let left = out.len() - i;
            ensure!(lo <= left && hi.is_none_or(|h| h >= left), s("size_hint"), "size_hint ({lo}, {hi:?}) with {left} of {} nodes left", out.len());
        }
    }
    // Starting from all nodes without incoming links, ports remain exactly if a node was left out.
    if sources == p.m.nodes.keys().copied().filter(|n| p.m.links_of(*n, back).is_empty()).collect() && tag.starts_with("plain:") {
        let rest: BTreeSet<NodeIndex> = t.ports_remaining().map(|q| p.m.node(q)).collect();
        ensure_eq!(rest.is_empty(), seen.len() == p.m.nodes.len(), s("ports_remaining"), "ports_remaining empty, {} of {} nodes yielded", seen.len(), p.m.nodes.len());
        c.count("cycle_verdicts", 1);
    }
    out
}

fn sources(c: &mut Case, m: &Model, dir: Direction) -> Vec<NodeIndex> {
    let mut v: Vec<NodeIndex> = m.nodes.keys().copied().collect();
    let mode = c.rng.below(5);
    match mode {
        0..=2 => {
            v.retain(|n| m.links_of(*n, dir.reverse()).is_empty());
            if mode == 2 {
                let k = c.rng.below(11);
                v.retain(|_| c.rng.chance(k, 10));
            }
        }
        _ => {
            let k = c.rng.below(8);
            v.retain(|_| c.rng.chance(k, 10));
        }
    }
    if c.rng.bool() {
        c.rng.shuffle(&mut v);
    }
    if c.rng.chance(1, 4) && !v.is_empty() {
        for _ in 0..1 + c.rng.below(3) {
            let x = *c.rng.pick(&v);
            v.push(x);
        }
    }
    v
}

fn run<G: Gut>(c: &mut Case) {
    let sh = shape_big(c, 40);
    run_on::<G>(c, sh)
}
/// More nodes and ports than two bytes can count.
fn huge<G: Gut>(c: &mut Case) {
    let sh = Shape { nodes: huge_count(c), acyclic: c.rng.bool(), density: 1, max_ports: 3 };
    run_on::<G>(c, sh)
}
fn run_on<G: Gut>(c: &mut Case, sh: Shape) {
    let (g, m) = graph::<G>(&mut c.rng, sh);
    let dir = *c.rng.pick(&DIRS);
    let first = sources(c, &m, dir);
    let mut late = vec![];
    if c.rng.chance(1, 3) {
        let mut at = 0;
        for _ in 0..1 + c.rng.below(3) {
            at += c.rng.below(1 + m.nodes.len() / 2);
            late.push((at, sources(c, &m, dir)));
        }
    }
    let filter = c.rng.bool();
    let k = if filter { Keep::random(&mut c.rng, &m) } else { Keep { nodes: m.nodes.keys().copied().collect(), blocked: Default::default() } };
    let p = Plan { m: k.apply(&m), first, late, dir };
    c.log(|| format!("{} | {:?} | dir {dir:?} first {:?} late {:?} keep {k:?}", m.describe(), sh, p.first, p.late));
    c.feed(m.fingerprint());
    c.feed(p.m.fingerprint());
    let nf = |n| Keep::node(n, &k);
    let pf = |n: NodeIndex, q: PortIndex| {
        ensure_eq!(m.node(q), n, "filter-args", "node handed to the port filter with {q:?}");
        Keep::link(q, &k)
    };
    let src = p.first.iter().copied();
    let mut runs: Vec<Vec<NodeIndex>> = vec![];
    if !filter {
        let t: TopoSort<_> = toposort(&g, src.clone(), dir);
        runs.push(judge(c, t, &p, "plain:bitvec"));
        let t: TopoSort<_, HashSet<PortIndex>> = toposort(&g, src.clone(), dir);
        runs.push(judge(c, t, &p, "plain:hashset"));
    } else {
        // the same through a filtered view
        let v = filtered(&g, k.clone());
        let keep_src: Vec<_> = p.first.iter().copied().filter(|n| k.nodes.contains(n)).collect();
        let mut q = p.clone();
        q.first = keep_src.clone();
        for l in &mut q.late {
            l.1.retain(|n| k.nodes.contains(n));
        }
        let t: TopoSort<_> = toposort(&v, keep_src, dir);
        judge(c, t, &q, "view:bitvec");
    }
    let t: TopoSort<_> = toposort_filtered(&g, src.clone(), dir, nf, pf);
    runs.push(judge(c, t, &p, "filtered:bitvec"));
    match c.rng.below(3) {
        0 => {
            let t: TopoSort<_, HashSet<PortIndex>> = toposort_filtered(&g, src, dir, nf, pf);
            runs.push(judge(c, t, &p, "filtered:hashset"));
        }
        1 => {
            let t: TopoSort<_, UnmanagedDenseMap<PortIndex, bool>> = toposort_filtered(&g, src, dir, nf, pf);
            runs.push(judge(c, t, &p, "filtered:dense"));
        }
        _ => {
            let t: TopoSort<_, Inverted> = TopoSort::new(&g, src, dir, Some(Box::new(nf)), Some(Box::new(pf)));
            runs.push(judge(c, t, &p, "filtered:inverted"));
        }
    }
    c.count("runs", runs.len() as u64);
    c.nontrivial_if(p.m.link_count() > 0 && runs[0].len() > 1);
}

/// A workspace whose default is `true`.
#[derive(Clone, Debug)]
struct Inverted(UnmanagedDenseMap<PortIndex, bool>);
impl SecondaryMap<PortIndex, bool> for Inverted {
    type Iter<'a> = <UnmanagedDenseMap<PortIndex, bool> as SecondaryMap<PortIndex, bool>>::Iter<'a>;
    fn new() -> Self {
        Inverted(UnmanagedDenseMap::with_default(true))
    }
    fn with_capacity(_: usize) -> Self {
        Self::new()
    }
    fn ensure_capacity(&mut self, _: usize) {}
    fn capacity(&self) -> usize {
        self.0.capacity()
    }
    fn default_value(&self) -> bool {
        true
    }
    fn get(&self, k: PortIndex) -> &bool {
        self.0.get(k)
    }
    fn set(&mut self, k: PortIndex, v: bool) {
        *self.0.get_mut(k) = v;
    }
    fn take(&mut self, k: PortIndex) -> bool {
        std::mem::replace(self.0.get_mut(k), true)
    }
    fn iter<'a>(&'a self) -> Self::Iter<'a>
    where
        PortIndex: 'a,
        bool: 'a,
    {
        SecondaryMap::iter(&self.0)
    }
}

pub static CHECK: Check = Check {
    prop: "C13",
    rule: "random graphs (cyclic and acyclic, single and multi link), random sources with repetitions, sources added midway, both directions, node and port filters, several workspaces; the yielded nodes are compared with a least fixpoint and every yield with its predecessors; non-trivial if some link passes the filters and at least two nodes are yielded",
    assumptions: &["sources are nodes of the graph"],
    suites: &[
        Suite { name: "plain", quick: 480000, thorough: 5000000, max_size: 40, f: run::<Plain<u16>> },
        Suite { name: "multi", quick: 480000, thorough: 5000000, max_size: 40, f: run::<Multi<u16>> },
        Suite { name: "huge", quick: 4, thorough: 100, max_size: 4, f: huge::<Plain<u16>> },
        Suite { name: "huge_multi", quick: 4, thorough: 100, max_size: 4, f: huge::<Multi<u16>> },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
