//! Convexity by definition, and sets of nodes worth asking about.

use crate::model::*;
use crate::run::Case;
use ::portgraph::*;
use std::collections::{BTreeMap, BTreeSet};

pub type Set = BTreeSet<NodeIndex>;
pub type Succ = BTreeMap<NodeIndex, Vec<NodeIndex>>;

pub fn succ_of(m: &Model) -> Succ {
    m.nodes.keys().map(|n| (*n, m.succ(*n))).collect()
}

/// No path leaves the set and returns.
pub fn convex(succ: &Succ, set: &Set) -> bool {
    let mut todo: Vec<NodeIndex> = set.iter().flat_map(|n| &succ[n]).copied().filter(|n| !set.contains(n)).collect();
    let mut seen: Set = todo.iter().copied().collect();
    while let Some(n) = todo.pop() {
        for t in &succ[&n] {
            if set.contains(t) {
                return false;
            }
            if seen.insert(*t) {
                todo.push(*t);
            }
        }
    }
    true
}

pub fn shuffled(c: &mut Case, set: &Set) -> Vec<NodeIndex> {
    let mut v: Vec<_> = set.iter().copied().collect();
    c.rng.shuffle(&mut v);
    v
}

/// Random sets with and without holes: down-sets, intervals, random picks, unions, near misses.
pub fn pick_set(c: &mut Case, m: &Model, succ: &Succ) -> Set {
    let nodes: Vec<NodeIndex> = m.nodes.keys().copied().collect();
    if nodes.is_empty() {
        return Set::new();
    }
    let reach = |n: NodeIndex| {
        let mut s = Set::from([n]);
        let mut todo = vec![n];
        while let Some(x) = todo.pop() {
            for t in &succ[&x] {
                if s.insert(*t) {
                    todo.push(*t);
                }
            }
        }
        s
    };
    let mut s: Set = match c.rng.below(6) {
        0 => nodes.iter().copied().filter(|_| c.rng.bool()).collect(),
        1 => {
            let k = c.rng.below(9);
            nodes.iter().copied().filter(|_| c.rng.chance(k + 1, 10)).collect()
        }
        2 | 3 => {
            // everything between two nodes: convex
            let (a, b) = (*c.rng.pick(&nodes), *c.rng.pick(&nodes));
            let mut back = Set::from([b]);
            let mut todo = vec![b];
            while let Some(x) = todo.pop() {
                for t in m.nbrs(x, Direction::Incoming) {
                    if back.insert(t) {
                        todo.push(t);
                    }
                }
            }
            reach(a).intersection(&back).copied().collect()
        }
        4 => {
            let a = *c.rng.pick(&nodes);
            reach(a)
        }
        _ => {
            // grown along links
            let mut s = Set::from([*c.rng.pick(&nodes)]);
            for _ in 0..c.rng.below(8) {
                let v: Vec<_> = s.iter().copied().collect();
                let n = *c.rng.pick(&v);
                let dir = *c.rng.pick(&DIRS);
                let nb = m.nbrs(n, dir);
                if !nb.is_empty() {
                    s.insert(*c.rng.pick(&nb));
                }
            }
            s
        }
    };
    for _ in 0..c.rng.weighted(&[6, 3, 1]) {
        let n = *c.rng.pick(&nodes);
        if !s.remove(&n) {
            s.insert(n);
        }
    }
    s
}

pub fn some_ports(c: &mut Case, m: &Model, set: &Set, dir: Direction) -> Vec<PortIndex> {
    let k = c.rng.below(11);
    let mut v: Vec<PortIndex> = set.iter().flat_map(|n| &m.nodes[n][d(dir)]).copied().filter(|_| c.rng.chance(k, 10)).collect();
    c.rng.shuffle(&mut v);
    v
}
