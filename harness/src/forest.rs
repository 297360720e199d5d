//! Reference model of a hierarchy: an ordered forest.

use crate::itercheck;
use crate::model::ni;
use crate::rng::Rng;
use ::portgraph::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Forest {
    pub parent: BTreeMap<usize, usize>,
    /// Only non-empty lists.
    pub children: BTreeMap<usize, Vec<usize>>,
}

impl Forest {
    pub fn kids(&self, n: usize) -> &[usize] {
        self.children.get(&n).map_or(&[], |v| v)
    }
    pub fn parent(&self, n: usize) -> Option<usize> {
        self.parent.get(&n).copied()
    }
    pub fn is_anc_or_eq(&self, a: usize, mut n: usize) -> bool {
        loop {
            if a == n {
                return true;
            }
            match self.parent(n) {
                Some(p) => n = p,
                None => return false,
            }
        }
    }
    pub fn ancestors(&self, mut n: usize) -> Vec<usize> {
        let mut v = vec![n];
        while let Some(p) = self.parent(n) {
            v.push(p);
            n = p;
        }
        v
    }
    /// Breadth first, including the node itself.
    pub fn descendants(&self, n: usize) -> Vec<usize> {
        let mut q = VecDeque::from([n]);
        let mut v = vec![];
        while let Some(x) = q.pop_front() {
            v.push(x);
            q.extend(self.kids(x));
        }
        v
    }
    pub fn attach(&mut self, n: usize, p: usize, at: usize) {
        self.parent.insert(n, p);
        self.children.entry(p).or_default().insert(at, n);
    }
    pub fn detach(&mut self, n: usize) -> Option<usize> {
        let p = self.parent.remove(&n)?;
        let v = self.children.get_mut(&p).unwrap();
        v.retain(|x| *x != n);
        if v.is_empty() {
            self.children.remove(&p);
        }
        Some(p)
    }
    pub fn detach_children(&mut self, n: usize) {
        for k in self.children.remove(&n).unwrap_or_default() {
            self.parent.remove(&k);
        }
    }
    pub fn rename(&mut self, f: impl Fn(usize) -> usize) {
        self.parent = self.parent.iter().map(|(a, b)| (f(*a), f(*b))).collect();
        self.children = self.children.iter().map(|(a, v)| (f(*a), v.iter().map(|x| f(*x)).collect())).collect();
    }
    pub fn build(&self) -> Hierarchy {
        let mut h = Hierarchy::new();
        for (p, v) in &self.children {
            for k in v {
                h.push_child(ni(*k), ni(*p)).expect("forest");
            }
        }
        h
    }
    pub fn members(&self) -> BTreeSet<usize> {
        self.parent.keys().chain(self.children.keys()).copied().collect()
    }
    /// A random forest over the given nodes.
    pub fn random(rng: &mut Rng, nodes: &[usize]) -> Forest {
        let mut f = Forest::default();
        let mut order = nodes.to_vec();
        rng.shuffle(&mut order);
        let style = rng.below(8);
        // usually several trees, sometimes a single one that is as deep as its shape allows
        let sparse = [4, 10, 50, 0][rng.below(4)];
        let trunk = 1 + rng.below(order.len().max(1));
        for (i, &n) in order.iter().enumerate() {
            if i == 0 || sparse > 0 && rng.chance(1, sparse) {
                continue;
            }
            let p = match style {
                0 => order[i - 1],                         // chain
                1 => order[0],                             // star
                2 => order[(i - 1) / 2],                   // binary
                3 => order[i - 1 - rng.below(i.min(3))],   // deep
                4 if i < trunk => order[i - 1],            // a long trunk with branches
                5 if i < trunk => order[i - 1],            // a long trunk with leaves at its end
                5 => order[trunk - 1],
                6 if i < 4 => order[0],                    // several long branches
                6 => order[i - 3],
                _ => order[rng.below(i)],
            };
            // (in the middle of a long list takes long)
            let k = f.kids(p).len();
            let at = if k > 4000 { k } else { rng.below(k + 1) };
            f.attach(n, p, at);
        }
        f
    }
}
/// Compares every query of the hierarchy with the model, for the indices `0..upto`.
pub fn check_forest(h: &Hierarchy, f: &Forest, upto: usize, rng: &mut Rng) {
    if crate::run::lean_skip() {
        return;
    }
    let mx = |v: Vec<NodeIndex>| v.into_iter().map(|n| n.index()).collect::<Vec<_>>();
    for i in 0..upto {
        let n = ni(i);
        let p = f.parent(i);
        ensure_eq!(h.parent(n).map(|x| x.index()), p, "parent", "parent({i})");
        ensure_eq!(h.is_root(n), p.is_none(), "is_root", "is_root({i})");
        let kids = f.kids(i);
        ensure_eq!(h.child_count(n), kids.len(), "child_count", "child_count({i})");
        ensure_eq!(h.has_children(n), !kids.is_empty(), "has_children", "has_children({i})");
        ensure_eq!(h.first(n).map(|x| x.index()), kids.first().copied(), "first", "first({i})");
        ensure_eq!(h.last(n).map(|x| x.index()), kids.last().copied(), "last", "last({i})");
        // never loop forever over a broken list
        let got = mx(h.children(n).take(upto + 2).collect());
        ensure_eq!(got, kids, "children", "children({i})");
        let got = mx(h.children(n).rev().take(upto + 2).collect());
        let rev: Vec<_> = kids.iter().rev().copied().collect();
        ensure_eq!(got, rev, "children-rev", "children({i}) from the back");
        let (prev, next) = match p {
            None => (None, None),
            Some(p) => {
                let s = f.kids(p);
                let k = s.iter().position(|x| *x == i).unwrap();
                (k.checked_sub(1).map(|k| s[k]), s.get(k + 1).copied())
            }
        };
        ensure_eq!(h.next(n).map(|x| x.index()), next, "next", "next({i})");
        ensure_eq!(h.prev(n).map(|x| x.index()), prev, "prev", "prev({i})");
        let got = mx(h.descendants(n).take(upto + 2).collect());
        ensure_eq!(got, f.descendants(i), "descendants", "descendants({i})");
    }
    if upto > 0 {
        let n = ni(rng.below(upto));
        itercheck::seq(h.descendants(n), "descendants");
        if f.kids(n.index()).len() > 1 {
            itercheck::dei(rng, || h.children(n), "children");
            itercheck::exact_dei(rng, || h.children(n), "children");
        }
    }
}
