//! C16: lowest common ancestors match the hierarchy.

use ::portgraph::algorithms::{lca, LCA};
use ::portgraph::view::{Region, Subgraph};
use std::collections::BTreeSet;
use vpharness::ensure_eq;
use vpharness::forest::Forest;
use vpharness::gen::*;
use vpharness::graphchecks::{Multi, Plain};
use vpharness::hist::Gut;
use vpharness::model::*;
use vpharness::run::*;

fn judge(c: &mut Case, l: &LCA, f: &Forest, nodes: &[usize], pairs: Option<usize>) {
    let one = |c: &mut Case, a: usize, b: usize| {
        let anc = f.ancestors(a);
        let exp = if anc.len() < 1000 {
            anc.iter().copied().find(|x| f.is_anc_or_eq(*x, b))
        } else {
            let of_b: BTreeSet<usize> = f.ancestors(b).into_iter().collect();
            anc.iter().copied().find(|x| of_b.contains(x))
        };
        ensure_eq!(l.lca(ni(a), ni(b)).map(|n| n.index()), exp, "lca", "lca({a}, {b})");
        ensure_eq!(l.is_ancestor(ni(a), ni(b)), f.is_anc_or_eq(a, b), "is_ancestor", "is_ancestor({a}, {b})");
        ensure_eq!(l.root(ni(a)).index(), *anc.last().unwrap(), "root", "root({a})");
        c.count("pairs", 1);
        c.max("max_depth", anc.len() as u64);
        c.count("pairs_with_common_ancestor", exp.is_some() as u64);
    };
    match pairs {
        None => {
            for a in nodes {
                for b in nodes {
                    one(c, *a, *b);
                }
            }
        }
        Some(k) => {
            for _ in 0..k {
                let (a, b) = (*c.rng.pick(nodes), *c.rng.pick(nodes));
                one(c, a, b);
                // relatives: a random ancestor, its neighbour, and the other way round
                let anc = f.ancestors(a);
                let x = *c.rng.pick(&anc);
                one(c, x, a);
                one(c, a, x);
                if let Some(p) = f.parent(x) {
                    let kids = f.kids(p);
                    let s = *c.rng.pick(&kids);
                    one(c, s, a);
                    one(c, a, s);
                }
            }
        }
    }
}

fn run_on<G: Gut>(c: &mut Case, n: usize, pairs: Option<usize>) {
    let sh = Shape { nodes: n, acyclic: false, density: c.rng.below(2), max_ports: 1 };
    let (g, m) = graph::<G>(&mut c.rng, sh);
    let nodes: Vec<usize> = m.nodes.keys().map(|n| n.index()).collect();
    let mut f = Forest::random(&mut c.rng, &nodes);
    let depth = nodes.iter().take(4000).map(|n| f.ancestors(*n).len()).take(if n > 10000 { 20 } else { n }).max().unwrap_or(0);
    c.count("forests_deeper_than_64", (depth > 64) as u64);
    c.count("forests_deeper_than_256", (depth > 256) as u64);
    // cut some subtrees off
    for _ in 0..c.rng.below(4) {
        let n = *c.rng.pick(&nodes);
        f.detach(n);
    }
    let h = f.build();
    c.log(|| format!("{f:?} nodes {nodes:?}"));
    let mut fp = 0u64;
    for (a, b) in &f.parent {
        fp = vpharness::rng::mix(fp ^ (*a as u64) << 20 ^ *b as u64);
    }
    c.feed(fp);
    let l = if c.rng.bool() { lca(&g, &h) } else { LCA::new(&g, &h) };
    judge(c, &l, &f, &nodes, pairs);
    c.nontrivial_if(f.parent.len() > 1);
}
fn small<G: Gut>(c: &mut Case) {
    let n = 1 + c.rng.below(2 + c.size);
    run_on::<G>(c, n, None)
}
fn large(c: &mut Case) {
    let n = 100 + c.rng.below(100 * c.size);
    run_on::<Plain<u16>>(c, n, Some(400))
}
/// More nodes, and longer tours, than two bytes can count.
fn huge(c: &mut Case) {
    let n = *c.rng.pick(&[33000, 66000]) + c.rng.below(500);
    run_on::<Plain<u16>>(c, n, Some(40))
}

/// The hierarchy of a view may have nodes that are not part of the view.
fn view<G: Gut>(c: &mut Case) {
    let n = 1 + c.rng.below(2 + c.size);
    let sh = Shape { nodes: n, acyclic: false, density: c.rng.below(2), max_ports: 1 };
    let (g, m) = graph::<G>(&mut c.rng, sh);
    let all: Vec<usize> = m.nodes.keys().map(|n| n.index()).collect();
    let f = Forest::random(&mut c.rng, &all);
    let h = f.build();
    c.log(|| format!("{f:?} nodes {all:?}"));
    c.feed(m.fingerprint());
    c.nontrivial_if(f.parent.len() > 1);
    let new = c.rng.bool();
    match c.rng.below(3) {
        0 => {
            let root = *c.rng.pick(&all);
            let nodes: Vec<usize> = f.descendants(root);
            c.log(|| format!("region of {root}"));
            let v = Region::new(&g, &h, ni(root));
            let l = if new { LCA::new(&v, &h) } else { lca(&v, &h) };
            judge(c, &l, &f, &nodes, None)
        }
        1 => {
            let k = Keep::random(&mut c.rng, &m);
            let nodes: Vec<usize> = k.apply(&m).nodes.keys().map(|n| n.index()).collect();
            c.log(|| format!("filtered to {nodes:?}"));
            let v = filtered(&g, k);
            let l = if new { LCA::new(&v, &h) } else { lca(&v, &h) };
            judge(c, &l, &f, &nodes, None)
        }
        _ => {
            let nodes: Vec<usize> = all.iter().copied().filter(|_| c.rng.bool()).collect();
            c.log(|| format!("subgraph of {nodes:?}"));
            let some: BTreeSet<_> = nodes.iter().map(|n| ni(*n)).collect();
            let v = Subgraph::with_nodes(&g, some);
            let l = if new { LCA::new(&v, &h) } else { lca(&v, &h) };
            judge(c, &l, &f, &nodes, None)
        }
    }
}

pub static CHECK: Check = Check {
    prop: "C16",
    rule: "random forests of many shapes over random graphs; every pair of nodes (sampled for large forests) compared with a walk over the forest; non-trivial if at least two nodes have a parent",
    assumptions: &["the hierarchy relates nodes of the underlying graph only"],
    suites: &[
        Suite { name: "view", quick: 300000, thorough: 1500000, max_size: 16, f: view::<Plain<u16>> },
        Suite { name: "view_multi", quick: 80000, thorough: 500000, max_size: 16, f: view::<Multi<u16>> },
        Suite { name: "small", quick: 600000, thorough: 2500000, max_size: 24, f: small::<Plain<u16>> },
        Suite { name: "multi", quick: 150000, thorough: 500000, max_size: 24, f: small::<Multi<u16>> },
        Suite { name: "large", quick: 2000, thorough: 80000, max_size: 30, f: large },
        Suite { name: "huge", quick: 24, thorough: 600, max_size: 4, f: huge },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
