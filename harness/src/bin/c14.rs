//! C14: post-order visits every reachable node once, in depth-first order.

use ::portgraph::algorithms::{postorder, postorder_filtered};
use ::portgraph::*;
use std::collections::BTreeSet;
use vpharness::gen::*;
use vpharness::graphchecks::Plain;
use vpharness::model::*;
use vpharness::run::*;
use vpharness::{ensure, ensure_eq, itercheck};

/// Recursive depth-first search with an explicit stack of (node, remaining targets).
fn reference(m: &Model, sources: &[NodeIndex], dir: Direction) -> Vec<NodeIndex> {
    let mut seen = BTreeSet::new();
    let mut out = vec![];
    for s in sources {
        if !m.nodes.contains_key(s) || !seen.insert(*s) {
            continue;
        }
        let mut stack = vec![(*s, m.nbrs(*s, dir).into_iter())];
        while let Some((n, it)) = stack.last_mut() {
            match it.next() {
                None => {
                    out.push(*n);
                    stack.pop();
                }
                Some(t) => {
                    if seen.insert(t) {
                        stack.push((t, m.nbrs(t, dir).into_iter()));
                    }
                }
            }
        }
    }
    out
}

fn run_on(c: &mut Case, sh: Shape) {
    let (g, m) = graph::<Plain<u16>>(&mut c.rng, sh);
    let dir = *c.rng.pick(&DIRS);
    let mut sources: Vec<NodeIndex> = m.nodes.keys().copied().collect();
    c.rng.shuffle(&mut sources);
    if c.rng.chance(3, 4) {
        sources.truncate(1 + c.rng.below(4));
    }
    if c.rng.chance(1, 4) && !sources.is_empty() {
        let x = *c.rng.pick(&sources);
        sources.push(x);
    }
    let k = Keep::random(&mut c.rng, &m);
    let fm = k.apply(&m);
    c.log(|| format!("{} | dir {dir:?} sources {sources:?} keep {k:?}", m.describe()));
    c.feed(m.fingerprint());
    c.feed(fm.fingerprint());
    let got = itercheck::seq(postorder(&g, sources.iter().copied(), dir), "postorder");
    let exp = reference(&m, &sources, dir);
    ensure_eq!(got, exp, "sequence", "postorder from {sources:?}");
    let nf = |n| Keep::node(n, &k);
    let pf = |n: NodeIndex, q: PortIndex| {
        ensure_eq!(m.node(q), n, "filter-args", "node handed to the port filter with {q:?}");
        Keep::link(q, &k)
    };
    let gotf = itercheck::seq(postorder_filtered(&g, sources.iter().copied(), dir, nf, pf), "postorder_filtered");
    let expf = reference(&fm, &sources, dir);
    ensure_eq!(gotf, expf, "filtered", "filtered postorder from {sources:?}");
    // the definition itself: after everything reachable that does not lead back
    let at: std::collections::HashMap<NodeIndex, usize> = gotf.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    let mut late = 0;
    for (i, n) in gotf.iter().enumerate() {
        for t in fm.nbrs(*n, dir) {
            let j = at.get(&t).copied();
            ensure!(j.is_some(), "closed", "{t:?} is reachable from {n:?}, but missing");
            if j.unwrap() > i {
                late += 1;
                if late > 1000 {
                    continue;
                }
                ensure!(reference(&fm, &[t], dir).contains(n), "late", "{n:?} comes before {t:?}, which does not lead back to it");
            }
        }
    }
    c.count("nodes_yielded", (got.len() + gotf.len()) as u64);
    c.nontrivial_if(gotf.len() > 2);
}
fn small(c: &mut Case) {
    let sh = shape_big(c, 30);
    run_on(c, sh)
}
fn large(c: &mut Case) {
    let sh = Shape { nodes: 50 + c.rng.below(20 * c.size), acyclic: c.rng.bool(), density: 2, max_ports: 4 };
    run_on(c, sh)
}
/// More nodes than two bytes can count.
fn huge(c: &mut Case) {
    let sh = Shape { nodes: huge_count(c), acyclic: c.rng.chance(3, 4), density: 1, max_ports: 3 };
    run_on(c, sh)
}

pub static CHECK: Check = Check {
    prop: "C14",
    rule: "random graphs, start nodes (with repetitions), directions and filters; the whole sequence compared with a recursive depth-first search and its size estimates with the items left; non-trivial if more than two nodes are yielded",
    assumptions: &["start nodes are nodes of the graph"],
    suites: &[
        Suite { name: "small", quick: 1200000, thorough: 10000000, max_size: 40, f: small },
        Suite { name: "large", quick: 1600, thorough: 20000, max_size: 40, f: large },
        Suite { name: "huge", quick: 8, thorough: 200, max_size: 4, f: huge },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
