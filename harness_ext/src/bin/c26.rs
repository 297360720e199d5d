//! C26: the random graphs supplied for property testing.

use ::portgraph::proptest::{gen_multiportgraph, gen_node_index, gen_portgraph, GenPortGraphParams};
use ::portgraph::*;
use ::proptest::prelude::*;
use ::proptest::strategy::ValueTree;
use ::proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::collections::BTreeSet;
use std::fmt::Debug;
use vpharness::run::*;
use vpharness::{ensure, ensure_eq};

fn runner(seed: u64) -> TestRunner {
    let mut s = [0u8; 32];
    for (i, b) in s.chunks_mut(8).enumerate() {
        b.copy_from_slice(&vpharness::rng::mix(seed.wrapping_add(i as u64)).to_le_bytes());
    }
    let config = Config { failure_persistence: None, ..Config::default() };
    TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &s))
}

#[derive(Clone, Copy, Debug)]
struct Bounds {
    nodes: usize,
    ports: usize,
    edges: usize,
}
impl Bounds {
    fn random(c: &mut Case) -> Self {
        let r = &mut c.rng;
        let nodes = 1 + r.small(6, 40);
        let ports = r.small(4, 12);
        let edges = match r.below(4) {
            0 => 0,
            // Often more than fit.
            1 => 2 * nodes * ports + 1,
            _ => r.small(8, 60),
        };
        Bounds { nodes, ports, edges }
    }
}

fn judge<G: LinkView + Debug>(c: &mut Case, g: &G, b: Bounds, single: bool) {
    let n = g.node_count();
    ensure!(n >= 1, "empty", "{b:?}: the graph has no nodes");
    ensure!(n <= b.nodes, "too-many-nodes", "{b:?}: the graph has {n} nodes");
    ensure!(g.link_count() <= b.edges, "too-many-links", "{b:?}: the graph has {} links", g.link_count());
    let mut links = 0;
    let mut total = 0;
    ensure_eq!(g.nodes_iter().count(), n, "nodes_iter", "nodes listed");
    for v in g.nodes_iter() {
        for d in Direction::BOTH {
            let k = g.num_ports(v, d);
            ensure!(k <= b.ports, "too-many-ports", "{b:?}: node {v:?} has {k} {d:?} ports");
            total += k;
            for p in g.ports(v, d) {
                let own: Vec<_> = g.port_links(p).collect();
                ensure!(!single || own.len() <= 1, "links-of-port", "{b:?}: a port has {} links", own.len());
                if d == Direction::Outgoing {
                    links += own.len();
                }
                for (x, y) in own {
                    let (x, y): (PortIndex, PortIndex) = (x.into(), y.into());
                    ensure_eq!(x, p, "link-port", "port of a link");
                    ensure_eq!(g.port_direction(y), Some(d.reverse()), "link-direction", "{b:?}: direction of the other end of {p:?}");
                }
            }
        }
    }
    ensure_eq!(links, g.link_count(), "link-count", "links counted at their sources");
    ensure_eq!(total, g.port_count(), "port-count", "ports counted at their nodes");
    c.nontrivial_if(links > 1);
    c.feed((n as u64) << 40 | (total as u64) << 20 | links as u64);
    c.count("graphs", 1);
    c.count("links", links as u64);
    c.max("max_nodes", n as u64);
    c.max("max_links", links as u64);
}

fn run_strategy<G: LinkView + Debug + PartialEq + Clone>(c: &mut Case, s: impl Strategy<Value = G>, b: Bounds, single: bool) {
    let seed = c.rng.u64();
    c.log(|| format!("{b:?} seed {seed}"));
    let t1 = must("generating", || s.new_tree(&mut runner(seed)));
    let t2 = must("generating", || s.new_tree(&mut runner(seed)));
    let (mut t1, mut t2) = match (t1, t2) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => vio("refused", format!("{b:?}: no graph is generated: {e}")),
    };
    let g = must("current", || t1.current());
    judge(c, &g, b, single);
    ensure!(g == t2.current(), "same-seed", "{b:?}: the same seed gives different graphs");
    ensure!(g == t1.current(), "same-state", "{b:?}: asking again for the same graph gives a different one");
    // Shrinking.
    for step in 0..30 {
        let more = if c.rng.chance(1, 4) {
            let more = must("complicate", || t1.complicate());
            ensure_eq!(t2.complicate(), more, "same-seed", "complicate after {step} steps");
            more
        } else {
            let more = must("simplify", || t1.simplify());
            ensure_eq!(t2.simplify(), more, "same-seed", "simplify after {step} steps");
            more
        };
        let g = must("current", || t1.current());
        judge(c, &g, b, single);
        ensure!(g == t2.current(), "same-seed", "{b:?}: the same seed gives different graphs after {step} steps");
        c.count("shrink steps", 1);
        if !more && c.rng.bool() {
            break;
        }
    }
}

fn plain(c: &mut Case) {
    let b = Bounds::random(c);
    if c.rng.bool() {
        run_strategy(c, gen_portgraph(b.nodes, b.ports, b.edges), b, true)
    } else {
        let p = GenPortGraphParams { max_n_nodes: b.nodes, max_n_ports: b.ports, max_n_edges: b.edges };
        run_strategy(c, any_with::<PortGraph>(p), b, true)
    }
}
fn multi(c: &mut Case) {
    let b = Bounds::random(c);
    if c.rng.bool() {
        run_strategy(c, gen_multiportgraph(b.nodes, b.ports, b.edges), b, false)
    } else {
        let p = GenPortGraphParams { max_n_nodes: b.nodes, max_n_ports: b.ports, max_n_edges: b.edges };
        run_strategy(c, any_with::<MultiPortGraph>(p), b, false)
    }
}

/// With the default parameters.
fn default(c: &mut Case) {
    let b = Bounds { nodes: 100, ports: 4, edges: 200 };
    if c.rng.bool() {
        run_strategy(c, any::<PortGraph>(), b, true)
    } else {
        run_strategy(c, any::<MultiPortGraph>(), b, false)
    }
}

/// A node of the graph: any of them.
fn node(c: &mut Case) {
    // A graph with holes.
    let mut g = PortGraph::new();
    let k = 1 + c.rng.below(6);
    let mut nodes = vec![];
    for _ in 0..k + 3 {
        nodes.push(g.add_node(c.rng.below(2), c.rng.below(2)));
    }
    for _ in 0..3 {
        let i = c.rng.below(nodes.len());
        g.remove_node(nodes.remove(i));
    }
    let want: BTreeSet<NodeIndex> = nodes.iter().copied().collect();
    let seed = c.rng.u64();
    c.log(|| format!("nodes {want:?} seed {seed}"));
    c.feed(seed);
    c.nontrivial_if(k > 1);
    let mut r = runner(seed);
    let s = gen_node_index(Just(g.clone()));
    let mut seen = BTreeSet::new();
    for _ in 0..60 * k {
        let t = must("generating", || s.new_tree(&mut r)).unwrap_or_else(|e| vio("refused", e.to_string()));
        let (h, n) = t.current();
        ensure!(h == g, "graph", "the graph changed");
        ensure!(g.contains_node(n), "absent-node", "picked the absent node {n:?} from {want:?}");
        seen.insert(n);
    }
    ensure_eq!(seen, want, "unreached-node", "nodes picked in {} attempts", 60 * k);
    // Composed with the generator.
    let b = Bounds::random(c);
    let s = gen_node_index(gen_portgraph(b.nodes, b.ports, b.edges));
    let mut t = must("generating", || s.new_tree(&mut r)).unwrap_or_else(|e| vio("refused", e.to_string()));
    for _ in 0..10 {
        let (h, n) = must("current", || t.current());
        judge(c, &h, b, true);
        ensure!(h.contains_node(n), "absent-node", "{b:?}: picked the absent node {n:?}");
        if !t.simplify() {
            break;
        }
    }
}

pub static CHECK: Check = Check {
    prop: "C26",
    rule: "random bounds and seeds; every generated graph and every step of shrinking is inspected, and generated twice from the same seed; non-trivial if the graph has at least two links",
    assumptions: &["the bounds allow for a node"],
    suites: &[
        Suite { name: "plain", quick: 15000, thorough: 300000, max_size: 16, f: plain },
        Suite { name: "multi", quick: 15000, thorough: 300000, max_size: 16, f: multi },
        Suite { name: "default", quick: 500, thorough: 10000, max_size: 16, f: default },
        Suite { name: "node", quick: 4000, thorough: 80000, max_size: 16, f: node },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
