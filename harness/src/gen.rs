//! Random graphs, forests, filters and view stacks for the checks that query a fixed graph.

use crate::hist::Gut;
use crate::model::*;
use crate::rng::Rng;
use crate::run::Case;
use ::portgraph::*;
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug)]
pub struct Shape {
    pub nodes: usize,
    pub acyclic: bool,
    /// Links attempted per node.
    pub density: usize,
    pub max_ports: usize,
}

/// A random shape up to the case's size.
pub fn shape(c: &mut Case, max_nodes: usize) -> Shape {
    let n = 1 + c.rng.below(max_nodes.min(2 + c.size));
    Shape { nodes: n, acyclic: c.rng.bool(), density: *c.rng.pick(&[0, 1, 1, 2, 2, 3, 5]), max_ports: *c.rng.pick(&[1, 2, 2, 3, 3, 4, 6]) }
}

/// Like `shape`, and every now and then a much larger one.
pub fn shape_big(c: &mut Case, max_nodes: usize) -> Shape {
    let mut s = shape(c, max_nodes);
    if c.size >= 10 && c.rng.chance(1, 60) {
        s.nodes = 20 + c.rng.below(100);
        s.density = s.density.min(2);
        if !cfg!(miri) && c.rng.chance(1, 30) {
            s.nodes = 200 + c.rng.below(400);
        }
    }
    s
}

/// A random graph: gaps in the indices, self-links (unless acyclic), parallel links, several links
/// per port where allowed, isolated and port-less nodes; local or global wiring.
pub fn graph<G: Gut>(rng: &mut Rng, s: Shape) -> (G, Model) {
    let mut g = G::default();
    let mut m = Model::default();
    let gaps = rng.chance(1, 2);
    let hub = if rng.chance(1, 8) { rng.below(s.nodes) } else { usize::MAX };
    // more ports than fit in a byte
    let fat = !cfg!(miri) && hub != usize::MAX && rng.chance(1, 120) && G::max_offset() > 700;
    let mut victims = vec![];
    let mut nodes = vec![];
    let mut fat_node = None;
    // indices longer than one or two bytes
    let skip = match rng.below(3000) {
        _ if cfg!(miri) => 0,
        0 => 66000,
        1..=60 => 260,
        _ => 0,
    };
    let skipped: Vec<NodeIndex> = (0..skip).map(|_| g.add_node(1, 0)).collect();
    for k in 0..s.nodes {
        if gaps && rng.chance(1, 4) {
            victims.push(g.add_node(rng.below(3), rng.below(3)));
        }
        let extra = match k == hub {
            true if fat => 250 + rng.below(30),
            true => 4 * s.max_ports + rng.below(8),
            false => 0,
        };
        let (i, o) = (rng.below(s.max_ports + 1) + extra, rng.below(s.max_ports + 1) + extra);
        nodes.push(g.add_node(i, o));
        if k == hub && fat {
            fat_node = nodes.last().copied();
        }
        if gaps && rng.chance(1, 6) && !victims.is_empty() {
            let k = rng.below(victims.len());
            g.remove_node(victims.swap_remove(k));
        }
    }
    let keep_last = rng.chance(1, 3);
    for (i, v) in victims.into_iter().enumerate() {
        if !(keep_last && i == 0) {
            g.remove_node(v);
        } else {
            nodes.push(v);
        }
    }
    for n in skipped {
        g.remove_node(n);
    }
    // moved port ranges, and node indices out of step with them
    if rng.chance(1, 3) {
        for _ in 0..1 + nodes.len() / 3 {
            let n = *rng.pick(&nodes);
            let (i, o) = (rng.below(s.max_ports + 1), rng.below(s.max_ports + 1));
            g.set_num_ports(n, i, o, |_, _| {});
        }
    }
    if rng.chance(1, 3) {
        for _ in 0..1 + nodes.len() / 3 {
            let (x, y) = (*rng.pick(&nodes), *rng.pick(&nodes));
            g.swap_nodes(x, y);
        }
    }
    for &n in &nodes {
        m.add_node(n, g.inputs(n).collect(), g.outputs(n).collect());
    }
    // an order for acyclic graphs, unrelated to the indices half of the time
    let mut order: Vec<NodeIndex> = m.nodes.keys().copied().collect();
    if rng.bool() {
        rng.shuffle(&mut order);
    }
    let window = if rng.bool() { order.len() } else { (1 + rng.below(4)).min(order.len()) };
    let k = order.len();
    // worn graphs lost some of their links, and may have got new ones since
    let wear = if rng.chance(1, 3) { 1 + rng.below(2) } else { 0 };
    for round in 0..=wear {
        let at_hub = match fat_node.and_then(|n| order.iter().position(|x| *x == n)) {
            Some(p) if s.density > 0 => vec![p; 300],
            _ => vec![],
        };
        for step in 0..k * s.density + at_hub.len() {
            let a = *at_hub.get(step).unwrap_or(&rng.below(k));
            let b = if !at_hub.is_empty() && s.acyclic && step < at_hub.len() {
                // anywhere behind
                if a + 1 >= k {
                    continue;
                }
                rng.range(a + 1, k - 1)
            } else if s.acyclic {
                if a + 1 >= k {
                    continue;
                }
                a + 1 + rng.below(window.min(k - a - 1))
            } else if window == k {
                rng.below(k)
            } else {
                (a + k - window + rng.below(2 * window + 1)) % k
            };
            let (a, b) = (order[a], order[b]);
            let (outs, ins) = (&m.nodes[&a][1], &m.nodes[&b][0]);
            if outs.is_empty() || ins.is_empty() {
                continue;
            }
            let (mut p, mut q) = (*rng.pick(outs), *rng.pick(ins));
            if !G::MULTI && (m.linked(p) || m.linked(q)) {
                // look for a free pair
                match (outs.iter().find(|p| !m.linked(**p)), ins.iter().find(|p| !m.linked(**p))) {
                    (Some(x), Some(y)) => (p, q) = (*x, *y),
                    _ => continue,
                }
            }
            let r = if rng.bool() { g.link_ports(p, q) } else { g.link_ports(q, p).map(|(x, y)| (y, x)) };
            let (x, y) = r.expect("free ports of opposite directions");
            use crate::model::Ep;
            m.link(x.end(), y.end());
        }
        if round < wear || wear == 1 {
            let drop = 1 + rng.below(3);
            let ends: Vec<End> = m.links.keys().copied().filter(|_| rng.chance(drop, 6)).collect();
            for x in ends {
                // may be gone already, as the other end of another one
                if m.links.contains_key(&x) {
                    if G::MULTI && rng.chance(5, 6) {
                        g.unlink_sub(x);
                        m.unlink_end(x);
                    } else {
                        g.unlink_port(x.0);
                        m.unlink_all(x.0);
                    }
                }
            }
        }
    }
    (g, m)
}

/// Which nodes and links a filter keeps, handed to the filters of the library as their context.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Keep {
    pub nodes: BTreeSet<NodeIndex>,
    pub blocked: BTreeSet<PortIndex>,
}

impl Keep {
    pub fn random(rng: &mut Rng, m: &Model) -> Keep {
        let (drop_n, drop_p) = (*rng.pick(&[0usize, 0, 1, 2, 4, 8]), *rng.pick(&[0usize, 0, 1, 2, 4]));
        let mut nodes: BTreeSet<_> = m.nodes.keys().copied().filter(|_| !rng.chance(drop_n, 10)).collect();
        if rng.chance(1, 40) {
            nodes.clear();
        }
        let blocked = m.ports.keys().copied().filter(|_| rng.chance(drop_p, 10)).collect();
        Keep { nodes, blocked }
    }
    pub fn node(n: NodeIndex, k: &Keep) -> bool {
        k.nodes.contains(&n)
    }
    pub fn link(p: PortIndex, k: &Keep) -> bool {
        !k.blocked.contains(&p)
    }
    pub fn apply(&self, m: &Model) -> Model {
        m.restrict(|n| self.nodes.contains(&n), |a, b| !self.blocked.contains(&a.0) && !self.blocked.contains(&b.0))
    }
}

pub type Filt<G> = FilteredGraph<G, view::NodeFilter<Keep>, view::LinkFilter<Keep>, Keep>;
use ::portgraph::view::FilteredGraph;

pub fn filtered<G: Clone>(g: G, k: Keep) -> Filt<G> {
    FilteredGraph::new(g, Keep::node as view::NodeFilter<Keep>, Keep::link as view::LinkFilter<Keep>, k)
}

/// A chain of more nodes than fit in two bytes, with some links that bypass a few of them; returns
/// the nodes in the order of the chain.
pub fn long_chain<G: Gut>(c: &mut Case, n: usize) -> (G, Model, Vec<NodeIndex>) {
    use crate::model::Ep;
    let mut g = G::default();
    let mut m = Model::default();
    let mut order: Vec<NodeIndex> = (0..n).map(|_| g.add_node(2, 2)).collect();
    match c.rng.below(3) {
        0 => (),
        1 => order.reverse(),
        _ => c.rng.shuffle(&mut order),
    }
    for &n in &order {
        m.add_node(n, g.inputs(n).collect(), g.outputs(n).collect());
    }
    let mut taken = BTreeSet::new();
    for i in 1..n {
        let (a, b) = (order[i - 1], order[i]);
        let (x, y) = g.link_nodes(a, 0, b, 0).expect("free ports");
        m.link(x.end(), y.end());
        let j = i + 1 + c.rng.below(30);
        if j < n && c.rng.chance(1, 8) && taken.insert(j) {
            let (x, y) = g.link_nodes(a, 1, order[j], 1).expect("free ports");
            m.link(x.end(), y.end());
        }
    }
    (g, m, order)
}

/// More than two bytes can count.
pub fn huge_count(c: &mut Case) -> usize {
    65_530 + c.rng.below(500)
}
