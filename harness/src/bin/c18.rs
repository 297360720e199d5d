//! C18: the dynamic checker follows every edit.

use ::portgraph::algorithms::{ConvexChecker, DynamicTopoConvexChecker, TopoConvexChecker};
use ::portgraph::*;
use std::fmt::Debug;
use vpharness::convexity::*;
use vpharness::gen::*;
use vpharness::graphchecks::{Multi, Plain};
use vpharness::hist::Gut;
use vpharness::model::*;
use vpharness::run::*;
use vpharness::{ensure, ensure_eq};

type Dyn<G> = DynamicTopoConvexChecker<G>;

struct Run<G: Gut> {
    dyn_: Dyn<G>,
    /// The same edits made to a plain copy of the graph.
    g: G,
    m: Model,
    succ: Succ,
    /// Nodes that were removed at some time.
    gone: Vec<NodeIndex>,
}

fn reaches(succ: &Succ, from: NodeIndex, to: NodeIndex) -> bool {
    let mut seen = Set::from([from]);
    let mut todo = vec![from];
    while let Some(n) = todo.pop() {
        if n == to {
            return true;
        }
        for t in &succ[&n] {
            if seen.insert(*t) {
                todo.push(*t);
            }
        }
    }
    false
}

impl<G: Gut> Run<G>
where
    G::PortOffsetBase: Debug,
{
    fn new(g: G) -> Self {
        let dyn_ = must("DynamicTopoConvexChecker::new", || Dyn::new(g.clone()));
        let m = read_model(&g);
        let succ = succ_of(&m);
        Run { dyn_, g, m, succ, gone: vec![] }
    }

    fn after(&mut self, c: &mut Case, what: &str) {
        self.m = read_model(&self.g);
        self.succ = succ_of(&self.m);
        let got = must("reading the graph", || read_model(&self.dyn_));
        ensure_eq!(got, self.m, format!("{what}:graph"), "graph of the checker after {what}, against the same edits made directly");
        c.count("edits", 1);
    }

    fn node(&self, c: &mut Case) -> Option<NodeIndex> {
        let v: Vec<_> = self.m.nodes.keys().copied().collect();
        (!v.is_empty()).then(|| *c.rng.pick(&v))
    }

    fn any_node(&self, c: &mut Case) -> NodeIndex {
        if c.rng.chance(1, 10) {
            if !self.gone.is_empty() && c.rng.bool() {
                return *c.rng.pick(&self.gone);
            }
            return ni(c.rng.below(40));
        }
        self.node(c).unwrap_or(ni(0))
    }

    fn any_port(&self, c: &mut Case, dir: Option<Direction>) -> PortIndex {
        let v: Vec<_> = self.m.ports.iter().filter(|(_, x)| dir.is_none() || Some(x.1) == dir).map(|(p, _)| *p).collect();
        if v.is_empty() || c.rng.chance(1, 20) {
            return pi(c.rng.below(60));
        }
        *c.rng.pick(&v)
    }

    fn link(&mut self, c: &mut Case) {
        let (mut p, mut q) = (self.any_port(c, Some(Direction::Outgoing)), self.any_port(c, Some(Direction::Incoming)));
        // prefer pairs that are free, and that do not close a cycle half of the time
        let polite = c.rng.bool();
        for _ in 0..8 {
            let (Some(a), Some(b)) = (self.m.ports.get(&p), self.m.ports.get(&q)) else { break };
            let free = G::MULTI || !self.m.linked(p) && !self.m.linked(q);
            if free && !(polite && reaches(&self.succ, b.0, a.0)) {
                break;
            }
            (p, q) = (self.any_port(c, Some(Direction::Outgoing)), self.any_port(c, Some(Direction::Incoming)));
        }
        if c.rng.chance(1, 15) {
            q = self.any_port(c, None);
        }
        if c.rng.bool() {
            (p, q) = (q, p);
        }
        let mut g2 = self.g.clone();
        let how = c.rng.below(3);
        let (x, y) = (self.m.ports.get(&p).copied(), self.m.ports.get(&q).copied());
        let cyc = match (x, y) {
            (Some(a), Some(b)) if a.1 != b.1 => {
                let (s, t) = if a.1 == Direction::Outgoing { (a.0, b.0) } else { (b.0, a.0) };
                reaches(&self.succ, t, s)
            }
            _ => false,
        };
        c.log(|| format!("link {p:?} {q:?} (variant {how}), would close a cycle: {cyc}"));
        let (exp, got) = match (how, x, y) {
            (1, Some(a), Some(b)) => {
                let o = |z: (NodeIndex, Direction, usize)| PortOffset::<G::PortOffsetBase>::new(z.1, z.2);
                (g2.link_offsets(a.0, o(a), b.0, o(b)), catch(|| self.dyn_.link_offsets(a.0, o(a), b.0, o(b))))
            }
            (2, Some(a), Some(b)) => {
                let ((a, b), _) = if a.1 == Direction::Outgoing { ((a, b), 0) } else { ((b, a), 0) };
                (g2.link_nodes(a.0, a.2, b.0, b.2), catch(|| self.dyn_.link_nodes(a.0, a.2, b.0, b.2)))
            }
            _ => (g2.link_ports(p, q), catch(|| self.dyn_.link_ports(p, q))),
        };
        // link_nodes reads the offsets its own way
        let cyc = match (how, x, y) {
            (2, Some(a), Some(b)) => {
                let (a, b) = if a.1 == Direction::Outgoing { (a, b) } else { (b, a) };
                self.m.nodes[&a.0][1].len() > a.2 && self.m.nodes[&b.0][0].len() > b.2 && reaches(&self.succ, b.0, a.0)
            }
            _ => cyc,
        };
        match (exp, got) {
            (Ok(_), Ok(Ok(r))) if cyc => vio("cycle", format!("linking {p:?} and {q:?} closes a directed cycle, but gave {r:?}")),
            (Ok(e), Ok(Ok(r))) => {
                ensure_eq!((r.0.end(), r.1.end()), (e.0.end(), e.1.end()), "link-value", "result of linking {p:?} and {q:?}");
                self.g = g2;
                c.count("links", 1);
            }
            (_, Ok(Err(_)) | Err(_)) if cyc => c.count("cycles_refused", 1),
            (Ok(_), Ok(Err(e))) => vio("link-refused", format!("linking {p:?} and {q:?} was refused with {e:?}")),
            (Ok(_), Err(e)) => vio("link-panic", format!("linking {p:?} and {q:?} panicked: {e}")),
            (Err(a), Ok(Err(b))) => {
                ensure_eq!(b, a, "link-error", "error for linking {p:?} and {q:?}");
                c.count("links_refused", 1);
            }
            (Err(a), r) => vio("link-error", format!("linking {p:?} and {q:?} should be refused with {a:?}, but gave {r:?}")),
        }
        self.after(c, "link");
    }

    fn step(&mut self, c: &mut Case) {
        match c.rng.weighted(&[4, 2, 14, 4, 2, 1, 1, 1, 1, 1]) {
            0 => {
                let (i, o) = (c.rng.below(4), c.rng.below(4));
                c.log(|| format!("add_node {i} {o}"));
                let (e, r) = (self.g.add_node(i, o), must("add_node", || self.dyn_.add_node(i, o)));
                ensure_eq!(r, e, "add", "index of the new node");
                self.after(c, "add_node");
            }
            1 => {
                let n = self.any_node(c);
                c.log(|| format!("remove_node {n:?}"));
                self.g.remove_node(n);
                must("remove_node", || self.dyn_.remove_node(n));
                self.gone.push(n);
                self.after(c, "remove_node");
            }
            2 => self.link(c),
            3 => {
                let p = self.any_port(c, None);
                c.log(|| format!("unlink_port {p:?}"));
                let (e, r) = (self.g.unlink_port(p), must("unlink_port", || self.dyn_.unlink_port(p)));
                ensure_eq!(r.map(|x| x.end()), e.map(|x| x.end()), "unlink", "result of unlinking {p:?}");
                self.after(c, "unlink_port");
            }
            4 => {
                let n = self.any_node(c);
                let (i, o) = (c.rng.below(5), c.rng.below(5));
                c.log(|| format!("set_num_ports {n:?} {i} {o}"));
                if !self.m.nodes.contains_key(&n) {
                    return;
                }
                let (mut a, mut b) = (vec![], vec![]);
                self.g.set_num_ports(n, i, o, |p, x| a.push((p, x)));
                must("set_num_ports", || self.dyn_.set_num_ports(n, i, o, |p, x| b.push((p, x))));
                ensure_eq!(b, a, "resize-reports", "moves reported");
                self.after(c, "set_num_ports");
            }
            5 => {
                let (a, b) = (self.any_node(c), self.any_node(c));
                let cap = self.g.node_capacity().max(1);
                let (a, b) = (ni(a.index() % cap), ni(b.index() % cap));
                c.log(|| format!("swap_nodes {a:?} {b:?}"));
                if self.g.internal_node(a) || self.g.internal_node(b) || self.g.node_count() == 0 {
                    return;
                }
                let mut g2 = self.g.clone();
                match catch(|| g2.swap_nodes(a, b)) {
                    Ok(()) => {
                        must("swap_nodes", || self.dyn_.swap_nodes(a, b));
                        self.g = g2;
                        self.gone.extend([a, b]);
                        self.after(c, "swap_nodes");
                    }
                    Err(_) => c.count("swaps_out_of_range", 1),
                }
            }
            6 => {
                c.log(|| "compact_nodes".into());
                let (mut a, mut b) = (vec![], vec![]);
                self.gone.extend(self.m.nodes.keys());
                self.g.compact_nodes(|x, y| a.push((x, y)));
                must("compact_nodes", || self.dyn_.compact_nodes(|x, y| b.push((x, y))));
                ensure_eq!(b, a, "compact-reports", "renamings reported");
                self.after(c, "compact_nodes");
            }
            7 => {
                c.log(|| "compact_ports, shrink_to_fit, reserve".into());
                let (mut a, mut b) = (vec![], vec![]);
                self.g.compact_ports(|x, y| a.push((x, y)));
                must("compact_ports", || self.dyn_.compact_ports(|x, y| b.push((x, y))));
                ensure_eq!(b, a, "compact-reports", "renamings reported");
                self.g.shrink_to_fit();
                must("shrink_to_fit", || self.dyn_.shrink_to_fit());
                self.g.reserve(2, 5);
                must("reserve", || self.dyn_.reserve(2, 5));
                self.after(c, "compact_ports");
            }
            8 if c.rng.chance(1, 4) => {
                c.log(|| "clear".into());
                self.gone.extend(self.m.nodes.keys());
                self.g.clear();
                must("clear", || self.dyn_.clear());
                self.after(c, "clear");
            }
            9 => {
                let mut sh = shape(c, 5);
                sh.acyclic = true;
                let (o, om) = graph::<G>(&mut c.rng, sh);
                c.log(|| format!("insert_graph {}", om.describe()));
                let (a, b) = (self.g.insert_graph(&o), must("insert_graph", || self.dyn_.insert_graph(&o)));
                ensure_eq!(b, a, "insert", "result of insert_graph");
                self.after(c, "insert_graph");
            }
            _ => (),
        }
    }

    fn ask(&self, c: &mut Case) {
        let mut set = pick_set(c, &self.m, &self.succ);
        let (mut ins, mut outs) = (vec![], vec![]);
        if c.rng.bool() {
            ins = some_ports(c, &self.m, &set, Direction::Incoming);
            outs = some_ports(c, &self.m, &set, Direction::Outgoing);
        }
        let mut v = shuffled(c, &set);
        if c.rng.chance(1, 12) {
            // nodes that do not exist: as a fresh checker says
            set.insert(self.any_node(c));
            v = shuffled(c, &set);
            let fresh = must("DynamicTopoConvexChecker::new", || Dyn::new(self.g.clone()));
            let e = must("is_convex", || fresh.is_convex(v.clone(), ins.clone(), outs.clone()));
            let r = must("is_convex", || self.dyn_.is_convex(v.clone(), ins.clone(), outs.clone()));
            ensure_eq!(r, e, "fresh", "is_convex({v:?}, {ins:?}, {outs:?}), against a fresh checker");
            return;
        }
        let joined = outs.iter().any(|p| self.m.port_links(*p).iter().any(|(_, b)| ins.contains(&b.0)));
        let exp = !joined && convex(&self.succ, &set);
        c.log(|| format!("is_convex({v:?}, {ins:?}, {outs:?}) of {}", self.m.describe()));
        let r = must("is_convex", || self.dyn_.is_convex(v.clone(), ins.clone(), outs.clone()));
        ensure_eq!(r, exp, "convex", "is_convex({v:?}, {ins:?}, {outs:?})");
        c.count(if exp { "convex" } else { "not_convex" }, 1);
        if c.rng.chance(1, 8) {
            let t = TopoConvexChecker::new(&self.g);
            ensure_eq!(t.is_convex(v.clone(), ins.clone(), outs.clone()), r, "topo", "TopoConvexChecker built afresh, against the dynamic one");
        }
    }
}

fn history<G: Gut>(c: &mut Case)
where
    G::PortOffsetBase: Debug,
{
    let g = if c.rng.bool() {
        G::default()
    } else {
        let mut sh = shape(c, 10);
        sh.acyclic = true;
        graph::<G>(&mut c.rng, sh).0
    };
    let mut r = Run::new(g);
    c.log(|| format!("start with {}", r.m.describe()));
    let n = 4 + c.rng.below(2 * c.size + 2);
    let mut links = 0;
    for _ in 0..n {
        r.step(c);
        links = links.max(r.m.link_count());
        for _ in 0..c.rng.below(4) {
            r.ask(c);
        }
        if c.rng.chance(1, 20) {
            check_ports(&r.dyn_, &r.m, &mut c.rng, FULL, "view:");
            check_links(&r.dyn_, &r.m, FULL, "view:");
        }
    }
    c.max("max_links_at_once", links as u64);
    c.feed(r.m.fingerprint());
    check_ports(&r.dyn_, &r.m, &mut c.rng, FULL, "view:");
    check_links(&r.dyn_, &r.m, FULL, "view:");
    for _ in 0..4 {
        r.ask(c);
    }
    c.nontrivial_if(links > 1);
}

/// Many single links in a random order over a fixed set of nodes, against the given order of
/// creation: the maintained order has to change all the time.
fn rewire<G: Gut>(c: &mut Case)
where
    G::PortOffsetBase: Debug,
{
    let mut r = Run::new(G::default());
    let k = 3 + c.rng.below(4 + c.size);
    for _ in 0..k {
        let (e, x) = (r.g.add_node(3, 3), r.dyn_.add_node(3, 3));
        ensure_eq!(x, e, "add", "index of the new node");
    }
    r.after(c, "add_node");
    for _ in 0..3 * k {
        if c.rng.chance(1, 6) {
            let p = r.any_port(c, None);
            let (e, x) = (r.g.unlink_port(p), must("unlink_port", || r.dyn_.unlink_port(p)));
            ensure_eq!(x.map(|x| x.end()), e.map(|x| x.end()), "unlink", "result of unlinking {p:?}");
            r.after(c, "unlink_port");
        } else {
            r.link(c);
        }
        r.ask(c);
        r.ask(c);
    }
    c.feed(r.m.fingerprint());
    c.nontrivial_if(r.m.link_count() > 1);
}

/// A long chain, closed up in one go.
fn deep<G: Gut>(c: &mut Case)
where
    G::PortOffsetBase: Debug,
{
    let k = 2000 + c.rng.below(3000);
    let mut d = Dyn::new(G::default());
    let ns: Vec<NodeIndex> = (0..k).map(|_| d.add_node(1, 1)).collect();
    let back = c.rng.bool();
    for i in 1..k {
        let (a, b) = if back { (ns[i], ns[i - 1]) } else { (ns[i - 1], ns[i]) };
        if i != k / 2 {
            let r = must("link_nodes", || d.link_nodes(a, 0, b, 0));
            ensure!(r.is_ok(), "deep-link", "linking {a:?} and {b:?} gave {r:?}");
        }
    }
    // the two halves in the other order: everything before moves after
    let (first, last) = if back { (ns[k - 1], ns[0]) } else { (ns[0], ns[k - 1]) };
    let r = must("link_nodes", || d.link_nodes(last, 0, first, 0));
    ensure!(r.is_ok(), "deep-link", "linking {last:?} and {first:?} gave {r:?}");
    let (a, b) = if back { (ns[k / 2], ns[k / 2 - 1]) } else { (ns[k / 2 - 1], ns[k / 2]) };
    let r = catch(|| d.link_nodes(a, 0, b, 0));
    ensure!(!matches!(r, Ok(Ok(_))), "deep-cycle", "linking {a:?} and {b:?} closes a cycle of {k} nodes, but succeeded");
    ensure!(d.input_links(b).next().is_none() && d.output_links(a).next().is_none(), "deep-cycle-state", "a refused link was made");
    let none: [PortIndex; 0] = [];
    ensure!(d.is_convex(ns.iter().copied(), none, none), "deep-convex", "the whole graph is reported not to be convex");
    ensure!(!d.is_convex([last, ns[k / 3], first, ns[2 * k / 3], a], none, none), "deep-not-convex", "five nodes of a chain are reported to be convex");
    c.max("max_longest_chain", k as u64);
    c.feed(k as u64);
    c.nontrivial();
}
/// More nodes than two bytes can count.
fn huge<G: Gut>(c: &mut Case)
where
    G::PortOffsetBase: Debug,
{
    let n = huge_count(c);
    let (g, mut m, order) = long_chain::<G>(c, n);
    c.log(|| format!("a chain of {n} nodes with {} links", m.link_count()));
    c.feed(m.fingerprint());
    let mut succ = succ_of(&m);
    let mut d = must("DynamicTopoConvexChecker::new", || Dyn::new(g));
    // an isolated node comes last at first, and has to move
    let x = d.add_node(2, 2);
    m.add_node(x, d.inputs(x).collect(), d.outputs(x).collect());
    succ.insert(x, vec![]);
    let free: Vec<usize> = (0..n).filter(|i| !m.linked(m.nodes[&order[*i]][1][1])).collect();
    let i = *c.rng.pick(&free[..free.len() / 2]);
    let j = *c.rng.pick(&free[free.len() / 2..]);
    let ends = [(order[j], x), (x, order[i])];
    let mut made = 0;
    for (a, b) in if c.rng.bool() { [ends[0], ends[1]] } else { [ends[1], ends[0]] } {
        let (p, q) = (m.nodes[&a][1][1], m.nodes[&b][0][1]);
        if m.linked(p) || m.linked(q) {
            continue;
        }
        let r = catch(|| d.link_ports(p, q));
        if made == 0 {
            let Ok(Ok((e, f))) = r else { vio("huge:link", format!("linking {a:?} and {b:?} closes no cycle, but was refused")) };
            m.link(e.end(), f.end());
            succ.get_mut(&a).unwrap().push(b);
            made += 1;
        } else {
            ensure!(!matches!(r, Ok(Ok(_))), "huge:cycle", "linking {a:?} and {b:?} closes a cycle of {} nodes, but succeeded", j - i + 2);
        }
    }
    let none: [PortIndex; 0] = [];
    for _ in 0..8 {
        let (a, b) = (c.rng.below(n), c.rng.below(n));
        let (a, b) = if c.rng.bool() { (a.min(b), a.max(b)) } else { (a, (a + 1 + c.rng.below(60)).min(n - 1)) };
        let mut set: Set = order[a..=b].iter().copied().collect();
        if c.rng.chance(1, 3) {
            set.insert(x);
        }
        for _ in 0..c.rng.below(3) {
            set.remove(&order[a + c.rng.below(b - a + 1)]);
        }
        let exp = convex(&succ, &set);
        let v = shuffled(c, &set);
        ensure_eq!(must("is_convex", || d.is_convex(v.iter().copied(), none, none)), exp, "huge:convex", "is_convex of {} nodes", v.len());
        c.count(if exp { "convex" } else { "not_convex" }, 1);
    }
    c.nontrivial();
}

type P = Plain<u16>;
type M = Multi<u16>;
pub static CHECK: Check = Check {
    prop: "C18",
    rule: "random histories of every edit the dynamic checker offers, each also made to a bare copy of the graph, with convexity questions judged by reachability in between; non-trivial if at least two links existed at once",
    assumptions: &["the graph is acyclic when the checker is created", "a link closing a cycle may be refused by a panic, as the interface has no error for it"],
    suites: &[
        Suite { name: "plain", quick: 30000, thorough: 1000000, max_size: 30, f: history::<P> },
        Suite { name: "multi", quick: 30000, thorough: 1000000, max_size: 30, f: history::<M> },
        Suite { name: "rewire", quick: 8000, thorough: 300000, max_size: 20, f: rewire::<P> },
        Suite { name: "rewire_multi", quick: 8000, thorough: 300000, max_size: 20, f: rewire::<M> },
        Suite { name: "deep", quick: 6, thorough: 60, max_size: 20, f: deep::<P> },
        Suite { name: "huge", quick: 4, thorough: 60, max_size: 4, f: huge::<P> },
        Suite { name: "huge_multi", quick: 4, thorough: 60, max_size: 4, f: huge::<M> },
        Suite { name: "deep_multi", quick: 6, thorough: 60, max_size: 20, f: deep::<M> },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
