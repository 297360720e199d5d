//! Reference model of a port graph, and the oracle comparing any graph view with it.

use crate::rng::{mix, Rng};

use ::portgraph::multiportgraph::SubportIndex;
use ::portgraph::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

/// One end of a link: a port and a subport offset in it (0 in single-link graphs).
pub type End = (PortIndex, usize);

pub trait Ep: Copy + Debug + Eq + Into<PortIndex> {
    fn end(self) -> End;
    fn mk(e: End) -> Self;
}
impl Ep for PortIndex {
    fn end(self) -> End {
        (self, 0)
    }
    fn mk(e: End) -> Self {
        e.0
    }
}
impl Ep for SubportIndex {
    fn end(self) -> End {
        (self.port(), self.offset())
    }
    fn mk(e: End) -> Self {
        SubportIndex::new_multi(e.0, e.1)
    }
}

pub const DIRS: [Direction; 2] = [Direction::Incoming, Direction::Outgoing];

pub fn d(dir: Direction) -> usize {
    match dir {
        Direction::Incoming => 0,
        Direction::Outgoing => 1,
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Model {
    pub nodes: BTreeMap<NodeIndex, [Vec<PortIndex>; 2]>,
    pub ports: BTreeMap<PortIndex, (NodeIndex, Direction, usize)>,
    /// Symmetric.
    pub links: BTreeMap<End, End>,
}

impl Model {
    pub fn link_count(&self) -> usize {
        self.links.len() / 2
    }
    pub fn node(&self, p: PortIndex) -> NodeIndex {
        self.ports[&p].0
    }
    pub fn dir(&self, p: PortIndex) -> Direction {
        self.ports[&p].1
    }
    pub fn all_ports(&self, n: NodeIndex) -> Vec<PortIndex> {
        let v = &self.nodes[&n];
        v[0].iter().chain(v[1].iter()).copied().collect()
    }
    pub fn port_links(&self, p: PortIndex) -> Vec<(End, End)> {
        self.links.range((p, 0)..=(p, usize::MAX)).map(|(a, b)| (*a, *b)).collect()
    }
    pub fn linked(&self, p: PortIndex) -> bool {
        self.links.range((p, 0)..=(p, usize::MAX)).next().is_some()
    }
    pub fn links_of(&self, n: NodeIndex, dir: Direction) -> Vec<(End, End)> {
        match self.nodes.get(&n) {
            Some(v) => v[d(dir)].iter().flat_map(|p| self.port_links(*p)).collect(),
            None => vec![],
        }
    }
    /// Self-links appear once, from their output side.
    pub fn all_links_of(&self, n: NodeIndex) -> Vec<(End, End)> {
        let mut v: Vec<_> = self
            .links_of(n, Direction::Incoming)
            .into_iter()
            .filter(|(_, b)| self.node(b.0) != n)
            .collect();
        v.extend(self.links_of(n, Direction::Outgoing));
        v
    }
    pub fn add_node(&mut self, n: NodeIndex, inc: Vec<PortIndex>, out: Vec<PortIndex>) {
        for (dir, v) in DIRS.iter().zip([&inc, &out]) {
            for (i, p) in v.iter().enumerate() {
                self.ports.insert(*p, (n, *dir, i));
            }
        }
        self.nodes.insert(n, [inc, out]);
    }
    pub fn link(&mut self, a: End, b: End) {
        self.links.insert(a, b);
        self.links.insert(b, a);
    }
    pub fn unlink_end(&mut self, a: End) -> Option<End> {
        let b = self.links.remove(&a)?;
        self.links.remove(&b);
        Some(b)
    }
    pub fn unlink_all(&mut self, p: PortIndex) {
        for (a, _) in self.port_links(p) {
            self.unlink_end(a);
        }
    }
    pub fn remove_node(&mut self, n: NodeIndex) {
        for p in self.all_ports(n) {
            self.unlink_all(p);
            self.ports.remove(&p);
        }
        self.nodes.remove(&n);
    }
    /// Rename ports by a total map (identity for unmentioned ones).
    pub fn rename_ports(&mut self, f: impl Fn(PortIndex) -> PortIndex) {
        self.links = self.links.iter().map(|(a, b)| ((f(a.0), a.1), (f(b.0), b.1))).collect();
        self.ports = self.ports.iter().map(|(p, x)| (f(*p), *x)).collect();
        for v in self.nodes.values_mut() {
            for side in v.iter_mut() {
                for p in side.iter_mut() {
                    *p = f(*p);
                }
            }
        }
    }
    pub fn rename_nodes(&mut self, f: impl Fn(NodeIndex) -> NodeIndex) {
        self.nodes = std::mem::take(&mut self.nodes).into_iter().map(|(n, v)| (f(n), v)).collect();
        for x in self.ports.values_mut() {
            x.0 = f(x.0);
        }
    }
    /// The sub-model induced by a node set.
    pub fn restrict(&self, keep: impl Fn(NodeIndex) -> bool, keep_link: impl Fn(End, End) -> bool) -> Model {
        let nodes: BTreeMap<_, _> = self.nodes.iter().filter(|(n, _)| keep(**n)).map(|(n, v)| (*n, v.clone())).collect();
        let ports: BTreeMap<_, _> = self.ports.iter().filter(|(_, x)| nodes.contains_key(&x.0)).map(|(p, x)| (*p, *x)).collect();
        let links = self
            .links
            .iter()
            .filter(|(a, b)| ports.contains_key(&a.0) && ports.contains_key(&b.0) && keep_link(**a, **b))
            .map(|(a, b)| (*a, *b))
            .collect();
        Model { nodes, ports, links }
    }
    pub fn succ(&self, n: NodeIndex) -> Vec<NodeIndex> {
        self.links_of(n, Direction::Outgoing).into_iter().map(|(_, b)| self.node(b.0)).collect()
    }
    pub fn nbrs(&self, n: NodeIndex, dir: Direction) -> Vec<NodeIndex> {
        self.links_of(n, dir).into_iter().map(|(_, b)| self.node(b.0)).collect()
    }
    /// Index-independent fingerprint by node order.
    pub fn fingerprint(&self) -> u64 {
        let mut h = 0u64;
        for (n, v) in &self.nodes {
            h = mix(h ^ ((n.index() as u64) << 32) ^ ((v[0].len() as u64) << 16) ^ v[1].len() as u64);
        }
        for (a, b) in &self.links {
            if self.dir(a.0) == Direction::Outgoing {
                let (na, _, oa) = self.ports[&a.0];
                let (nb, _, ob) = self.ports[&b.0];
                h = mix(h ^ ((na.index() as u64) << 40) ^ ((nb.index() as u64) << 20) ^ ((oa as u64) << 10) ^ ob as u64);
            }
        }
        h
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        for (n, v) in &self.nodes {
            s += &format!("n{}({},{}) ", n.index(), v[0].len(), v[1].len());
        }
        for (a, b) in &self.links {
            let (na, da, oa) = self.ports[&a.0];
            if da == Direction::Outgoing {
                let (nb, _, ob) = self.ports[&b.0];
                s += &format!("{}.{}->{}.{} ", na.index(), oa, nb.index(), ob);
            }
        }
        s
    }
}

pub fn ni(i: usize) -> NodeIndex {
    NodeIndex::new(i)
}
pub fn pi(i: usize) -> PortIndex {
    PortIndex::new(i)
}

/// Reads a model off a graph by its basic queries (used to set up inputs, not as an oracle).
pub fn read_model<G: LinkView>(g: &G) -> Model
where
    G::LinkEndpoint: Ep,
{
    let mut m = Model::default();
    for n in g.nodes_iter() {
        m.add_node(n, g.inputs(n).collect(), g.outputs(n).collect());
    }
    for n in g.nodes_iter() {
        for (a, b) in g.links(n, Direction::Outgoing) {
            m.link(a.end(), b.end());
        }
    }
    m
}

fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}

#[derive(Clone, Copy)]
pub struct Opts {
    /// Also compare node/port/link counts.
    pub counts: bool,
    pub ports_iter: bool,
    pub absent: bool,
    pub capacities: bool,
}
pub const FULL: Opts = Opts { counts: true, ports_iter: true, absent: true, capacities: true };

/// Compares everything observable through `PortView` with the model.
pub fn check_ports<G: PortView>(g: &G, m: &Model, rng: &mut Rng, o: Opts, tag: &str) {
    if crate::run::lean_skip() {
        return;
    }
    let s = |x: &str| format!("{tag}{x}");
    // nodes
    let nodes: Vec<NodeIndex> = g.nodes_iter().collect();
    let set: BTreeSet<_> = nodes.iter().copied().collect();
    ensure!(set.len() == nodes.len(), s("nodes_iter-dup"), "nodes_iter repeats a node: {nodes:?}");
    let exp: BTreeSet<_> = m.nodes.keys().copied().collect();
    ensure_eq!(set, exp, s("nodes_iter"), "set of nodes");
    if o.counts {
        ensure_eq!(g.node_count(), m.nodes.len(), s("node_count"), "node_count");
        ensure_eq!(g.port_count(), m.ports.len(), s("port_count"), "port_count");
        ensure_eq!(g.is_empty(), m.nodes.is_empty(), s("is_empty"), "is_empty");
    }
    if o.ports_iter {
        let ports: Vec<PortIndex> = g.ports_iter().collect();
        let set: BTreeSet<_> = ports.iter().copied().collect();
        ensure!(set.len() == ports.len(), s("ports_iter-dup"), "ports_iter repeats a port: {ports:?}");
        let exp: BTreeSet<_> = m.ports.keys().copied().collect();
        ensure_eq!(set, exp, s("ports_iter"), "set of ports");
    }
    if o.capacities {
        ensure!(g.node_capacity() >= m.nodes.len(), s("node_capacity"), "node_capacity {} < {}", g.node_capacity(), m.nodes.len());
        ensure!(g.port_capacity() >= m.ports.len(), s("port_capacity"), "port_capacity {} < {}", g.port_capacity(), m.ports.len());
    }
    for (&n, v) in &m.nodes {
        ensure!(g.contains_node(n), s("contains_node"), "{n:?} not contained");
        for dir in DIRS {
            let v = &v[d(dir)];
            let got: Vec<_> = g.ports(n, dir).collect();
            ensure_eq!(got, *v, s("ports"), "ports({n:?}, {dir:?})");
            ensure_eq!(g.num_ports(n, dir), v.len(), s("num_ports"), "num_ports({n:?}, {dir:?})");
            let offs: Vec<(Direction, usize)> = g.port_offsets(n, dir).map(|o| (o.direction(), o.index())).collect();
            let exp: Vec<_> = (0..v.len()).map(|i| (dir, i)).collect();
            ensure_eq!(offs, exp, s("port_offsets"), "port_offsets({n:?}, {dir:?})");
            for i in 0..v.len() + 2 {
                let off = PortOffset::new(dir, i);
                ensure_eq!(g.port_index(n, off), v.get(i).copied(), s("port_index"), "port_index({n:?}, {dir:?} {i})");
            }
        }
        let ins: Vec<_> = g.inputs(n).collect();
        ensure_eq!(ins, v[0], s("inputs"), "inputs({n:?})");
        let outs: Vec<_> = g.outputs(n).collect();
        ensure_eq!(outs, v[1], s("outputs"), "outputs({n:?})");
        let all: Vec<_> = g.all_ports(n).collect();
        ensure_eq!(all, m.all_ports(n), s("all_ports"), "all_ports({n:?})");
        ensure_eq!((g.num_inputs(n), g.num_outputs(n)), (v[0].len(), v[1].len()), s("num_inputs"), "num_inputs/num_outputs of {n:?}");
        let f = |x: PortOffset<G::PortOffsetBase>| (x.direction(), x.index());
        let io: Vec<_> = g.input_offsets(n).map(f).collect();
        let oo: Vec<_> = g.output_offsets(n).map(f).collect();
        let ao: Vec<_> = g.all_port_offsets(n).map(f).collect();
        ensure_eq!(ao, [io.clone(), oo.clone()].concat(), s("all_port_offsets"), "all_port_offsets({n:?})");
        ensure_eq!((io.len(), oo.len()), (v[0].len(), v[1].len()), s("input_offsets"), "input_offsets/output_offsets of {n:?}");
        for i in 0..v[0].len() + 1 {
            ensure_eq!(g.input(n, i), v[0].get(i).copied(), s("input"), "input({n:?}, {i})");
        }
        for i in 0..v[1].len() + 1 {
            ensure_eq!(g.output(n, i), v[1].get(i).copied(), s("output"), "output({n:?}, {i})");
        }
        if o.capacities {
            ensure!(g.node_port_capacity(n) >= v[0].len() + v[1].len(), s("node_port_capacity"), "node_port_capacity({n:?}) too small");
        }
    }
    for (&p, &(n, dir, off)) in &m.ports {
        ensure!(g.contains_port(p), s("contains_port"), "{p:?} not contained");
        ensure_eq!(g.port_direction(p), Some(dir), s("port_direction"), "port_direction({p:?})");
        ensure_eq!(g.port_node(p), Some(n), s("port_node"), "port_node({p:?})");
        ensure_eq!(g.port_offset(p).map(|o| (o.direction(), o.index())), Some((dir, off)), s("port_offset"), "port_offset({p:?})");
    }
    if o.absent {
        let maxn = m.nodes.keys().next_back().map_or(0, |n| n.index()) + 3;
        for _ in 0..4 {
            let n = ni(rng.below(maxn + 1));
            if m.nodes.contains_key(&n) {
                continue;
            }
            ensure!(!g.contains_node(n), s("absent-node"), "{n:?} contained");
        }
        let maxp = m.ports.keys().next_back().map_or(0, |n| n.index()) + 3;
        for _ in 0..4 {
            let p = pi(rng.below(maxp + 1));
            if m.ports.contains_key(&p) {
                continue;
            }
            ensure!(!g.contains_port(p), s("absent-port"), "{p:?} contained");
        }
    }
}

/// Indices of removed or never created nodes and ports answer "not there" everywhere.
pub fn check_absent_plain<G: LinkView>(g: &G, m: &Model, tag: &str) {
    if crate::run::lean_skip() {
        return;
    }
    let s = |x: &str| format!("{tag}{x}");
    let maxn = m.nodes.keys().next_back().map_or(0, |n| n.index()) + 3;
    for n in (0..=maxn).map(ni).filter(|n| !m.nodes.contains_key(n)) {
        ensure!(!g.contains_node(n), s("absent-node"), "{n:?} contained");
        for dir in DIRS {
            ensure_eq!(g.num_ports(n, dir), 0, s("absent-num_ports"), "num_ports of absent {n:?}");
            ensure!(g.ports(n, dir).next().is_none(), s("absent-ports"), "ports of absent {n:?}");
            ensure!(g.port_offsets(n, dir).next().is_none(), s("absent-offsets"), "offsets of absent {n:?}");
            ensure!(g.links(n, dir).next().is_none(), s("absent-links"), "links of absent {n:?}");
            ensure!(g.neighbours(n, dir).next().is_none(), s("absent-neighbours"), "neighbours of absent {n:?}");
            ensure!(g.port_index(n, PortOffset::new(dir, 0)).is_none(), s("absent-port_index"), "port_index of absent {n:?}");
        }
        ensure!(g.all_ports(n).next().is_none(), s("absent-all_ports"), "all_ports of absent {n:?}");
        ensure!(g.all_links(n).next().is_none(), s("absent-all_links"), "all_links of absent {n:?}");
        ensure!(g.all_neighbours(n).next().is_none(), s("absent-all_neighbours"), "all_neighbours of absent {n:?}");
    }
    let maxp = m.ports.keys().next_back().map_or(0, |n| n.index()) + 3;
    for p in (0..=maxp).map(pi).filter(|p| !m.ports.contains_key(p)) {
        ensure!(!g.contains_port(p), s("absent-port"), "{p:?} contained");
        ensure!(g.port_node(p).is_none(), s("absent-port_node"), "port_node of absent {p:?}");
        ensure!(g.port_direction(p).is_none(), s("absent-port_direction"), "port_direction of absent {p:?}");
        ensure!(g.port_offset(p).is_none(), s("absent-port_offset"), "port_offset of absent {p:?}");
    }
}

fn ends<E: Ep>(it: impl Iterator<Item = (E, E)>) -> Vec<(End, End)> {
    it.map(|(a, b)| (a.end(), b.end())).collect()
}

/// Compares everything observable through `LinkView` with the model.
pub fn check_links<G: LinkView>(g: &G, m: &Model, o: Opts, tag: &str)
where
    G::LinkEndpoint: Ep,
{
    if crate::run::lean_skip() {
        return;
    }
    let s = |x: &str| format!("{tag}{x}");
    if o.counts {
        ensure_eq!(g.link_count(), m.link_count(), s("link_count"), "link_count");
    }
    let in_port_order = |v: &[(End, End)]| {
        v.windows(2).all(|w| {
            let (_, da, oa) = m.ports[&w[0].0 .0];
            let (_, db, ob) = m.ports[&w[1].0 .0];
            (d(da), oa) <= (d(db), ob)
        })
    };
    for &n in m.nodes.keys() {
        for dir in DIRS {
            let got = ends(g.links(n, dir));
            ensure_eq!(sorted(got.clone()), sorted(m.links_of(n, dir)), s("links"), "links({n:?}, {dir:?})");
            ensure!(in_port_order(&got), s("links-order"), "links({n:?}, {dir:?}) not in port order: {got:?}");
            let nb: Vec<_> = g.neighbours(n, dir).collect();
            ensure_eq!(sorted(nb.clone()), sorted(m.nbrs(n, dir)), s("neighbours"), "neighbours({n:?}, {dir:?})");
            let nb2: Vec<_> = match dir {
                Direction::Incoming => g.input_neighbours(n).collect(),
                Direction::Outgoing => g.output_neighbours(n).collect(),
            };
            ensure_eq!(nb2, nb, s("dir_neighbours"), "input/output_neighbours({n:?}, {dir:?})");
            let l2 = match dir {
                Direction::Incoming => ends(g.input_links(n)),
                Direction::Outgoing => ends(g.output_links(n)),
            };
            ensure_eq!(l2, got, s("dir_links"), "input/output_links({n:?}, {dir:?})");
        }
        let got = ends(g.all_links(n));
        let exp = m.all_links_of(n);
        ensure_eq!(sorted(got.clone()), sorted(exp.clone()), s("all_links"), "all_links({n:?})");
        ensure!(in_port_order(&got), s("all_links-order"), "all_links({n:?}) not in port order: {got:?}");
        let nb: Vec<_> = g.all_neighbours(n).collect();
        let expn: Vec<_> = exp.iter().map(|(_, b)| m.node(b.0)).collect();
        ensure_eq!(sorted(nb), sorted(expn), s("all_neighbours"), "all_neighbours({n:?})");
    }
    for &p in m.ports.keys() {
        let got = ends(g.port_links(p));
        let exp = m.port_links(p);
        ensure_eq!(sorted(got), exp, s("port_links"), "port_links({p:?})");
        let l = g.port_link(p).map(|e| e.end());
        match l {
            None => ensure!(exp.is_empty(), s("port_link"), "port_link({p:?}) is None, but it is linked: {exp:?}"),
            Some(e) => ensure!(exp.iter().any(|x| x.1 == e), s("port_link"), "port_link({p:?}) = {e:?}, links are {exp:?}"),
        }
    }
    // pairs of nodes
    let keys: Vec<_> = m.nodes.keys().copied().collect();
    if keys.len() <= 12 {
        for &a in &keys {
            for &b in &keys {
                check_pair(g, m, a, b, tag);
            }
        }
    } else {
        for &a in &keys {
            let mut bs: BTreeSet<NodeIndex> = m.succ(a).into_iter().collect();
            bs.insert(a);
            bs.insert(keys[(a.index() * 7 + 3) % keys.len()]);
            for b in bs {
                check_pair(g, m, a, b, tag);
            }
        }
    }
}

fn check_pair<G: LinkView>(g: &G, m: &Model, a: NodeIndex, b: NodeIndex, tag: &str)
where
    G::LinkEndpoint: Ep,
{
    let s = |x: &str| format!("{tag}{x}");
    let exp: Vec<(End, End)> = m.links_of(a, Direction::Outgoing).into_iter().filter(|(_, y)| m.node(y.0) == b).collect();
    let got = ends(g.get_connections(a, b));
    ensure_eq!(sorted(got.clone()), sorted(exp.clone()), s("get_connections"), "get_connections({a:?}, {b:?})");
    ensure_eq!(g.get_connection(a, b).map(|(x, y)| (x.end(), y.end())), got.first().copied(), s("get_connection"), "get_connection({a:?}, {b:?})");
    ensure_eq!(g.connected(a, b), !exp.is_empty(), s("connected"), "connected({a:?}, {b:?})");
}

/// Compares everything observable through `MultiView` with the model. `free_subports`: whether
/// unlinked subports may be listed in addition to the linked ones.
pub fn check_subports<G: MultiView>(g: &G, m: &Model, tag: &str)
where
    G::LinkEndpoint: Ep,
{
    if crate::run::lean_skip() {
        return;
    }
    let s = |x: &str| format!("{tag}{x}");
    for (&n, v) in &m.nodes {
        let mut all: Vec<End> = vec![];
        for dir in DIRS {
            let got: Vec<End> = g.subports(n, dir).map(|e| e.end()).collect();
            let set: BTreeSet<_> = got.iter().copied().collect();
            ensure!(set.len() == got.len(), s("subports-dup"), "subports({n:?},{dir:?}) repeats: {got:?}");
            for e in &got {
                ensure!(v[d(dir)].contains(&e.0), s("subports-port"), "subports({n:?},{dir:?}) lists {e:?} of another port");
            }
            for p in &v[d(dir)] {
                ensure!(got.iter().any(|e| e.0 == *p), s("subports-missing"), "subports({n:?},{dir:?}) has nothing for {p:?}");
                for (a, _) in m.port_links(*p) {
                    ensure!(set.contains(&a), s("subports-linked"), "subports({n:?},{dir:?}) misses linked {a:?}: {got:?}");
                }
            }
            ensure!(
                got.windows(2).all(|w| m.ports[&w[0].0].2 <= m.ports[&w[1].0].2),
                s("subports-order"),
                "subports({n:?},{dir:?}) not in port order"
            );
            for e in &got {
                let l = g.subport_link(G::LinkEndpoint::mk(*e)).map(|x| x.end());
                ensure_eq!(l, m.links.get(e).copied(), s("subport_link"), "subport_link({e:?})");
            }
            let short: Vec<End> = match dir {
                Direction::Incoming => g.subport_inputs(n).map(|e| e.end()).collect(),
                Direction::Outgoing => g.subport_outputs(n).map(|e| e.end()).collect(),
            };
            ensure_eq!(short, got, s("subport_inputs"), "subport_inputs/outputs({n:?})");
            all.extend(got);
        }
        let got: Vec<End> = g.all_subports(n).map(|e| e.end()).collect();
        ensure_eq!(got, all, s("all_subports"), "all_subports({n:?})");
    }
}
