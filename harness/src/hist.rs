//! Random operation histories on `PortGraph` / `MultiPortGraph`, mirrored on the reference model.

use crate::model::*;
use crate::rng::mix;
use crate::run::{must, Case};

use ::portgraph::index::Unsigned;
use ::portgraph::multiportgraph::SubportIndex;
use ::portgraph::portgraph::PortOperation;
use ::portgraph::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;

pub trait Gut: LinkMut<LinkEndpoint = Self::E> + Clone + Default + PartialEq + Debug {
    type E: Ep;
    const MULTI: bool;
    const NAME: &'static str;
    fn with_cap(n: usize, p: usize) -> Self;
    fn check_sub(&self, m: &Model, tag: &str);
    fn link_sub(&mut self, _a: End, _b: End) -> Result<(), LinkError<Self::PortOffsetBase>> {
        unreachable!()
    }
    fn unlink_sub(&mut self, _a: End) -> Option<End> {
        unreachable!()
    }
    /// All currently known subports of a port, linked or not.
    fn subports_of(&self, n: NodeIndex, dir: Direction) -> Vec<End>;
    /// Whether an index that is not a node of the graph is used internally.
    fn internal_node(&self, n: NodeIndex) -> bool;
    fn internal_port(&self, p: PortIndex) -> bool;
    fn max_offset() -> usize {
        PortOffset::<Self::PortOffsetBase>::max_offset()
    }
}

impl<PO: Unsigned> Gut for PortGraph<u32, u32, PO> {
    type E = PortIndex;
    const MULTI: bool = false;
    const NAME: &'static str = "PortGraph";
    fn with_cap(n: usize, p: usize) -> Self {
        Self::with_capacity(n, p)
    }
    fn check_sub(&self, m: &Model, tag: &str) {
        check_absent_plain(self, m, tag);
    }
    fn subports_of(&self, n: NodeIndex, dir: Direction) -> Vec<End> {
        self.ports(n, dir).map(|p| (p, 0)).collect()
    }
    fn internal_node(&self, _: NodeIndex) -> bool {
        false
    }
    fn internal_port(&self, _: PortIndex) -> bool {
        false
    }
}

impl<PO: Unsigned + Default> Gut for MultiPortGraph<u32, u32, PO> {
    type E = SubportIndex;
    const MULTI: bool = true;
    const NAME: &'static str = "MultiPortGraph";
    fn with_cap(n: usize, p: usize) -> Self {
        Self::with_capacity(n, p)
    }
    fn check_sub(&self, m: &Model, tag: &str) {
        check_subports(self, m, tag);
        check_flat(self, m, tag);
    }
    fn link_sub(&mut self, a: End, b: End) -> Result<(), LinkError<PO>> {
        self.link_subports(Ep::mk(a), Ep::mk(b))
    }
    fn unlink_sub(&mut self, a: End) -> Option<End> {
        self.unlink_subport(Ep::mk(a)).map(|e| e.end())
    }
    fn subports_of(&self, n: NodeIndex, dir: Direction) -> Vec<End> {
        self.subports(n, dir).map(|p| p.end()).collect()
    }
    fn internal_node(&self, n: NodeIndex) -> bool {
        self.as_portgraph().contains_node(n) && !self.contains_node(n)
    }
    fn internal_port(&self, p: PortIndex) -> bool {
        self.as_portgraph().contains_port(p) && !self.contains_port(p)
    }
}

/// The documented relation between a multigraph and the plain graph it wraps: every visible node
/// is a node of the plain graph with the same ports, every other node leads back to a visible one,
/// and contracting the others gives the links.
pub fn check_flat<PO: Unsigned>(g: &MultiPortGraph<u32, u32, PO>, m: &Model, tag: &str) {
    if crate::run::lean_skip() {
        return;
    }
    let pg = g.as_portgraph();
    let mut got: BTreeMap<(NodeIndex, NodeIndex), usize> = BTreeMap::new();
    for n in pg.nodes_iter() {
        let main = g.pg_main_node(n);
        if m.nodes.contains_key(&n) {
            ensure_eq!(main, n, format!("{tag}pg_main_node"), "pg_main_node of the visible {n:?}");
        } else {
            ensure!(m.nodes.contains_key(&main), format!("{tag}pg_main_node"), "pg_main_node({n:?}) = {main:?} is not a node");
        }
        for (_, to) in pg.links(n, Direction::Outgoing) {
            let tn = pg.port_node(to).unwrap();
            let tm = g.pg_main_node(tn);
            // A link between a hidden node and its own main node is internal, unless that main
            // node has a link to itself; count it apart by checking both ends.
            if (tn != tm && tm == n) || (main != n && main == tn) {
                continue;
            }
            *got.entry((main, tm)).or_insert(0) += 1;
        }
    }
    let mut exp: BTreeMap<(NodeIndex, NodeIndex), usize> = BTreeMap::new();
    for (a, b) in &m.links {
        if m.dir(a.0) == Direction::Outgoing && m.node(a.0) != m.node(b.0) {
            *exp.entry((m.node(a.0), m.node(b.0))).or_insert(0) += 1;
        }
    }
    got.retain(|k, _| k.0 != k.1);
    ensure_eq!(got, exp, format!("{tag}flat-links"), "links of the underlying plain graph, hidden nodes contracted");
}

/// Which operations a workload uses, as weights.
#[derive(Clone, Copy)]
pub struct Mix {
    pub add: usize,
    pub remove: usize,
    pub resize: usize,
    pub link: usize,
    pub unlink: usize,
    pub compact: usize,
    pub swap: usize,
    pub insert: usize,
    pub sub: usize,
    pub fail: usize,
    pub misc: usize,
}
pub const EVEN: Mix = Mix { add: 10, remove: 6, resize: 8, link: 22, unlink: 6, compact: 3, swap: 3, insert: 1, sub: 8, fail: 4, misc: 2 };

pub struct Hist<G: Gut> {
    pub g: G,
    pub m: Model,
    /// Node indices that were handed out and are not in use now, and lie within the storage.
    pub freed: BTreeSet<NodeIndex>,
    /// User data kept alongside by following the callbacks only.
    pub node_tag: Vec<Option<u64>>,
    pub port_tag: Vec<Option<u64>>,
    pub m_node_tag: BTreeMap<NodeIndex, u64>,
    pub m_port_tag: BTreeMap<PortIndex, u64>,
    pub next_tag: u64,
    pub typical_ports: usize,
    pub max_nodes: usize,
}

fn set_at(v: &mut Vec<Option<u64>>, i: usize, x: Option<u64>) {
    if v.len() <= i {
        v.resize(i + 1, None);
    }
    v[i] = x;
}
fn take_at(v: &mut [Option<u64>], i: usize) -> Option<u64> {
    v.get_mut(i).and_then(|x| x.take())
}

impl<G: Gut> Hist<G> {
    pub fn new(c: &mut Case) -> Self {
        let g = if c.rng.bool() { G::default() } else { G::with_cap(c.rng.below(8), c.rng.below(16)) };
        Hist {
            g,
            m: Model::default(),
            freed: BTreeSet::new(),
            node_tag: vec![],
            port_tag: vec![],
            m_node_tag: BTreeMap::new(),
            m_port_tag: BTreeMap::new(),
            next_tag: 1,
            typical_ports: *c.rng.pick(&[1usize, 2, 3, 3, 4, 6]),
            max_nodes: *c.rng.pick(&[3usize, 5, 8, 12, 20, 40]),
        }
    }

    /// A history that goes on from a graph the model already describes.
    pub fn adopt(c: &mut Case, g: G, m: Model) -> Self {
        let mut h = Self::new(c);
        h.g = g;
        for n in m.nodes.keys() {
            let t = h.next_tag;
            h.next_tag += 1;
            set_at(&mut h.node_tag, n.index(), Some(t));
            h.m_node_tag.insert(*n, t);
        }
        for p in m.ports.keys() {
            h.tag_port(*p);
        }
        h.m = m;
        h
    }

    fn register_node(&mut self, n: NodeIndex, what: &str) {
        let inc: Vec<_> = self.g.inputs(n).collect();
        let out: Vec<_> = self.g.outputs(n).collect();
        ensure!(!self.m.nodes.contains_key(&n), "alias-node", "{what} returned {n:?}, which is in use");
        for p in inc.iter().chain(&out) {
            ensure!(!self.m.ports.contains_key(p), "alias-port", "{what}: new node {n:?} got {p:?}, which belongs to {:?}", self.m.ports[p]);
        }
        self.m.add_node(n, inc.clone(), out.clone());
        self.freed.remove(&n);
        let t = self.next_tag;
        self.next_tag += 1;
        set_at(&mut self.node_tag, n.index(), Some(t));
        self.m_node_tag.insert(n, t);
        for p in inc.into_iter().chain(out) {
            self.tag_port(p);
        }
    }
    fn tag_port(&mut self, p: PortIndex) {
        let t = self.next_tag;
        self.next_tag += 1;
        set_at(&mut self.port_tag, p.index(), Some(t));
        self.m_port_tag.insert(p, t);
    }

    pub fn add_node(&mut self, c: &mut Case, i: usize, o: usize) -> NodeIndex {
        let n = must("add_node", || self.g.add_node(i, o));
        c.log(|| format!("add_node({i}, {o}) -> {}", n.index()));
        ensure_eq!((self.g.num_inputs(n), self.g.num_outputs(n)), (i, o), "add_node-counts", "port counts of new {n:?}");
        self.register_node(n, "add_node");
        c.count("op_add_node", 1);
        n
    }

    pub fn remove_node(&mut self, c: &mut Case, n: NodeIndex) {
        c.log(|| format!("remove_node({})", n.index()));
        let before = self.keep(!self.m.nodes.contains_key(&n));
        must("remove_node", || self.g.remove_node(n));
        self.unchanged(before, "remove_node");
        if self.m.nodes.contains_key(&n) {
            for p in self.m.all_ports(n) {
                self.m_port_tag.remove(&p);
                take_at(&mut self.port_tag, p.index());
            }
            self.m_node_tag.remove(&n);
            take_at(&mut self.node_tag, n.index());
            self.m.remove_node(n);
            self.freed.insert(n);
        }
        c.count("op_remove_node", 1);
    }

    pub fn resize(&mut self, c: &mut Case, n: NodeIndex, i: usize, o: usize) {
        let mut ev: Vec<(PortIndex, PortOperation)> = vec![];
        let before = self.keep(!self.m.nodes.contains_key(&n));
        c.log(|| format!("set_num_ports({}, {i}, {o})", n.index()));
        must("set_num_ports", || self.g.set_num_ports(n, i, o, |p, op| ev.push((p, op))));
        c.count("op_resize", 1);
        c.count("port_events", ev.len() as u64);
        if !self.m.nodes.contains_key(&n) {
            ensure!(ev.is_empty(), "resize-absent", "set_num_ports on absent {n:?} reported {ev:?}");
            self.unchanged(before, "set_num_ports");
            return;
        }
        let old = self.m.nodes[&n].clone();
        let mut moved: BTreeMap<PortIndex, PortIndex> = BTreeMap::new();
        let mut removed: BTreeSet<PortIndex> = BTreeSet::new();
        for (p, op) in &ev {
            let Some(&(pn, _, _)) = self.m.ports.get(p) else {
                crate::run::vio("resize-event-unknown", format!("set_num_ports reported {p:?}, which did not exist"))
            };
            ensure_eq!(pn, n, "resize-event-other", "set_num_ports({n:?}) reported {p:?} of another node");
            ensure!(!removed.contains(p) && !moved.contains_key(p), "resize-event-twice", "set_num_ports reported {p:?} twice");
            match op {
                PortOperation::Moved { new_index } => {
                    ensure_eq!(op.new_index(), Some(*new_index), "resize-new_index", "new_index() of {op:?}");
                    moved.insert(*p, *new_index);
                    let t = take_at(&mut self.port_tag, p.index());
                    set_at(&mut self.port_tag, new_index.index(), t);
                }
                PortOperation::Removed { old_link } => {
                    removed.insert(*p);
                    take_at(&mut self.port_tag, p.index());
                    // A link between two removed ports is reported with one of them only.
                    if !G::MULTI {
                        let exp = self.m.port_links(*p).first().map(|x| x.1 .0);
                        ensure_eq!(*old_link, exp, "resize-old_link", "old_link of removed {p:?}");
                        self.m.unlink_all(*p);
                    } else {
                        let l = self.m.port_links(*p);
                        match old_link {
                            Some(q) => ensure!(l.iter().any(|(_, b)| b.0 == *q), "resize-old_link", "old_link of removed {p:?} is {q:?}, its links are {l:?}"),
                            None => ensure!(
                                l.iter().all(|(_, b)| self.m.node(b.0) == n && self.m.ports[&b.0].2 >= [i, o][d(self.m.dir(b.0))]),
                                "resize-old_link", "old_link of removed {p:?} is None, its links are {l:?}"
                            ),
                        }
                    }
                    ensure!(op.new_index().is_none(), "resize-new_index", "Removed has a new index");
                }
            }
        }
        let want = [i, o];
        let exp_removed: BTreeSet<PortIndex> = (0..2).flat_map(|k| old[k].iter().skip(want[k]).copied()).collect();
        ensure_eq!(removed, exp_removed, "resize-removed", "set of ports reported removed by set_num_ports({n:?}, {i}, {o})");
        for p in &removed {
            self.m.unlink_all(*p);
        }
        for p in &removed {
            self.m.ports.remove(p);
            self.m_port_tag.remove(p);
        }
        let mut nv = old.clone();
        for k in 0..2 {
            nv[k].truncate(want[k]);
        }
        self.m.nodes.insert(n, nv);
        let f = |p: PortIndex| moved.get(&p).copied().unwrap_or(p);
        // Moved ports must not land on ports that stay.
        let before = self.m.ports.len();
        self.m.rename_ports(f);
        ensure_eq!(self.m.ports.len(), before, "resize-collision", "ports after applying the reported moves {moved:?}");
        self.m_port_tag = self.m_port_tag.iter().map(|(p, t)| (f(*p), *t)).collect();
        // New ports.
        for (k, dir) in DIRS.iter().enumerate() {
            let now: Vec<_> = self.g.ports(n, *dir).collect();
            ensure_eq!(now.len(), want[k], "resize-count", "number of {dir:?} ports after set_num_ports({n:?}, {i}, {o})");
            let kept = self.m.nodes[&n][k].len();
            ensure_eq!(&now[..kept], &self.m.nodes[&n][k][..], "resize-moved", "surviving {dir:?} ports of {n:?} by the reported moves");
            for (x, p) in now.iter().enumerate().skip(kept) {
                ensure!(!self.m.ports.contains_key(p), "resize-alias", "new port {p:?} of {n:?} is in use by {:?}", self.m.ports[p]);
                self.m.ports.insert(*p, (n, *dir, x));
                self.tag_port(*p);
            }
            self.m.nodes.get_mut(&n).unwrap()[k] = now;
        }
        self.check_tags("set_num_ports");
    }

    /// User data that followed the callbacks still sits at the right indices.
    pub fn check_tags(&self, what: &str) {
    if crate::run::lean_skip() {
        return;
    }
        for (n, t) in &self.m_node_tag {
            ensure_eq!(self.node_tag.get(n.index()).copied().flatten(), Some(*t), "tags-node", "data of {n:?} after following the callbacks of {what}");
        }
        for (p, t) in &self.m_port_tag {
            ensure_eq!(self.port_tag.get(p.index()).copied().flatten(), Some(*t), "tags-port", "data of {p:?} after following the callbacks of {what}");
        }
    }

    pub fn compact_nodes(&mut self, c: &mut Case) {
        c.log(|| "compact_nodes()".into());
        let mut ev = vec![];
        must("compact_nodes", || self.g.compact_nodes(|a, b| ev.push((a, b))));
        let mut map: BTreeMap<NodeIndex, NodeIndex> = BTreeMap::new();
        for (a, b) in ev {
            let t = take_at(&mut self.node_tag, a.index());
            set_at(&mut self.node_tag, b.index(), t);
            if self.m.nodes.contains_key(&a) {
                ensure!(map.insert(a, b).is_none(), "compact_nodes-twice", "compact_nodes reported {a:?} twice");
            }
        }
        let before = self.m.nodes.len();
        let maxb = self.m.nodes.keys().next_back().copied();
        self.m.rename_nodes(|n| map.get(&n).copied().unwrap_or(n));
        ensure_eq!(self.m.nodes.len(), before, "compact_nodes-collision", "nodes after the reported moves");
        self.m_node_tag = self.m_node_tag.iter().map(|(n, t)| (map.get(n).copied().unwrap_or(*n), *t)).collect();
        self.freed.clear();
        let maxa = self.m.nodes.keys().next_back().copied();
        ensure!(maxa <= maxb, "compact_nodes-grew", "compact_nodes moved the last node from {maxb:?} to {maxa:?}");
        if !G::MULTI {
            ensure!(maxa.map_or(0, |n| n.index() + 1) == self.m.nodes.len(), "compact_nodes-gaps", "node indices are not dense after compact_nodes: last {maxa:?}, count {}", self.m.nodes.len());
        }
        self.check_tags("compact_nodes");
        c.count("op_compact_nodes", 1);
    }

    pub fn compact_ports(&mut self, c: &mut Case) {
        c.log(|| "compact_ports()".into());
        let mut ev = vec![];
        must("compact_ports", || self.g.compact_ports(|a, b| ev.push((a, b))));
        let mut map: BTreeMap<PortIndex, PortIndex> = BTreeMap::new();
        for (a, b) in ev {
            let t = take_at(&mut self.port_tag, a.index());
            set_at(&mut self.port_tag, b.index(), t);
            if self.m.ports.contains_key(&a) {
                ensure!(map.insert(a, b).is_none(), "compact_ports-twice", "compact_ports reported {a:?} twice");
            }
        }
        let before = self.m.ports.len();
        let maxb = self.m.ports.keys().next_back().copied();
        let f = |n: PortIndex| map.get(&n).copied().unwrap_or(n);
        self.m.rename_ports(f);
        ensure_eq!(self.m.ports.len(), before, "compact_ports-collision", "ports after the reported moves");
        self.m_port_tag = self.m_port_tag.iter().map(|(n, t)| (f(*n), *t)).collect();
        let maxa = self.m.ports.keys().next_back().copied();
        ensure!(maxa <= maxb, "compact_ports-grew", "compact_ports moved the last port from {maxb:?} to {maxa:?}");
        if !G::MULTI {
            ensure!(maxa.map_or(0, |n| n.index() + 1) == self.m.ports.len(), "compact_ports-gaps", "port indices are not dense after compact_ports: last {maxa:?}, count {}", self.m.ports.len());
        }
        self.check_tags("compact_ports");
        c.count("op_compact_ports", 1);
    }

    /// Swap two node slots; each is a node, or a slot that was used before.
    pub fn swap_nodes(&mut self, c: &mut Case, a: NodeIndex, b: NodeIndex) {
        c.log(|| format!("swap_nodes({}, {})", a.index(), b.index()));
        must("swap_nodes", || self.g.swap_nodes(a, b));
        let f = |n: NodeIndex| {
            if n == a {
                b
            } else if n == b {
                a
            } else {
                n
            }
        };
        self.m.rename_nodes(f);
        self.m_node_tag = self.m_node_tag.iter().map(|(n, t)| (f(*n), *t)).collect();
        let (ta, tb) = (take_at(&mut self.node_tag, a.index()), take_at(&mut self.node_tag, b.index()));
        set_at(&mut self.node_tag, a.index(), tb);
        set_at(&mut self.node_tag, b.index(), ta);
        self.freed = self.freed.iter().map(|n| f(*n)).collect();
        c.count("op_swap_nodes", 1);
    }

    /// A copy of the graph, kept to compare with if the next operation is refused.
    fn keep(&self, suspect: bool) -> Option<G> {
        suspect.then(|| self.g.clone())
    }
    fn unchanged(&self, before: Option<G>, what: &str) {
        let Some(before) = before else { return };
        for n in self.m.nodes.keys() {
            for dir in DIRS {
                ensure_eq!(self.g.subports_of(*n, dir), before.subports_of(*n, dir), "refused-subports", "{dir:?} subports of {n:?} after a refused {what}");
            }
        }
        ensure!(self.g == before, "refused-eq", "the graph differs from what it was before a refused {what}");
    }

    /// What linking two ports must do, whatever they are.
    pub fn link_ports(&mut self, c: &mut Case, a: PortIndex, b: PortIndex) -> bool {
        c.log(|| format!("link_ports({}, {})", a.index(), b.index()));
        let dir = |p| self.m.ports.get(&p).map(|x| x.1);
        let before = self.keep(dir(a).is_none() || dir(b).is_none() || dir(a) == dir(b) || (!G::MULTI && (self.m.linked(a) || self.m.linked(b))));
        let r = must("link_ports", || self.g.link_ports(a, b));
        let done = self.judge_link(c, a, b, r, None);
        self.unchanged(before, "link_ports");
        done
    }

    fn judge_link(&mut self, c: &mut Case, a: PortIndex, b: PortIndex, r: Result<(G::E, G::E), LinkError<G::PortOffsetBase>>, via: Option<&str>) -> bool {
        let _ = via;
        let (ka, kb) = (self.m.ports.contains_key(&a), self.m.ports.contains_key(&b));
        let bad = !ka || !kb || self.m.dir(a) == self.m.dir(b) || (!G::MULTI && (self.m.linked(a) || self.m.linked(b)));
        match r {
            Ok((x, y)) => {
                let (x, y) = (x.end(), y.end());
                ensure!(!bad, "link-accepted", "link_ports({a:?}, {b:?}) succeeded, but must fail");
                ensure_eq!((x.0, y.0), (a, b), "link-endpoints", "ports of the endpoints returned by link_ports({a:?}, {b:?})");
                for e in [x, y] {
                    ensure!(!self.m.links.contains_key(&e), "link-endpoint-used", "link_ports({a:?}, {b:?}) returned {e:?}, which is already linked");
                }
                self.m.link(x, y);
                c.count("op_link", 1);
                true
            }
            Err(e) => {
                ensure!(bad, "link-refused", "link_ports({a:?}, {b:?}) failed with {e:?}, but must succeed");
                let right = match &e {
                    LinkError::UnknownPort { port } => (*port == a && !ka) || (*port == b && !kb),
                    LinkError::AlreadyLinked { port } => !G::MULTI && (*port == a || *port == b) && self.m.ports.contains_key(port) && self.m.linked(*port),
                    LinkError::IncompatibleDirections { port_a, port_b, dir } => {
                        ka && kb && *port_a == a && *port_b == b && self.m.dir(a) == *dir && self.m.dir(b) == *dir
                    }
                    _ => false,
                };
                ensure!(right, "link-error", "link_ports({a:?}, {b:?}) failed with the wrong error {e:?} (ports: {:?}, {:?})", self.m.ports.get(&a), self.m.ports.get(&b));
                c.count("op_link_refused", 1);
                false
            }
        }
    }

    pub fn link_offsets(&mut self, c: &mut Case, a: NodeIndex, oa: (Direction, usize), b: NodeIndex, ob: (Direction, usize), by_nodes: bool) {
        c.log(|| format!("link_offsets({}, {oa:?}, {}, {ob:?}) by_nodes={by_nodes}", a.index(), b.index()));
        let ends = [(a, oa), (b, ob)].map(|(n, o)| self.m.nodes.get(&n).and_then(|v| v[d(o.0)].get(o.1)));
        let linked = !G::MULTI && ends.iter().flatten().any(|p| self.m.linked(**p));
        let before = self.keep(ends.contains(&None) || oa.0 == ob.0 || linked);
        let r = must("link_offsets", || {
            if by_nodes {
                self.g.link_nodes(a, oa.1, b, ob.1)
            } else {
                self.g.link_offsets(a, PortOffset::new(oa.0, oa.1), b, PortOffset::new(ob.0, ob.1))
            }
        });
        let find = |m: &Model, n: NodeIndex, o: (Direction, usize)| m.nodes.get(&n).and_then(|v| v[d(o.0)].get(o.1).copied());
        match (find(&self.m, a, oa), find(&self.m, b, ob)) {
            (Some(pa), Some(pb)) => {
                self.judge_link(c, pa, pb, r, Some("offsets"));
            }
            (pa, pb) => match r {
                Ok(_) => crate::run::vio("link_offsets-accepted", format!("link_offsets({a:?} {oa:?}, {b:?} {ob:?}) succeeded on a missing offset")),
                Err(LinkError::UnknownOffset { node, offset }) => {
                    let o = (offset.direction(), offset.index());
                    ensure!(
                        (node == a && o == oa && pa.is_none()) || (node == b && o == ob && pb.is_none()),
                        "link_offsets-error",
                        "link_offsets({a:?} {oa:?}, {b:?} {ob:?}) blames {node:?} {o:?}"
                    );
                }
                Err(e) => crate::run::vio("link_offsets-error", format!("link_offsets on a missing offset failed with {e:?}")),
            },
        }
        self.unchanged(before, "link_offsets");
        c.count("op_link_offsets", 1);
    }

    pub fn unlink_port(&mut self, c: &mut Case, p: PortIndex) {
        c.log(|| format!("unlink_port({})", p.index()));
        let before = self.keep(!self.m.ports.contains_key(&p));
        let r = must("unlink_port", || self.g.unlink_port(p)).map(|e| e.end());
        self.unchanged(before, "unlink_port");
        let exp: Vec<End> = if self.m.ports.contains_key(&p) { self.m.port_links(p).into_iter().map(|x| x.1).collect() } else { vec![] };
        match r {
            None => ensure!(exp.is_empty(), "unlink-none", "unlink_port({p:?}) returned None, was linked to {exp:?}"),
            Some(e) => ensure!(exp.contains(&e), "unlink-result", "unlink_port({p:?}) returned {e:?}, was linked to {exp:?}"),
        }
        if self.m.ports.contains_key(&p) {
            self.m.unlink_all(p);
        }
        c.count("op_unlink", 1);
    }

    pub fn unlink_subport(&mut self, c: &mut Case, e: End) {
        c.log(|| format!("unlink_subport({}:{})", e.0.index(), e.1));
        let r = must("unlink_subport", || self.g.unlink_sub(e));
        let exp = self.m.unlink_end(e);
        ensure_eq!(r, exp, "unlink_subport", "unlink_subport({e:?})");
        c.count("op_unlink_subport", 1);
    }

    pub fn link_subports(&mut self, c: &mut Case, a: End, b: End) {
        c.log(|| format!("link_subports({}:{}, {}:{})", a.0.index(), a.1, b.0.index(), b.1));
        let known = |h: &Self, e: End| match h.m.ports.get(&e.0) {
            Some(&(n, dir, _)) => h.g.subports_of(n, dir).contains(&e),
            None => false,
        };
        let (ka, kb) = (known(self, a), known(self, b));
        let dirs = ka && kb && self.m.dir(a.0) == self.m.dir(b.0);
        let used = |h: &Self, e: End| h.m.links.contains_key(&e);
        let bad = !ka || !kb || dirs || used(self, a) || used(self, b);
        let before = self.keep(bad);
        let r = must("link_subports", || self.g.link_sub(a, b));
        match r {
            Ok(()) => {
                ensure!(!bad, "link_subports-accepted", "link_subports({a:?}, {b:?}) succeeded, but must fail");
                self.m.link(a, b);
            }
            Err(e) => {
                ensure!(bad, "link_subports-refused", "link_subports({a:?}, {b:?}) failed with {e:?}");
                let right = match &e {
                    LinkError::UnknownPort { port } => (*port == a.0 && !ka) || (*port == b.0 && !kb),
                    LinkError::AlreadyLinked { port } => (*port == a.0 && used(self, a)) || (*port == b.0 && used(self, b)),
                    LinkError::IncompatibleDirections { port_a, port_b, dir } => dirs && *port_a == a.0 && *port_b == b.0 && *dir == self.m.dir(a.0),
                    _ => false,
                };
                ensure!(right, "link_subports-error", "link_subports({a:?}, {b:?}) failed with the wrong error {e:?}");
            }
        }
        self.unchanged(before, "link_subports");
        c.count("op_link_subports", 1);
    }

    pub fn insert_graph(&mut self, c: &mut Case, other: &G, om: &Model) {
        c.log(|| format!("insert_graph(other = {})", om.describe()));
        let r = must("insert_graph", || self.g.insert_graph(other));
        let map: HashMap<NodeIndex, NodeIndex> = match r {
            Ok(m) => m,
            Err(e) => crate::run::vio("insert_graph-err", format!("insert_graph failed with {e:?}")),
        };
        let keys: BTreeSet<_> = map.keys().copied().collect();
        let exp: BTreeSet<_> = om.nodes.keys().copied().collect();
        ensure_eq!(keys, exp, "insert_graph-keys", "nodes in the map returned by insert_graph");
        let vals: BTreeSet<_> = map.values().copied().collect();
        ensure_eq!(vals.len(), map.len(), "insert_graph-injective", "distinct new nodes");
        let mut sorted: Vec<_> = map.iter().map(|(a, b)| (*a, *b)).collect();
        sorted.sort();
        for (o, n) in &sorted {
            self.register_node(*n, "insert_graph");
            let counts = (self.m.nodes[n][0].len(), self.m.nodes[n][1].len());
            ensure_eq!(counts, (om.nodes[o][0].len(), om.nodes[o][1].len()), "insert_graph-ports", "port counts of the copy of {o:?}");
        }
        // Links: which subports are used is up to the graph; the ports are not.
        let port = |m: &Model, p: PortIndex| {
            let (n, dir, off) = om.ports[&p];
            m.nodes[&map[&n]][d(dir)][off]
        };
        let mut exp: Vec<(PortIndex, PortIndex)> =
            om.links.iter().filter(|(a, _)| om.dir(a.0) == Direction::Outgoing).map(|(a, b)| (port(&self.m, a.0), port(&self.m, b.0))).collect();
        let mut got_ends = vec![];
        for n in map.values() {
            for (a, b) in self.g.links(*n, Direction::Outgoing) {
                got_ends.push((a.end(), b.end()));
            }
        }
        let mut got: Vec<_> = got_ends.iter().map(|(a, b)| (a.0, b.0)).collect();
        exp.sort();
        got.sort();
        ensure_eq!(got, exp, "insert_graph-links", "links of the inserted copy");
        for (a, b) in got_ends {
            self.m.link(a, b);
        }
        c.count("op_insert_graph", 1);
    }

    pub fn full_check(&mut self, c: &mut Case) {
        let g = &self.g;
        let m = &self.m;
        let r = crate::run::catch(|| {
            let mut rng = c.rng.clone();
            check_ports(g, m, &mut rng, FULL, "");
            check_links(g, m, FULL, "");
            g.check_sub(m, "");
        });
        if let Err(e) = r {
            crate::run::vio("panic:query", format!("a query of the graph panicked: {e}"));
        }
        c.rng.u64();
        c.count("full_checks", 1);
        c.count("ports_compared", m.ports.len() as u64);
        c.count("links_compared", m.link_count() as u64);
        c.max("max_nodes", m.nodes.len() as u64);
        c.max("max_links", m.link_count() as u64);
    }

    pub fn rand_node(&self, c: &mut Case) -> Option<NodeIndex> {
        let n = self.m.nodes.len();
        (n > 0).then(|| *self.m.nodes.keys().nth(c.rng.below(n)).unwrap())
    }
    pub fn rand_port(&self, c: &mut Case, dir: Option<Direction>) -> Option<PortIndex> {
        let v: Vec<_> = self.m.ports.iter().filter(|(_, x)| dir.is_none_or(|dd| dd == x.1)).map(|x| *x.0).collect();
        (!v.is_empty()).then(|| *c.rng.pick(&v))
    }
    pub fn rand_ports_count(&self, c: &mut Case) -> (usize, usize) {
        let t = self.typical_ports;
        if t > 40 {
            // wide nodes, and narrow ones
            let mut f = || if c.rng.chance(1, 4) { c.rng.below(4) } else { t - 8 + c.rng.below(16) };
            return (f(), f());
        }
        let max = G::max_offset().min(40);
        (c.rng.small(t, 3 * t).min(max), c.rng.small(t, 3 * t).min(max))
    }

    /// One random operation. Returns false if nothing was applicable.
    pub fn step(&mut self, c: &mut Case, w: &Mix) -> bool {
        let n_nodes = self.m.nodes.len();
        let add = if n_nodes < 2 { 30 } else if n_nodes >= self.max_nodes { 0 } else { w.add };
        let sub = if G::MULTI { w.sub } else { 0 };
        let k = c.rng.weighted(&[add, w.remove, w.resize, w.link, w.unlink, w.compact, w.swap, w.insert, sub, w.fail, w.misc]);
        c.feed(k as u64);
        match k {
            0 => {
                let (i, o) = self.rand_ports_count(c);
                self.add_node(c, i, o);
            }
            1 => {
                let Some(n) = self.rand_node(c) else { return false };
                self.remove_node(c, n);
            }
            2 => {
                let Some(n) = self.rand_node(c) else { return false };
                let (a, b) = (self.m.nodes[&n][0].len(), self.m.nodes[&n][1].len());
                let (mut i, mut o) = match c.rng.below(6) {
                    0 => self.rand_ports_count(c),
                    1 => (a + 1 + c.rng.below(2), b),
                    2 => (a, b + 1 + c.rng.below(2)),
                    3 => (a.saturating_sub(1 + c.rng.below(3)), b),
                    4 => (a, b.saturating_sub(1 + c.rng.below(3))),
                    _ => (a.saturating_sub(c.rng.below(3)), b + c.rng.below(3)),
                };
                if c.rng.chance(1, 12) {
                    (i, o) = (0, 0);
                }
                let max = G::max_offset().min(60.max(2 * self.typical_ports));
                self.resize(c, n, i.min(max), o.min(max));
            }
            3 => {
                let from = self.rand_port(c, Some(Direction::Outgoing));
                let to = self.rand_port(c, Some(Direction::Incoming));
                let (Some(mut a), Some(mut b)) = (from, to) else { return false };
                if !G::MULTI || c.rng.chance(1, 3) {
                    // prefer free ports
                    for _ in 0..4 {
                        if self.m.linked(a) {
                            a = self.rand_port(c, Some(Direction::Outgoing)).unwrap();
                        }
                        if self.m.linked(b) {
                            b = self.rand_port(c, Some(Direction::Incoming)).unwrap();
                        }
                    }
                }
                match c.rng.below(4) {
                    0 => {
                        self.link_ports(c, b, a);
                    }
                    1 => {
                        let (na, da, oa) = self.m.ports[&a];
                        let (nb, db, ob) = self.m.ports[&b];
                        if c.rng.bool() {
                            self.link_offsets(c, na, (da, oa), nb, (db, ob), true);
                        } else {
                            self.link_offsets(c, nb, (db, ob), na, (da, oa), false);
                        }
                    }
                    _ => {
                        self.link_ports(c, a, b);
                    }
                }
            }
            4 => {
                let Some(p) = self.rand_port(c, None) else { return false };
                self.unlink_port(c, p);
            }
            5 => {
                if c.rng.bool() {
                    self.compact_nodes(c)
                } else {
                    self.compact_ports(c)
                }
            }
            6 => {
                let Some(a) = self.rand_node(c) else { return false };
                let fr: Vec<NodeIndex> = self.freed.iter().copied().collect();
                let b = if !fr.is_empty() && c.rng.chance(1, 2) { *c.rng.pick(&fr) } else { self.rand_node(c).unwrap() };
                let a = if !fr.is_empty() && c.rng.chance(1, 5) { *c.rng.pick(&fr) } else { a };
                self.swap_nodes(c, a, b);
            }
            7 => {
                if n_nodes > self.max_nodes {
                    return false;
                }
                let (og, om) = small_other::<G>(c);
                self.insert_graph(c, &og, &om);
            }
            8 => {
                let Some(n) = self.rand_node(c) else { return false };
                match c.rng.below(3) {
                    0 => {
                        let l: Vec<End> = self.m.links.keys().copied().collect();
                        if l.is_empty() {
                            return false;
                        }
                        let e = *c.rng.pick(&l);
                        self.unlink_subport(c, e);
                    }
                    1 => {
                        let dir = *c.rng.pick(&DIRS);
                        let v = self.g.subports_of(n, dir);
                        if v.is_empty() {
                            return false;
                        }
                        let e = *c.rng.pick(&v);
                        self.unlink_subport(c, e);
                    }
                    _ => {
                        let n2 = self.rand_node(c).unwrap();
                        let a = self.g.subports_of(n, Direction::Outgoing);
                        let b = self.g.subports_of(n2, Direction::Incoming);
                        if a.is_empty() || b.is_empty() {
                            return false;
                        }
                        let pick = |c: &mut Case, m: &Model, v: &[End]| {
                            let free: Vec<End> = v.iter().copied().filter(|e| !m.links.contains_key(e)).collect();
                            if !free.is_empty() && c.rng.chance(4, 5) {
                                *c.rng.pick(&free)
                            } else {
                                *c.rng.pick(v)
                            }
                        };
                        let x = pick(c, &self.m, &a);
                        let y = pick(c, &self.m, &b);
                        if c.rng.chance(1, 5) {
                            // a subport that does not exist
                            let last = v_last(&a, x.0);
                            let bad = (x.0, last + 1 + c.rng.below(3));
                            match c.rng.below(4) {
                                0 => self.link_subports(c, bad, y),
                                1 => self.link_subports(c, y, bad),
                                2 => self.unlink_subport(c, bad),
                                _ => self.link_subports(c, x, x),
                            }
                        } else if c.rng.chance(1, 6) {
                            self.link_subports(c, y, x);
                        } else {
                            self.link_subports(c, x, y);
                        }
                    }
                }
            }
            9 => self.failing_op(c),
            _ => match c.rng.below(if n_nodes > 6 { 6 } else { 5 }) {
                0 => {
                    c.log(|| "shrink_to_fit()".into());
                    must("shrink_to_fit", || self.g.shrink_to_fit());
                }
                1 => {
                    let (a, b) = (c.rng.below(20), c.rng.below(40));
                    c.log(|| format!("reserve({a}, {b})"));
                    must("reserve", || self.g.reserve(a, b));
                    ensure!(
                        self.g.node_capacity() >= self.g.node_count() + a && self.g.port_capacity() >= self.g.port_count() + b,
                        "reserve",
                        "after reserve({a}, {b}) the capacity is {} nodes and {} ports, for {} nodes and {} ports in use",
                        self.g.node_capacity(),
                        self.g.port_capacity(),
                        self.g.node_count(),
                        self.g.port_count()
                    );
                }
                2 => {
                    c.log(|| "continue on a clone".into());
                    let cl = self.g.clone();
                    ensure!(cl == self.g, "clone-eq", "a clone differs from the original");
                    self.g = cl;
                }
                3 => {
                    let fr: Vec<NodeIndex> = self.freed.iter().copied().collect();
                    if let Some(n) = fr.first() {
                        self.remove_node(c, *n);
                        if c.rng.bool() {
                            self.resize(c, *n, 2, 1);
                        }
                    } else {
                        let n = ni(self.m.nodes.keys().next_back().map_or(0, |n| n.index()) + 50);
                        self.remove_node(c, n);
                    }
                }
                4 => {
                    let _ = must("Debug", || format!("{:?}", self.g));
                }
                _ => {
                    if c.rng.chance(1, 4) {
                        c.log(|| "clear()".into());
                        must("clear", || self.g.clear());
                        self.m = Model::default();
                        self.freed.clear();
                        self.m_node_tag.clear();
                        self.m_port_tag.clear();
                        self.node_tag.clear();
                        self.port_tag.clear();
                    }
                }
            },
        }
        true
    }

    /// Operations that must be refused.
    fn failing_op(&mut self, c: &mut Case) {
        let absent_port = |h: &Self, c: &mut Case| {
            let mx = h.m.ports.keys().next_back().map_or(0, |p| p.index()) + 5;
            for _ in 0..20 {
                let p = pi(c.rng.below(mx + 1));
                if !h.m.ports.contains_key(&p) {
                    return p;
                }
            }
            pi(mx + 500)
        };
        match c.rng.below(6) {
            0 => {
                let (Some(a), Some(b)) = (self.rand_port(c, Some(Direction::Outgoing)), self.rand_port(c, Some(Direction::Outgoing))) else { return };
                self.link_ports(c, a, b);
            }
            1 => {
                let (Some(a), Some(b)) = (self.rand_port(c, Some(Direction::Incoming)), self.rand_port(c, Some(Direction::Incoming))) else { return };
                self.link_ports(c, a, b);
            }
            2 => {
                let Some(a) = self.rand_port(c, None) else { return };
                let p = absent_port(self, c);
                if c.rng.bool() {
                    self.link_ports(c, a, p);
                } else {
                    self.link_ports(c, p, a);
                }
            }
            3 => {
                let p = absent_port(self, c);
                self.unlink_port(c, p);
            }
            4 => {
                let Some(n) = self.rand_node(c) else { return };
                let Some(n2) = self.rand_node(c) else { return };
                let far = c.rng.below(4);
                let (ka, kb) = (self.m.nodes[&n][1].len(), self.m.nodes[&n2][0].len());
                let oa = if c.rng.bool() || ka == 0 { ka + far } else { c.rng.below(ka) };
                let ob = if c.rng.bool() || kb == 0 { kb + far } else { c.rng.below(kb) };
                if oa < ka && ob < kb && self.m.linked(self.m.nodes[&n][1][oa]) {
                    return;
                }
                let by = c.rng.bool();
                self.link_offsets(c, n, (Direction::Outgoing, oa), n2, (Direction::Incoming, ob), by);
            }
            _ => {
                // an already linked port
                let l: Vec<End> = self.m.links.keys().copied().collect();
                if l.is_empty() {
                    return;
                }
                let e = *c.rng.pick(&l);
                let dir = self.m.dir(e.0).reverse();
                let Some(o) = self.rand_port(c, Some(dir)) else { return };
                if c.rng.bool() {
                    self.link_ports(c, e.0, o);
                } else {
                    self.link_ports(c, o, e.0);
                }
            }
        }
    }

    /// Exhaust the free lists on a copy: every index handed out must be fresh.
    pub fn drain_probe(&mut self, c: &mut Case) {
        let keep = (self.g.clone(), self.m.clone(), self.freed.clone(), self.node_tag.clone(), self.port_tag.clone(), self.m_node_tag.clone(), self.m_port_tag.clone());
        let k = (self.freed.len() + 2).min(24);
        c.log(|| "-- probe: add nodes of all sizes".into());
        let mut last = vec![];
        for j in 0..k {
            let t = 1 + j % 9;
            let i = c.rng.below(t + 1).min(G::max_offset());
            last.push(self.add_node(c, i, t - i));
        }
        // write on the new ports: links through aliased slots would show
        for w in last.windows(2) {
            let (a, b) = (self.m.nodes[&w[0]][1].first().copied(), self.m.nodes[&w[1]][0].first().copied());
            if let (Some(a), Some(b)) = (a, b) {
                self.link_ports(c, a, b);
            }
        }
        self.full_check(c);
        (self.g, self.m, self.freed, self.node_tag, self.port_tag, self.m_node_tag, self.m_port_tag) = keep;
        c.count("drain_probes", 1);
    }

    /// Run `n` random operations with regular full comparisons.
    pub fn run(&mut self, c: &mut Case, w: &Mix, n: usize) {
        let every = if c.rng.chance(1, 3) { 1 } else { 1 + c.rng.below(8) };
        for i in 0..n {
            self.step(c, w);
            if i % every == 0 {
                self.full_check(c);
            }
            if c.rng.chance(1, 40) {
                self.drain_probe(c);
            }
        }
        self.full_check(c);
        self.drain_probe(c);
        self.full_check(c);
        let fp = self.m.fingerprint();
        c.feed(fp);
        c.count("final_states", 1);
        if self.m.link_count() > 0 && self.m.nodes.len() > 1 {
            c.nontrivial();
        }
        c.fp = mix(c.fp);
    }
}

/// A small graph built by add/link only, to insert into others.
pub fn small_other<G: Gut>(c: &mut Case) -> (G, Model) {
    let logging = c.logging;
    c.logging = false;
    let mut h: Hist<G> = Hist::new(c);
    h.max_nodes = 5;
    let k = c.rng.below(10);
    let w = Mix { add: 8, remove: 2, resize: 1, link: 20, unlink: 1, compact: 0, swap: 1, insert: 0, sub: 2, fail: 0, misc: 0 };
    for _ in 0..k {
        h.step(c, &w);
    }
    c.logging = logging;
    (h.g, h.m)
}

fn v_last(v: &[End], p: PortIndex) -> usize {
    v.iter().filter(|e| e.0 == p).map(|e| e.1).max().unwrap_or(0)
}
