PG="src/portgraph.rs"; MG="src/multiportgraph.rs"; HI="src/hierarchy.rs"
SEEDS=[
dict(id="c04-resize-direction", prop="C04", edits=[(PG,
"        if (node_meta.incoming() as usize) > incoming {\n            pairs.for_each(move_port);",
"        if (node_meta.incoming() as usize) > incoming\n            && new_meta.port_count() <= node_meta.port_count()\n        {\n            pairs.for_each(move_port);")],
needs="set_num_ports that removes inputs while the total grows, on a node with at least two outputs whose slab already has room (it was grown before)",
breaks="surviving output ports are overwritten while they are shifted: links are lost or duplicated",
demo='''
use portgraph::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(2, 3);
    let b = g.add_node(3, 0);
    g.set_num_ports(a, 3, 3, |_, _| {});
    for i in 0..3 { g.link_nodes(a, i, b, i).unwrap(); }
    g.set_num_ports(a, 2, 5, |_, _| {});
    for i in 0..3 {
        let o = g.output(a, i).unwrap();
        let t = g.input(b, i).unwrap();
        assert_eq!(g.port_link(o), Some(t));
        assert_eq!(g.port_link(t), Some(o));
    }
}
'''),
dict(id="c03-alloc-prev", prop="C03", edits=[(PG,
"                    let next_entry = self.node_meta[next.index()].free_entry_mut().unwrap();\n                    next_entry.prev = None.into();",
"                    debug_assert!(self.node_meta[next.index()].free_entry_mut().is_some());")],
needs="remove two nodes, add one (reusing the last removed), then swap the remaining free slot with a live node, then add again",
breaks="the free list head still points back to a live node; the swap panics or a live slot is handed out again",
demo='''
use portgraph::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let n: Vec<_> = (0..4).map(|_| g.add_node(0, 0)).collect();
    g.remove_node(n[0]);
    g.remove_node(n[1]);
    let r = g.add_node(0, 0);
    assert_eq!(r, n[1]);
    g.swap_nodes(n[0], n[3]);
    let f = g.add_node(1, 1);
    assert_eq!(f, n[3]);
    assert_eq!(g.node_count(), 4);
    assert_eq!(g.nodes_iter().count(), 4);
}
'''),
dict(id="c05-compact-capacity", prop="C05", edits=[(PG,
"            if node_meta.first_port() == old_port {",
"            if node_meta.first_port() == old_port && old_port != new_port {")],
needs="a node whose ports do not move in compact_ports but whose slab has spare capacity (shrunk by set_num_ports), followed by growing it again",
breaks="the node keeps its old capacity although the following ports moved into it; growing the node overwrites another node's ports",
demo='''
use portgraph::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0, 4);
    let b = g.add_node(2, 0);
    g.set_num_ports(a, 0, 2, |_, _| {});
    g.compact_ports(|_, _| {});
    g.set_num_ports(a, 0, 4, |_, _| {});
    let pa: Vec<_> = g.all_ports(a).collect();
    let pb: Vec<_> = g.all_ports(b).collect();
    assert!(pa.iter().all(|p| !pb.contains(p)));
    for p in pb { assert_eq!(g.port_node(p), Some(b)); }
    assert_eq!(g.ports_iter().count(), g.port_count());
}
'''),
dict(id="c01-clear-freelist", prop="C01", edits=[(PG,
"        self.node_free = None.into();\n        self.port_free.clear();\n        self.node_count = 0;",
"        self.port_free.clear();\n        self.node_count = 0;")],
needs="remove a node, clear the graph, then add a node",
breaks="the free list survives clear() and points outside the graph",
demo='''
use portgraph::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(1, 1);
    g.add_node(1, 1);
    g.remove_node(a);
    g.clear();
    let n = g.add_node(1, 0);
    assert!(g.contains_node(n));
    assert_eq!(g.nodes_iter().collect::<Vec<_>>(), vec![n]);
}
'''),
dict(id="c06-offset-cause", prop="C06", edits=[("src/view.rs",
"                node: node_b,\n                offset: offset_b,",
"                node: node_a,\n                offset: offset_b,")],
needs="linking by offsets with an existing first and a missing second offset on another node", breaks="the refusal blames a node that has that offset, or that was not asked for it",
demo='''
use portgraph::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(3, 3);
    let b = g.add_node(1, 0);
    assert_eq!(g.link_nodes(a, 0, b, 2), Err(LinkError::UnknownOffset { node: b, offset: PortOffset::new_incoming(2) }));
}
'''),
dict(id="c09-shrink-detach", prop="C09", edits=[(HI,
"            self.remove(NodeIndex::new(node));\n        }\n        self.data.shrink_to",
"            self.detach(NodeIndex::new(node));\n        }\n        self.data.shrink_to")],
needs="shrink_to a capacity that cuts off a node whose children lie below it",
breaks="the children keep a parent that no longer exists in the hierarchy",
demo='''
use portgraph::*;
fn main() {
    let n: Vec<NodeIndex> = (0..6).map(NodeIndex::new).collect();
    let mut h = Hierarchy::new();
    h.push_child(n[0], n[5]).unwrap();
    h.push_child(n[1], n[0]).unwrap();
    h.shrink_to(3);
    assert_eq!(h.parent(n[0]), None);
    assert_eq!(h.parent(n[1]), Some(n[0]));
    assert_eq!(h.children(n[5]).count(), 0);
}
'''),
dict(id="c10-bitvec-rekey", prop="C10", edits=[("src/secondary.rs",
"        let val = self.take(old);\n        if let Some(new) = new {\n            self.set(new, val);\n        }\n    }\n\n    #[inline]\n    fn swap(&mut self, key0: K, key1: K) {\n        let key0: usize",
"        if self.take(old) {\n            if let Some(new) = new {\n                self.set(new, true);\n            }\n        }\n    }\n\n    #[inline]\n    fn swap(&mut self, key0: K, key1: K) {\n        let key0: usize")],
needs="rekey of an index holding false onto an index holding true in a BitVec map",
breaks="the value of the target index survives instead of being replaced by the moved default",
demo='''
use portgraph::*;
use bitvec::vec::BitVec;
fn main() {
    let mut m: BitVec = BitVec::new();
    let k = |i| NodeIndex::<u32>::new(i);
    SecondaryMap::set(&mut m, k(3), true);
    SecondaryMap::rekey(&mut m, k(1), Some(k(3)));
    assert!(!*SecondaryMap::get(&m, k(3)));
}
''', deps='bitvec = "1.0.1"'),
dict(id="c07-subport-reuse", prop="C07", edits=[(MG,
"        self.copy_node_count -= 1;\n        self.subport_count -= subports.len();",
"        self.copy_node_count -= 1;\n        self.subport_count -= 2.max(subports.len() - 1);")],
needs="a port with three or more subports whose links are all removed at once (unlink_port or remove_node)",
breaks="the port count no longer matches the ports",
demo='''
use portgraph::*;
fn main() {
    let mut g: MultiPortGraph = MultiPortGraph::new();
    let a = g.add_node(0, 1);
    let b = g.add_node(4, 0);
    for i in 0..4 { g.link_nodes(a, 0, b, i).unwrap(); }
    assert_eq!(g.port_count(), 5);
    g.unlink_port(g.output(a, 0).unwrap());
    assert_eq!(g.port_count(), 5);
    assert_eq!(g.ports_iter().count(), 5);
}
'''),
dict(id="c11-try-from", prop="C11", edits=[("src/index.rs",
"        if index > Self::max_index() {\n            Err(IndexError { index })\n        } else {\n            Ok(Self::new(index, false))",
"        let value = index as u32 as usize;\n        if value > Self::max_index() {\n            Err(IndexError { index })\n        } else {\n            Ok(Self::new(value, false))")],
needs="try_from of a value of 2^32 or more", breaks="the value is truncated to a different index instead of being refused (or kept, for 64 bit indices)",
demo='''
use portgraph::*;
fn main() {
    assert!(NodeIndex::<u32>::try_from((1usize << 32) + 5).is_err());
    assert_eq!(NodeIndex::<u64>::try_from((1usize << 32) + 5).unwrap().index(), (1usize << 32) + 5);
}
'''),
dict(id="c02-free-ports-link", prop="C02", edits=[(PG,
"                self.port_link[link.index()] = None.into();\n                self.link_count -= 1;\n            }\n        }",
"                if link.index() >= ports.index() + size || link.index() < i {\n                    self.port_link[link.index()] = None.into();\n                }\n                self.link_count -= 1;\n            }\n        }")],
needs="removing a node linked to itself from an input to an output port",
breaks="a link from a node to itself is counted twice when the node is removed: the link count is wrong (or underflows)",
demo='''
use portgraph::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(2, 2);
    let b = g.add_node(1, 1);
    g.link_nodes(a, 0, a, 1).unwrap();
    g.link_nodes(b, 0, b, 0).unwrap();
    g.remove_node(a);
    assert_eq!(g.link_count(), 1);
    let c = g.add_node(2, 2);
    assert_eq!(g.all_links(c).count(), 0);
}
'''),
]
