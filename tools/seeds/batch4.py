PO="src/algorithms/post_order.rs"; DM="src/algorithms/dominators.rs"; DY="src/algorithms/dynamic.rs"; UN="src/unmanaged.rs"; PG="src/portgraph.rs"; MP="src/multiportgraph.rs"; HI="src/hierarchy.rs"; IX="src/index.rs"; LI="src/algorithms/convex/line_convex_checker.rs"; TO="src/algorithms/convex/topo_convex_checker.rs"; WE="src/weights.rs"
SEEDS=[
dict(id="c14-stack-once", prop="C14", edits=[(PO,
"                    if !self.visited[link_node.index()] {",
"                    // Do not keep the same node on the stack twice.\n                    if !self.visited[link_node.index()] && !self.stack.contains(&link_node) {")],
needs="a node that two nodes of the traversal link to, where the one visited first is not its first parent on the stack (a diamond with a shortcut)",
breaks="the shared node is returned after a node that links to it, so the order is not a depth-first post-order",
demo='''
use portgraph::*;
use portgraph::algorithms::postorder;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0, 2);
    let x = g.add_node(1, 1);
    let y = g.add_node(2, 0);
    g.link_nodes(a, 0, x, 0).unwrap();
    g.link_nodes(a, 1, y, 0).unwrap();
    g.link_nodes(x, 0, y, 1).unwrap();
    assert_eq!(postorder(&g, [a], Direction::Outgoing).collect::<Vec<_>>(), vec![y, x, a]);
}
'''),
dict(id="c14-filter-far", prop="C14", edits=[(PO,
"                    if self.ignore_node(link_node) || self.ignore_port(link_node, link) {",
"                    if self.ignore_node(link_node) || self.ignore_port(next, link) {")],
needs="a port filter that looks at the node it is given, and not just at the port",
breaks="the filter is asked about the far port together with the near node",
demo='''
use portgraph::*;
use portgraph::algorithms::postorder_filtered;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0, 1);
    let b = g.add_node(1, 0);
    g.link_nodes(a, 0, b, 0).unwrap();
    let gr = &g;
    let o: Vec<_> = postorder_filtered(&g, [a], Direction::Outgoing, |_| true, |n, p| gr.port_node(p) == Some(n)).collect();
    assert_eq!(o, vec![b, a]);
}
'''),
dict(id="c14-first-source", prop="C14", edits=[(PO,
"            if !self.visited.replace(next.index(), true) {",
"            if self.stack.len() == 1 && self.visited[next.index()] && self.finished.count_ones() == 0 {\n                // Only the source is left, and nothing was found behind it.\n                self.stack.clear();\n                self.nodes_seen += 1;\n                return Some(next);\n            }\n            if !self.visited.replace(next.index(), true) {")],
needs="a traversal whose first returned node is a source alone on the stack that links to itself",
breaks="nothing unless the iterator is asked again",
demo='''
fn main() {}
'''),
dict(id="c18-swap-remove", prop="C18", edits=[(DY,
"""            self.order.remove(pos);
            for (i, &n) in self.order.iter().enumerate() {
                self.node_to_pos.insert(n, i);
            }
            Ok(())""",
"""            // Fill the gap, only one position changes.
            self.order.swap_remove(pos);
            if let Some(&moved) = self.order.get(pos) {
                self.node_to_pos.insert(moved, pos);
            }
            Ok(())""")],
needs="removing a node from the middle of the order, while the last node of the order has a predecessor between",
breaks="the last node moves in front of its predecessor: later cycle checks and convexity answers go wrong",
demo='''
use portgraph::*;
use portgraph::algorithms::{DynamicTopoConvexChecker, ConvexChecker};
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let x = g.add_node(0, 0);
    let n: Vec<_> = (0..4).map(|_| g.add_node(2, 2)).collect();
    for i in 0..3 { g.link_nodes(n[i], 0, n[i + 1], 0).unwrap(); }
    for first in [x, n[0]] {
        let mut c = DynamicTopoConvexChecker::new(g.clone());
        c.remove_node(first);
        assert!(!c.is_convex([n[1], n[3]], [], []));
        assert!(c.is_convex([n[1], n[2], n[3]], [], []));
    }
}
'''),
dict(id="c18-readd", prop="C18", edits=[(DY,
"""        let pos = self.order.len();
        self.order.push(node);
        self.node_to_pos.insert(node, pos);""",
"""        let pos = self.node_to_pos.len();
        self.order.push(node);
        self.node_to_pos.insert(node, pos);"""),(DY,
"""            self.order.remove(pos);
            for (i, &n) in self.order.iter().enumerate() {
                self.node_to_pos.insert(n, i);
            }
            Ok(())""",
"""            self.order.remove(pos);
            for (i, &n) in self.order.iter().enumerate().skip(pos + 1) {
                self.node_to_pos.insert(n, i);
            }
            Ok(())""")],
needs="removing a node that is followed by another one in the order, then asking about the one that takes its place",
breaks="the node that moves up keeps its old position, which another node has as well",
demo='''
use portgraph::*;
use portgraph::algorithms::{DynamicTopoConvexChecker, ConvexChecker};
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let n: Vec<_> = (0..4).map(|_| g.add_node(2, 2)).collect();
    g.link_nodes(n[1], 0, n[2], 0).unwrap();
    g.link_nodes(n[2], 0, n[3], 0).unwrap();
    let mut c = DynamicTopoConvexChecker::new(g);
    c.remove_node(n[0]);
    assert!(!c.is_convex([n[1], n[3]], [], []));
    let a = c.add_node(1, 1);
    let _ = c.link_nodes(n[3], 0, a, 0);
    assert!(!c.is_convex([n[2], a], [], []));
    let b = c.add_node(1, 1);
    c.link_nodes(b, 0, n[1], 0).unwrap();
    assert!(!c.is_convex([b, n[2]], [], []));
}
'''),
dict(id="c20-free-list", prop="C20", edits=[(PG,
"""    /// The previous free node.
    prev: MaybeNodeIndex<u32>,
    /// The next free node.""",
"""    /// The previous free node. Only needed while editing.
    #[cfg_attr(feature = "serde", serde(default, skip_serializing_if = "MaybeNodeIndex::is_some_ref"))]
    prev: MaybeNodeIndex<u32>,
    /// The next free node."""),(IX,
"""impl MaybeNodeIndex<u32> {
""",
"""impl MaybeNodeIndex<u32> {
    /// Whether there is an index.
    #[cfg(feature = "serde")]
    pub(crate) fn is_some_ref(&self) -> bool {
        (*self).is_some()
    }

""")],
needs="serialising a graph with at least two free node slots to a self-describing format",
breaks="the list of free slots is not doubly linked any more after a round trip",
demo='''
use portgraph::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let n: Vec<_> = (0..4).map(|_| g.add_node(1, 1)).collect();
    g.remove_node(n[1]);
    g.remove_node(n[2]);
    let h: PortGraph = serde_json::from_str(&serde_json::to_string(&g).unwrap()).unwrap();
    assert!(g == h);
}
''', deps='serde_json = "1"'),
dict(id="c20-flag-trim", prop="C20", edits=[(MP,
"    /// Flags marking the implicit copy nodes.\n    copy_node: BitVec,\n    /// Number of implicit",
"    /// Flags marking the implicit copy nodes.\n    copy_node: BitVec,\n    #[cfg_attr(feature = \"serde\", serde(default))]\n    /// Number of implicit"),(MP,
"    /// Number of subports in the copy nodes of the graph.\n    subport_count: usize,",
"    /// Number of subports in the copy nodes of the graph.\n    #[cfg_attr(feature = \"serde\", serde(skip_serializing_if = \"is_large\", default))]\n    subport_count: usize, // a single byte is enough to store it"),(MP,
"impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {\n    /// Create a new empty",
"#[cfg(feature = \"serde\")]\nfn is_large(n: &usize) -> bool {\n    *n > u8::MAX as usize\n}\n\nimpl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {\n    /// Create a new empty")],
needs="a multiport graph with more than 255 subports in use",
breaks="the number of subports is lost, so port counts are wrong after a round trip",
demo='''
use portgraph::*;
fn main() {
    let mut g: MultiPortGraph = MultiPortGraph::new();
    let (a, b) = (g.add_node(0, 1), g.add_node(1, 0));
    for _ in 0..200 { g.link_nodes(a, 0, b, 0).unwrap(); }
    let h: MultiPortGraph = serde_json::from_str(&serde_json::to_string(&g).unwrap()).unwrap();
    assert!(g == h);
    assert_eq!(g.port_count(), h.port_count());
}
''', deps='serde_json = "1"'),
dict(id="c20-unsigned-index", prop="C20", edits=[(IX,
"                self.index().serialize(serializer)\n            }\n        }\n\n        #[cfg(feature = \"serde\")]\n        impl<'de, U: Unsigned + serde::Deserialize<'de>> serde::Deserialize<'de> for $name<U> {",
"                // Indices rarely exceed 16 bits.\n                match u16::try_from(self.index()) {\n                    Ok(index) => index.serialize(serializer),\n                    Err(_) => (self.index() as u32).serialize(serializer),\n                }\n            }\n        }\n\n        #[cfg(feature = \"serde\")]\n        impl<'de, U: Unsigned + serde::Deserialize<'de>> serde::Deserialize<'de> for $name<U> {")],
needs="an index of 64 bit width above 2^32", breaks="large indices are truncated",
demo='''
use portgraph::*;
fn main() {
    let n: NodeIndex<u64> = NodeIndex::new(1 << 40);
    let m: NodeIndex<u64> = serde_json::from_str(&serde_json::to_string(&n).unwrap()).unwrap();
    assert_eq!(n, m);
}
''', deps='serde_json = "1"'),
dict(id="c23-stale-pointer", prop="C23", edits=[(UN,
"            if max_index >= self.data.len() {\n                self.resize_for_get_mut(max_index + 1);\n            }\n        };",
"            if max_index > self.data.len() {\n                self.resize_for_get_mut(max_index + 1);\n            }\n        };"),(UN,
"            if offset >= self.data.len() {\n                return None;\n            }\n            // SAFETY",
"            // SAFETY")],
needs="asking for several values at once, the largest key being exactly the length of the storage",
breaks="a reference behind the end of the storage is handed out",
demo='''
use portgraph::*;
fn main() {
    let mut m: UnmanagedDenseMap<NodeIndex, u64> = UnmanagedDenseMap::new();
    m[NodeIndex::new(2)] = 7;
    let d = m.get_disjoint_mut([NodeIndex::new(3), NodeIndex::new(0)]).unwrap();
    *d[0] = 5;
    assert_eq!(m[NodeIndex::new(3)], 5);
}
'''),
dict(id="c23-pairs-only", prop="C23", edits=[(UN,
"            if offsets[(i + 1)..].contains(&offset) {",
"            if offsets[(i + 1)..].first() == Some(&offset) {")],
needs="asking for at least three values of which two that are not adjacent in the list coincide",
breaks="two mutable references to the same value are handed out",
demo='''
use portgraph::*;
fn main() {
    let mut m: UnmanagedDenseMap<NodeIndex, u64> = UnmanagedDenseMap::new();
    let n = |i| NodeIndex::new(i);
    assert!(m.get_disjoint_mut([n(1), n(2), n(1)]).is_none());
    assert!(m.get_disjoint_mut([n(1), n(2), n(3)]).is_some());
}
'''),
dict(id="c15-one-pass", prop="C15", edits=[(DM,
"                if new_dominator != dominators[post_order_index] {\n                    changed = true;\n                    dominators[post_order_index] = new_dominator;\n                }",
"                if new_dominator != dominators[post_order_index] {\n                    // Only a node that had a dominator before can affect its successors again.\n                    changed |= dominators[post_order_index] != usize::MAX;\n                    dominators[post_order_index] = new_dominator;\n                }")],
needs="a graph with an irreducible loop, where a second pass is needed",
breaks="the dominators are left as they are after the first pass",
demo='''
use portgraph::*;
use portgraph::algorithms::*;
fn main() {
    // Cooper, Harvey, Kennedy, figure 2/4
    let mut g: PortGraph = PortGraph::new();
    let n: Vec<_> = (0..6).map(|_| g.add_node(4, 4)).collect();
    let mut i = [0; 6]; let mut o = [0; 6];
    for (a, b) in [(5, 4), (5, 3), (4, 1), (3, 2), (1, 2), (2, 1), (2, 0), (0, 2)] {
        g.link_nodes(n[a], o[a], n[b], i[b]).unwrap(); o[a] += 1; i[b] += 1;
    }
    let t: DominatorTree = dominators(&g, n[5], Direction::Outgoing);
    for k in 0..5 { assert_eq!(t.immediate_dominator(n[k]), Some(if k == 0 { n[2] } else { n[5] }), "{k}"); }
}
'''),
dict(id="c15-pred-filter", prop="C15", edits=[(DM,
"                        if !node_filter(pred) || !port_filter(pred, link) {",
"                        if !port_filter(pred, link) {")],
needs="nothing", breaks="nothing", demo="fn main() {}"),
]
