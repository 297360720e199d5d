# Rejected when tried (so not in seeded/): c17-interpolate, c20-map-default, c14-mark-pushed.
PG="src/portgraph.rs"; HI="src/hierarchy.rs"; MP="src/multiportgraph.rs"; LC="src/algorithms/convex/line_convex_checker.rs"; IX="src/index.rs"; UN="src/unmanaged.rs"; PE="src/view/petgraph.rs"; MM="src/render/mermaid.rs"; BO="src/boundary.rs"; MI="src/multiportgraph/iter.rs"; PO="src/algorithms/post_order.rs"; SG="src/view/subgraph.rs"; SE="src/secondary.rs"; VI="src/view.rs"
REL='''
[profile.dev]
debug-assertions = false
overflow-checks = false
'''
SEEDS=[
dict(id="c25-children-last", prop="C25", edits=[(HI,
"    #[inline(always)]\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        (self.len, Some(self.len))\n    }\n}\n\nimpl DoubleEndedIterator for Children<'_> {",
"    #[inline(always)]\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        (self.len, Some(self.len))\n    }\n\n    #[inline]\n    fn last(self) -> Option<NodeIndex> {\n        self.prev.to_option()\n    }\n}\n\nimpl DoubleEndedIterator for Children<'_> {")],
needs="calling last on an iterator over children that is exhausted", breaks="an item that was yielded already comes again",
demo='''
use portgraph::*;
fn main() {
    let n = |i| NodeIndex::new(i);
    let mut h = Hierarchy::new();
    h.push_child(n(1), n(0)).unwrap();
    h.push_child(n(2), n(0)).unwrap();
    let mut it = h.children(n(0));
    it.next();
    it.next();
    assert_eq!(it.last(), None);
}
'''),
dict(id="c17-interpolate", prop="C17", edits=[(LC,
"            if guess == low {\n                guess += 1;\n            } else if guess == high {\n                guess -= 1;\n            }",
"            if guess == low {\n                guess += 1;\n            }")],
needs="a line whose positions are far from evenly spread", breaks="the search for a position on the line never ends",
demo='''
use portgraph::*;
use portgraph::algorithms::*;
fn main() {
    // One line with positions 0, 1, .., 9 and then a far one.
    let mut g: PortGraph = PortGraph::new();
    let k = 12;
    let n: Vec<_> = (0..k).map(|_| g.add_node(1, 1)).collect();
    for i in 1..k { g.link_nodes(n[i - 1], 0, n[i], 0).unwrap(); }
    let far: Vec<_> = (0..200).map(|_| g.add_node(1, 1)).collect();
    for i in 1..200 { g.link_nodes(far[i - 1], 0, far[i], 0).unwrap(); }
    let end = g.add_node(2, 0);
    g.link_nodes(far[199], 0, end, 0).unwrap();
    g.link_nodes(n[k - 1], 0, end, 1).unwrap();
    let all: Vec<_> = n.iter().chain(&far).copied().chain([end]).collect();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let c = LineConvexChecker::new(&g);
        for (i, &a) in all.iter().enumerate() { for &b in &all[i..] { c.is_node_convex(if a == b { vec![a] } else { vec![a, b] }); } }
        tx.send(()).unwrap();
    });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(60)).is_ok());
}
'''),
dict(id="c21-node-bound", prop="C21", edits=[(PE,
"                self.nodes_iter()\n                    .map(|node| node.index() + 1)\n                    .max()\n                    .unwrap_or(0)",
"                self.nodes_iter()\n                    .last()\n                    .map_or(0, |node| node.index() + 1)")],
needs="a region of a hierarchy in which a node comes before one with a smaller index", breaks="the bound on the node indices is too small",
demo='''
use portgraph::*;
use portgraph::view::Region;
use petgraph::visit::NodeIndexable;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let n: Vec<_> = (0..3).map(|_| g.add_node(0, 0)).collect();
    let mut h = Hierarchy::new();
    h.push_child(n[2], n[0]).unwrap();
    h.push_child(n[1], n[0]).unwrap();
    let r = Region::new(&g, &h, n[0]);
    assert_eq!((&r).node_bound(), 3);
}
''', deps='petgraph = "0.8.1"'),
dict(id="c22-inside-target", prop="C22", edits=[(MM,
"                            self.is_inside(src_node, r) && self.is_inside(tgt_node, r)",
"                            self.is_inside(src_node, r)")],
needs="a view that misses a node between a common ancestor and the target of a link", breaks="the link is drawn in a box its target is not part of",
demo='''
use portgraph::*;
use portgraph::render::MermaidFormat;
use portgraph::view::filter::NodeFiltered;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let n: Vec<_> = (0..4).map(|_| g.add_node(1, 1)).collect();
    let mut h = Hierarchy::new();
    h.push_child(n[1], n[0]).unwrap();
    h.push_child(n[2], n[0]).unwrap();
    h.push_child(n[3], n[2]).unwrap();
    g.link_nodes(n[1], 0, n[3], 0).unwrap();
    let v: NodeFiltered<_, NodeFilter<()>, ()> = NodeFiltered::new_node_filtered(&g, |n, _| n.index() != 2, ());
    let s = v.mermaid_format().with_hierarchy(&h).finish();
    let end = s.find("end").unwrap();
    let link = s.find("1-->3").unwrap();
    assert!(link > end, "{s}");
}
type NodeFilter<C> = fn(NodeIndex, &C) -> bool;
'''),
dict(id="c23-niche", prop="C23", edits=[(PG,
"        assert!(\n            incoming <= NodeMeta::MAX_INCOMING && incoming + outgoing <= NodeMeta::MAX_PORTS,\n            \"Total port count exceeds maximum.\"\n        );\n\n        let node = self.alloc_node();",
"        assert!(\n            incoming + outgoing <= NodeMeta::MAX_PORTS,\n            \"Total port count exceeds maximum.\"\n        );\n\n        let node = self.alloc_node();"),(PG,
"        assert!(incoming <= Self::MAX_INCOMING as u16);\n        assert!(outgoing <= Self::MAX_OUTGOING as u16);\n        assert!(incoming.saturating_add(outgoing) <= capacity);",
"        // The callers check the number of ports.\n        debug_assert!(incoming <= Self::MAX_INCOMING as u16);\n        debug_assert!(outgoing <= Self::MAX_OUTGOING as u16);\n        debug_assert!(incoming.saturating_add(outgoing) <= capacity);")],
needs="a release build, wide port offsets and a node with exactly 65535 inputs", breaks="a NonZero integer is zero: undefined behaviour",
deps=REL,
demo='''
use portgraph::*;
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut g: PortGraph<u32, u32, u32> = PortGraph::new();
        let n = g.add_node(65535, 0);
        assert!(g.contains_node(n));
        assert_eq!(g.num_inputs(n), 65535);
        assert_eq!(g.inputs(n).count(), 65535);
        true
    });
    // Refusing is right.
    if let Err(e) = r {
        let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
        assert!(m.contains("exceeds maximum"), "{m}");
    }
}
'''),
dict(id="c19-stronger-count", prop="C19", edits=[(BO,
"            if other_reachable\n                .iter()\n                .any(|port| !self_reachable.contains(port))\n            {\n                return false;\n            }",
"            if other_reachable.len() > self_reachable.len()\n                || (other_reachable.len() == self_reachable.len()\n                    && other_reachable != self_reachable)\n            {\n                return false;\n            }")],
needs="two orderings where one input reaches more outputs in the first, but not all those of the second", breaks="an ordering counts as stronger although it lacks a pair",
demo='''
use portgraph::*;
use portgraph::boundary::Boundary;
fn main() {
    let make = |outs: &[usize]| {
        let mut g: PortGraph = PortGraph::new();
        let s = g.add_node(1, 3);
        let t: Vec<_> = (0..3).map(|_| g.add_node(1, 1)).collect();
        for (i, &o) in outs.iter().enumerate() { g.link_nodes(s, i, t[o], 0).unwrap(); }
        let b = Boundary::new([g.input(s, 0).unwrap()], t.iter().map(|&t| g.output(t, 0).unwrap()).collect::<Vec<_>>());
        (g, b)
    };
    let (g1, b1) = make(&[0, 1]);
    let (g2, b2) = make(&[2]);
    assert!(!b1.is_stronger_than(&b2, &g1, &g2));
}
'''),
dict(id="c20-map-default", prop="C20", edits=[(UN,
"    phantom: PhantomData<K>,\n    default: V,\n}",
"    phantom: PhantomData<K>,\n    #[cfg_attr(feature = \"serde\", serde(skip))]\n    default: V,\n}")],
needs="serialising a map with a default other than the type's", breaks="the map comes back with another default",
deps='serde_json = "1"',
demo='''
use portgraph::*;
fn main() {
    let mut m: UnmanagedDenseMap<NodeIndex, u32> = UnmanagedDenseMap::with_default(7);
    m[NodeIndex::new(1)] = 3;
    let s = serde_json::to_string(&m).unwrap();
    let r: UnmanagedDenseMap<NodeIndex, u32> = serde_json::from_str(&s).unwrap();
    assert_eq!(r[NodeIndex::new(9)], 7);
    assert!(m == r);
}
'''),
dict(id="c11-none-narrow", prop="C11", edits=[(IX,
"        (U::max_value()\n            .to_usize()\n            .expect(\"max value larger than usize\")\n            >> 1)\n            - 1",
"        let bits = 8 * mem::size_of::<U>().min(4);\n        (1usize << (bits - 1)) - 2")],
needs="64-bit indices or offsets above 2^31", breaks="valid values are refused",
demo='''
use portgraph::*;
fn main() {
    assert_eq!(NodeIndex::<u64>::max_index(), (u64::MAX >> 1) as usize - 1);
    assert_eq!(PortOffset::<u64>::new_outgoing(1 << 40).index(), 1 << 40);
}
'''),
dict(id="c10-set-swap", prop="C10", edits=[(SE,
"    #[inline]\n    fn take(&mut self, key: K) -> bool {\n        HashSet::take(self, &key).is_some()\n    }\n",
"    #[inline]\n    fn take(&mut self, key: K) -> bool {\n        HashSet::take(self, &key).is_some()\n    }\n\n    #[inline]\n    fn swap(&mut self, key0: K, key1: K) {\n        // Move the entry over, in whichever direction.\n        if HashSet::remove(self, &key0) {\n            HashSet::insert(self, key1);\n        } else if HashSet::remove(self, &key1) {\n            HashSet::insert(self, key0);\n        }\n    }\n")],
needs="swapping two keys of a set map which are both set", breaks="one of the values is lost",
demo='''
use portgraph::*;
use std::collections::HashSet;
fn main() {
    let n = |i| NodeIndex::new(i);
    let mut m: HashSet<NodeIndex> = SecondaryMap::new();
    SecondaryMap::set(&mut m, n(1), true);
    SecondaryMap::set(&mut m, n(2), true);
    SecondaryMap::swap(&mut m, n(1), n(2));
    assert!(*SecondaryMap::get(&m, n(1)) && *SecondaryMap::get(&m, n(2)));
}
'''),
dict(id="c14-mark-pushed", prop="C14", edits=[(PO,
"                    if !self.visited[link_node.index()] {\n                        self.stack.push(link_node);\n                    }",
"                    // Do not push a node again if it is already on top.\n                    if !self.visited[link_node.index()] && !self.stack[..self.stack.len() - 1].contains(&link_node) {\n                        self.stack.push(link_node);\n                    }")],
needs="a node that waits on the stack as a sibling and is reached again from deeper in the traversal", breaks="the order is not depth-first",
demo='''
use portgraph::*;
use portgraph::algorithms::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0, 2);
    let b = g.add_node(1, 1);
    let c = g.add_node(2, 1);
    let d = g.add_node(1, 0);
    g.link_nodes(a, 0, b, 0).unwrap();
    g.link_nodes(a, 1, c, 0).unwrap();
    g.link_nodes(b, 0, c, 1).unwrap();
    g.link_nodes(c, 0, d, 0).unwrap();
    assert_eq!(postorder(&g, [a], Direction::Outgoing).collect::<Vec<_>>(), [d, c, b, a]);
}
'''),
dict(id="c02-loop-direction", prop="C02", edits=[(PG,
"        // Disconnect any port to be removed.\n        for port in self\n            ._inputs(node)\n            .skip(incoming)\n            .chain(self._outputs(node).skip(outgoing))\n        {\n            let old_link = self.unlink_port(port);\n            rekey(port, PortOperation::Removed { old_link });\n        }\n        // Allocate",
"        // Disconnect any port to be removed.\n        let mut dropped = 0;\n        for port in self\n            ._inputs(node)\n            .skip(incoming)\n            .chain(self._outputs(node).skip(outgoing))\n        {\n            let old_link = self.port_link[port.index()].take().to_option();\n            if let Some(link) = old_link {\n                self.port_link[link.index()] = None.into();\n                dropped += 1;\n            }\n            rekey(port, PortOperation::Removed { old_link });\n        }\n        if new_total > 0 {\n            self.link_count -= dropped;\n        }\n        // Allocate")],
needs="removing all the ports of a linked node by a resize", breaks="the number of links still includes those removed",
demo='''
use portgraph::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0, 1);
    let b = g.add_node(1, 0);
    g.link_nodes(a, 0, b, 0).unwrap();
    g.set_num_ports(b, 0, 0, |_, _| {});
    assert_eq!(g.link_count(), 0);
}
'''),
dict(id="c08-reserve-gap", prop="C08", edits=[(VI,
"            for (from, to) in other.all_links(old) {\n                // If the other node has already been inserted, we can link\n                let Some(&other_node) = rekeys.get(&other.port_node(to).unwrap()) else {\n                    continue;\n                };",
"            for (from, to) in other.all_links(old) {\n                // Link once both nodes have been inserted. Nodes come in order.\n                let target = other.port_node(to).unwrap();\n                if target > old {\n                    continue;\n                }\n                let Some(&other_node) = rekeys.get(&target) else {\n                    continue;\n                };")],
needs="inserting a region whose nodes do not come in the order of their indices", breaks="links are missing in the copy",
demo='''
use portgraph::*;
use portgraph::view::Region;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let n: Vec<_> = (0..3).map(|_| g.add_node(1, 1)).collect();
    let mut h = Hierarchy::new();
    h.push_child(n[2], n[0]).unwrap();
    h.push_child(n[1], n[0]).unwrap();
    g.link_nodes(n[1], 0, n[2], 0).unwrap();
    let mut k: PortGraph = PortGraph::new();
    let m = k.insert_graph(&Region::new(&g, &h, n[0])).unwrap();
    assert_eq!(k.link_count(), 1);
    assert!(k.connected(m[&n[1]], m[&n[2]]));
}
'''),
]
