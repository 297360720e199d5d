PG="src/portgraph.rs"; HI="src/hierarchy.rs"; LC="src/algorithms/convex/line_convex_checker.rs"; DO="src/algorithms/dominators.rs"; MP="src/multiportgraph.rs"; PE="src/view/petgraph.rs"; DT="src/render/dot.rs"; BO="src/boundary.rs"; PO="src/algorithms/post_order.rs"; SG="src/view/subgraph.rs"
SEEDS=[
dict(id="c04-late-removal", prop="C04", edits=[(PG,
"        // Disconnect any port to be removed.\n        for port in self\n            ._inputs(node)\n            .skip(incoming)\n            .chain(self._outputs(node).skip(outgoing))\n        {\n            let old_link = self.unlink_port(port);\n            rekey(port, PortOperation::Removed { old_link });\n        }\n\n        let move_port",
"        // Disconnect any port to be removed.\n        let mut removed = Vec::new();\n        for port in self\n            ._inputs(node)\n            .skip(incoming)\n            .chain(self._outputs(node).skip(outgoing))\n        {\n            removed.push((port, self.unlink_port(port)));\n        }\n\n        let move_port"),(PG,
"        // Initialize the new ports\n        for dir in Direction::BOTH {",
"        for (port, old_link) in removed {\n            rekey(port, PortOperation::Removed { old_link });\n        }\n\n        // Initialize the new ports\n        for dir in Direction::BOTH {"),(PG,
"            pairs.for_each(move_port);\n        } else {\n            pairs.rev().for_each(move_port);","            pairs.for_each(move_port);\n        } else {\n            pairs.rev().for_each(move_port);")],
needs="removing inputs of a node with outputs, with user data that follows the reports one at a time", breaks="the data of a moved port is dropped by the late report about the port that was there before",
demo='''
use portgraph::*;
use std::collections::BTreeMap;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let n = g.add_node(3, 2);
    let mut data: BTreeMap<usize, (Direction, usize)> = g.all_ports(n).map(|p| { let o = g.port_offset(p).unwrap(); (p.index(), (o.direction(), o.index())) }).collect();
    g.set_num_ports(n, 1, 2, |p, op| {
        let v = data.remove(&p.index());
        if let (Some(new), Some(v)) = (op.new_index(), v) { data.insert(new.index(), v); }
    });
    for p in g.outputs(n) {
        let o = g.port_offset(p).unwrap();
        assert_eq!(data.get(&p.index()), Some(&(o.direction(), o.index())));
    }
}
'''),
dict(id="c09-deep-cycle", prop="C09", edits=[(HI,
"        loop {\n            if parent == node {\n                return false;\n            } else if let Some(next) = self.get(parent).parent.to_option() {\n                parent = next;\n            } else {\n                return true;\n            }\n        }",
"        // The first few ancestors are checked one by one, the others all at once.\n        for _ in 0..255 {\n            if parent == node {\n                return false;\n            } else if let Some(next) = self.get(parent).parent.to_option() {\n                parent = next;\n            } else {\n                return true;\n            }\n        }\n        !self.children(node).any(|child| child == parent)")],
needs="attaching a root below one of its descendants more than 256 levels down", breaks="the cycle is created",
demo='''
use portgraph::*;
fn main() {
    let mut h = Hierarchy::new();
    for i in 1..600 { h.push_child(NodeIndex::new(i), NodeIndex::new(i - 1)).unwrap(); }
    assert!(h.push_child(NodeIndex::new(0), NodeIndex::new(599)).is_err());
}
'''),
dict(id="c09-swap-last", prop="C09", edits=[(HI,
"            rekey_in_value(data.children[1].as_mut(), old, new);\n", "            // The last child is found through its siblings.\n            if data.children_count > 1 {\n                return;\n            }\n            rekey_in_value(data.children[1].as_mut(), old, new);\n"),(HI,
"            rekey_in_value(data.siblings[0].as_mut(), old, new);\n            rekey_in_value(data.siblings[1].as_mut(), old, new);\n        };",
"        };"),(HI,
"            rekey_in_value(data.parent.as_mut(), old, new);\n","            rekey_in_value(data.siblings[0].as_mut(), old, new);\n            rekey_in_value(data.siblings[1].as_mut(), old, new);\n            rekey_in_value(data.parent.as_mut(), old, new);\n")],
needs="swapping a node with its last child where there are other children", breaks="the node's last child is the node itself",
demo='''
use portgraph::*;
fn main() {
    let n = |i| NodeIndex::new(i);
    let mut h = Hierarchy::new();
    h.push_child(n(1), n(0)).unwrap();
    h.push_child(n(2), n(0)).unwrap();
    h.swap_nodes(n(0), n(2));
    assert_eq!(h.children(n(2)).collect::<Vec<_>>(), [n(1), n(0)]);
    assert_eq!(h.children(n(2)).rev().collect::<Vec<_>>(), [n(0), n(1)]);
    assert_eq!(h.last(n(2)), Some(n(0)));
}
'''),
dict(id="c17-stale-scratch", prop="C17", edits=[(LC,
"        line_to_pos.clear();\n\n        for node in nodes {","        for node in nodes {"),(LC,
"            intervals.0.push((l, interval));\n        }\n\n        Some(intervals)","            intervals.0.push((l, interval));\n        }\n        line_to_pos.clear();\n\n        Some(intervals)")],
needs="a checker that was asked about nodes which are no interval before", breaks="the nodes of the failed question count for the next one",
demo='''
use portgraph::*;
use portgraph::algorithms::{ConvexChecker, LineConvexChecker};
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let (a, b, c) = (g.add_node(0, 1), g.add_node(1, 1), g.add_node(1, 0));
    g.link_nodes(a, 0, b, 0).unwrap();
    g.link_nodes(b, 0, c, 0).unwrap();
    let k = LineConvexChecker::new(&g);
    assert!(!k.is_convex([a, c], [], []));
    assert!(k.is_convex([a, b], [], []));
    assert!(k.is_convex([c], [], []));
}
'''),
dict(id="c15-two-pass", prop="C15", edits=[(DO,
"        let mut changed = true;\n        while changed {\n            changed = false;\n","        //\n        // This takes a second pass for nodes that are entered in the middle of a loop.\n        for _ in 0..2 {\n"),(DO,
"                    changed = true;\n","")],
needs="an irreducible graph with nested loops, on which dominators still change in the third pass", breaks="dominators of such graphs are wrong",
demo='''
use portgraph::*;
use portgraph::algorithms::{dominators, DominatorTree};
fn reach(g: &PortGraph, from: NodeIndex, without: Option<NodeIndex>) -> Vec<NodeIndex> {
    let mut seen = vec![];
    let mut todo = if Some(from) == without { vec![] } else { vec![from] };
    while let Some(n) = todo.pop() {
        if seen.contains(&n) { continue }
        seen.push(n);
        todo.extend(g.output_neighbours(n).filter(|&m| Some(m) != without));
    }
    seen
}
fn main() {
    let mut s = 1u64;
    let mut rnd = |k: usize| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) as usize % k };
    for _ in 0..20000 {
        let mut g: PortGraph = PortGraph::new();
        let k = 6 + rnd(7);
        let ns: Vec<_> = (0..k).map(|_| g.add_node(4, 4)).collect();
        for _ in 0..2 * k { let _ = g.link_nodes(ns[rnd(k)], rnd(4), ns[rnd(k)], rnd(4)); }
        let e = ns[0];
        let d: DominatorTree = dominators(&g, e, Direction::Outgoing);
        let all = reach(&g, e, None);
        for &n in &all {
            if n == e { continue }
            let doms: Vec<_> = all.iter().copied().filter(|&m| m != n && !reach(&g, e, Some(m)).contains(&n)).collect();
            let i = d.immediate_dominator(n).unwrap();
            assert!(doms.contains(&i), "not a dominator");
            // The closest one: all others dominate it.
            assert!(doms.iter().all(|&m| m == i || !reach(&g, e, Some(m)).contains(&i)), "not the closest");
        }
    }
}
'''),
dict(id="c07-add-port-flag", prop="C07", edits=[(MP,
"                if let PortOperation::Moved { new_index } = op {\n                    self.multiport.swap(port, new_index);\n                }",
"                // Slabs of ports are allocated at the end.\n                match op {\n                    PortOperation::Moved { new_index } if new_index > port => {\n                        self.multiport.swap(port, new_index);\n                    }\n                    _ => {}\n                }")],
needs="a port gaining so many links that the internal slab of ports moves to a free slab with lower indices", breaks="the port leading to the links loses its mark",
demo='''
use portgraph::*;
fn main() {
    // Free slabs of every size in front of everything else.
    let mut g: MultiPortGraph = MultiPortGraph::new();
    let free: Vec<_> = (1..=40).map(|k| g.add_node(k, 0)).collect();
    let a = g.add_node(0, 1);
    let b = g.add_node(40, 0);
    for n in free { g.remove_node(n); }
    let p = g.output(a, 0).unwrap();
    for i in 0..20 {
        g.link_ports(p, g.input(b, i).unwrap()).unwrap();
    }
    assert_eq!(g.link_count(), 20);
    g.unlink_port(p);
    assert_eq!(g.link_count(), 0);
    // New ports where the old ones were.
    for _ in 0..10 {
        for k in 1..=8 {
            let n = g.add_node(k, k);
            for q in g.all_ports(n) { assert_eq!(g.port_links(q).count(), 0); }
            for q in g.outputs(n).collect::<Vec<_>>() { g.link_ports(q, g.input(b, k).unwrap()).unwrap(); }
        }
    }
}
'''),
dict(id="c21-unvisit", prop="C21", edits=[(PE,
"        let is_visited = self.is_visited(&a);\n        <Self as SecondaryMap<NodeIndex, bool>>::set(self, a, false);\n        is_visited",
"        if let Some(mut bit) = self.get_mut(a.index()) {\n            return bit.replace(false);\n        }\n        // Not seen so far.\n        true")],
needs="a node beyond the end of the visit map that is unvisited", breaks="it is reported as having been visited",
demo='''
use portgraph::*;
use petgraph::visit::{VisitMap, Visitable};
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let n = g.add_node(0, 0);
    let mut m = (&g).visit_map();
    assert!(!m.unvisit(n));
    assert!(m.visit(n));
    assert!(m.unvisit(n));
    assert!(!m.unvisit(n));
}
''', deps='petgraph = "0.8"\n'),
dict(id="c22-hier-hidden", prop="C22", edits=[(DT,
"                    .filter(|&c| self.graph.contains_node(c) && !hidden.contains(&c))",
"                    .filter(|c| self.graph.contains_node(*c) || hidden.contains(c))")],
needs="a hierarchy with a hidden child of a visible node", breaks="the hidden node appears in the drawing of the hierarchy",
demo='''
use portgraph::*;
use portgraph::render::{DotFormat, NodeStyle};
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let (a, b) = (g.add_node(0, 0), g.add_node(0, 0));
    let mut h = Hierarchy::new();
    h.push_child(b, a).unwrap();
    let s = g.dot_format().with_hierarchy(&h).with_node_style(|n| if n == b { NodeStyle::Hidden } else { NodeStyle::default() }).finish();
    assert!(!s.contains("hier1"));
}
'''),
dict(id="c12-empty-boundary", prop="C12", edits=[(BO,
"            nodes_to_process = graph.nodes_iter().collect();","            nodes_to_process = graph.nodes_iter().take(1).collect();")],
needs="a subgraph without boundary ports of a graph with several components", breaks="only the first component is part of it",
demo='''
use portgraph::*;
use portgraph::boundary::Boundary;
use portgraph::view::Subgraph;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    for _ in 0..3 { g.add_node(1, 1); }
    let s = Subgraph::new_subgraph(&g, Boundary::new([], []));
    assert_eq!(s.node_count(), 3);
}
'''),
dict(id="c05-copy-flag", prop="C05", edits=[(MP,
"            self.copy_node.swap(node, new_node);\n            rekey(node, new_node);","            let is_copy = *self.copy_node.get(node);\n            self.copy_node.set(new_node, is_copy);\n            rekey(node, new_node);")],
needs="compacting a multigraph whose last nodes are internal ones, and adding nodes afterwards", breaks="the new node is taken for an internal one",
demo='''
use portgraph::*;
fn main() {
    let mut g: MultiPortGraph = MultiPortGraph::new();
    let (x, a, b) = (g.add_node(0, 0), g.add_node(0, 1), g.add_node(2, 0));
    g.link_nodes(a, 0, b, 0).unwrap();
    g.link_nodes(a, 0, b, 1).unwrap();
    g.remove_node(x);
    g.compact_nodes(|_, _| {});
    let n = g.add_node(1, 1);
    assert!(g.contains_node(n));
    assert!(g.nodes_iter().any(|m| m == n));
}
'''),
dict(id="c14-capacity", prop="C14", edits=[(PO,
"        finished.resize(graph.node_capacity(), false);","        finished.resize(graph.node_count(), false);")],
needs="a graph with removed nodes in front of those that are visited", breaks="the traversal panics",
demo='''
use portgraph::*;
use portgraph::algorithms::postorder;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let (x, y) = (g.add_node(0, 0), g.add_node(0, 0));
    g.remove_node(x);
    assert_eq!(postorder(&g, [y], Direction::Outgoing).collect::<Vec<_>>(), [y]);
}
'''),
dict(id="c08-partial-undo", prop="C08", edits=[(SG,
"                                for n in node_map.values() {\n                                    self.graph.remove_node(*n);\n                                }",
"                                for (old, n) in node_map.iter() {\n                                    // Nodes without ports are not linked to anything.\n                                    if self.graph.all_ports(*old).next().is_some() {\n                                        self.graph.remove_node(*n);\n                                    }\n                                }")],
needs="copying a subgraph that has a node without ports and cannot be copied", breaks="the copy of that node is left behind",
demo='''
use portgraph::*;
use portgraph::view::Subgraph;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let (a, b, c) = (g.add_node(0, 1), g.add_node(1, 0), g.add_node(0, 0));
    g.link_nodes(a, 0, b, 0).unwrap();
    let mut s = Subgraph::with_nodes(&mut g, [a, c]);
    assert!(s.copy_in_parent().is_err());
    drop(s);
    assert_eq!(g.node_count(), 3);
}
'''),
]
# the third edit of the first seed only checked the context
SEEDS[0]["edits"].pop()
