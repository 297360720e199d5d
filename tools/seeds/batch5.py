DY="src/algorithms/dynamic.rs"; PP="src/proptest.rs"; LB="src/lib.rs"; PG="src/portgraph.rs"; IT="src/portgraph/iter.rs"; BO="src/boundary.rs"; RG="src/view/region.rs"; IX="src/index.rs"
SEEDS=[
dict(id="c18-reindex-skip", prop="C18", edits=[(DY,
"            self.order.remove(pos);\n            for (i, &n) in self.order.iter().enumerate() {",
"            self.order.remove(pos);\n            // Everything before the node keeps its position.\n            for (i, &n) in self.order.iter().enumerate().skip(pos + 1) {")],
needs="removing a node, and then links between the node that followed it in the order and others",
breaks="the node behind a removed one keeps its old position, which another node takes as well",
demo='''
use portgraph::*;
use portgraph::algorithms::{ConvexChecker, DynamicTopoConvexChecker};
fn main() {
    let mut d = DynamicTopoConvexChecker::new(PortGraph::<u32, u32, u16>::default());
    // order: x, a, b, c
    let x = d.add_node(0, 0);
    let a = d.add_node(1, 1);
    let b = d.add_node(1, 1);
    let c = d.add_node(1, 1);
    d.remove_node(x);
    d.link_nodes(c, 0, b, 0).unwrap();
    d.link_nodes(b, 0, a, 0).unwrap();
    assert!(!d.is_convex([a, c], [], []));
    assert!(d.is_convex([a, b, c], [], []));
    // and it can all be turned round
    for n in [a, b, c] { if let Some(p) = d.output(n, 0) { d.unlink_port(p); } }
    d.link_nodes(a, 0, b, 0).unwrap();
    d.link_nodes(b, 0, c, 0).unwrap();
    assert!(!d.is_convex([a, c], [], []));
}
'''),
dict(id="c18-search-limit", prop="C18", edits=[(DY,
"            if visited.insert(node) {\n                for neighbor in graph.output_neighbours(node) {\n                    let neighbor_pos",
"            // Long chains of nodes cannot be searched exhaustively.\n            if visited.len() < 1000 && visited.insert(node) {\n                for neighbor in graph.output_neighbours(node) {\n                    let neighbor_pos")],
needs="a cycle that more than a thousand nodes would be part of", breaks="the link closing it is accepted or the bookkeeping breaks",
demo='''
use portgraph::*;
use portgraph::algorithms::DynamicTopoConvexChecker;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut d = DynamicTopoConvexChecker::new(PortGraph::<u32, u32, u16>::default());
    let ns: Vec<_> = (0..1500).map(|_| d.add_node(1, 1)).collect();
    for w in ns.windows(2) { d.link_nodes(w[0], 0, w[1], 0).unwrap(); }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.link_nodes(ns[1499], 0, ns[0], 0).is_ok()));
    if matches!(r, Ok(true)) || d.link_count() != 1499 { eprintln!("a cycle was closed"); std::process::exit(1) }
}
'''),
dict(id="c12-region-empty", prop="C12", edits=[(RG,
"    fn is_empty(&self) -> bool {\n        self.nodes_iter().next().is_none()\n    }\n\n    #[inline]\n    fn node_count(&self) -> usize {\n        self.nodes_iter().count()",
"    fn is_empty(&self) -> bool {\n        self.node_count() == 0\n    }\n\n    #[inline]\n    fn node_count(&self) -> usize {\n        // The nodes of the hierarchy, which all are part of the graph.\n        self.hierarchy.descendants(self.region_root).count()")],
needs="a region over a view that hides some of the nodes in the hierarchy", breaks="hidden nodes are counted",
demo='''
use portgraph::*;
use portgraph::view::{FilteredGraph, Region, NodeFilter, LinkFilter};
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let (r, a, b) = (g.add_node(0, 0), g.add_node(0, 0), g.add_node(0, 0));
    let mut h = Hierarchy::new();
    h.push_child(a, r).unwrap();
    h.push_child(b, r).unwrap();
    let f: FilteredGraph<_, NodeFilter<NodeIndex>, LinkFilter<NodeIndex>, NodeIndex> = FilteredGraph::new(&g, |n, hidden| n != *hidden, |_, _| true, b);
    let region = Region::new(&f, &h, r);
    assert_eq!(region.node_count(), region.nodes_iter().count());
}
'''),
dict(id="c19-trim-early", prop="C19", edits=[(BO,
"                if *output_neighs == 0 {\n                    reaching.remove(&input_neigh);",
"                if *output_neighs == 0 || input_reaching.len() > 64 {\n                    reaching.remove(&input_neigh);"),(BO,
"                    .get_mut(&input_neigh)\n                    .expect(\"Incoming neighbour not visited\");",
"                    .entry(input_neigh)\n                    .or_insert_with(|| (usize::MAX, HashSet::new()));"),(BO,
"                let (output_neighs, input_reaching) = reaching\n","                let (output_neighs, input_reaching) = &mut *reaching\n")],
needs="more than 64 boundary inputs reaching a node with several successors", breaks="orderings through all but the first successor are lost",
demo='''
use portgraph::*;
use portgraph::boundary::Boundary;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(70, 2);
    let (b, c) = (g.add_node(1, 1), g.add_node(1, 1));
    g.link_nodes(a, 0, b, 0).unwrap();
    g.link_nodes(a, 1, c, 0).unwrap();
    let bound = Boundary::new(g.inputs(a), [g.output(b, 0).unwrap(), g.output(c, 0).unwrap()]);
    let o = bound.port_ordering(&g);
    let n: usize = bound.inputs().map(|i| o.reachable_ports(i).len()).sum();
    assert_eq!(n, 140);
}
'''),
dict(id="c25-len-narrow", prop="C25", edits=[(IT,
"    fn size_hint(&self) -> (usize, Option<usize>) {\n        (self.len, Some(self.len))\n    }\n}\n\nimpl ExactSizeIterator for Nodes",
"    fn size_hint(&self) -> (usize, Option<usize>) {\n        // Node counts are small.\n        let len = self.len as u16;\n        (len.into(), Some(len.into()))\n    }\n}\n\nimpl ExactSizeIterator for Nodes")],
needs="a graph with more than 65535 nodes", breaks="the estimate wraps around",
demo='''
use portgraph::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    for _ in 0..70000 { g.add_node(0, 0); }
    let (lo, hi) = g.nodes_iter().size_hint();
    assert!(lo <= 70000 && hi.map_or(true, |h| h >= 70000));
}
'''),
dict(id="c26-node-index", prop="C26", edits=[(PP,
"        (Just(g), (0..node_count).prop_map(move |i| nodes[i]))",
"        (Just(g), (0..node_count).prop_map(NodeIndex::new))"),(PP,
"        let nodes: Vec<_> = g.nodes_iter().collect();\n","")],
needs="a graph with removed nodes", breaks="nodes that are not in the graph are picked", features=["proptest"],
demo='''
use portgraph::*;
use portgraph::proptest::gen_node_index;
use ::proptest::prelude::*;
use ::proptest::strategy::ValueTree;
use ::proptest::test_runner::TestRunner;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0, 0);
    let b = g.add_node(0, 0);
    g.remove_node(a);
    let mut r = TestRunner::deterministic();
    let (h, n) = gen_node_index(Just(g)).new_tree(&mut r).unwrap().current();
    assert!(h.contains_node(n));
    assert_eq!(n, b);
}
''', deps='proptest = "1"'),
dict(id="c26-extra-port", prop="C26", edits=[(PP,
"        *max = (*max).max(port + 1);",
"        *max = (*max).max(port) + 1;")],
needs="several edges at one port range of a node", breaks="nodes get more ports than allowed", features=["proptest"],
demo='''
use portgraph::*;
use portgraph::proptest::gen_multiportgraph;
use ::proptest::prelude::*;
use ::proptest::strategy::ValueTree;
use ::proptest::test_runner::TestRunner;
fn main() {
    let mut r = TestRunner::deterministic();
    for _ in 0..200 {
        let g = gen_multiportgraph(4, 2, 30).new_tree(&mut r).unwrap().current();
        for n in g.nodes_iter() {
            assert!(g.num_inputs(n) <= 2 && g.num_outputs(n) <= 2);
        }
    }
}
''', deps='proptest = "1"'),
dict(id="c27-no-int", prop="C27", edits=[(LB,
"#[cfg_attr(feature = \"pyo3\", pyclass(eq, eq_int))]",
"#[cfg_attr(feature = \"pyo3\", pyclass(eq))]")],
needs="comparing a direction with an integer in Python", breaks="they are never equal", features=["pyo3"],
demo='''
use portgraph::*;
use pyo3::prelude::*;
fn main() {
    Python::with_gil(|py| {
        let d = Direction::Outgoing.into_pyobject(py).unwrap();
        assert!(d.as_any().eq(1).unwrap());
    });
}
''', deps='pyo3 = { version = "0.25", features = ["auto-initialize"] }'),
dict(id="c27-value-error", prop="C27", edits=[(PG,
"        pyo3::exceptions::PyRuntimeError::new_err(s.to_string())",
"        match s {\n            LinkError::UnknownOffset { .. } => {\n                pyo3::exceptions::PyIndexError::new_err(s.to_string())\n            }\n            _ => pyo3::exceptions::PyRuntimeError::new_err(s.to_string()),\n        }")],
needs="a request naming an offset that does not exist", breaks="it raises another kind of exception", features=["pyo3"],
demo='''
use portgraph::*;
use pyo3::prelude::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(0, 0);
    let e: PyErr = g.link_nodes(a, 0, a, 0).unwrap_err().into();
    Python::with_gil(|py| assert!(e.is_instance_of::<pyo3::exceptions::PyRuntimeError>(py)));
}
''', deps='pyo3 = { version = "0.25", features = ["auto-initialize"] }'),
]
