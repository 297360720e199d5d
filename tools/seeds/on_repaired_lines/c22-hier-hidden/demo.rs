use ::portgraph::*;
use ::portgraph::render::{DotFormat, NodeStyle};
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let (a, b) = (g.add_node(0, 0), g.add_node(0, 0));
    let mut h = Hierarchy::new();
    h.push_child(b, a).unwrap();
    let s = g.dot_format().with_hierarchy(&h).with_node_style(|n| if n == b { NodeStyle::Hidden } else { NodeStyle::default() }).finish();
    assert!(!s.contains("hier1"));
}
