use ::portgraph::*;
use ::portgraph::view::{FilteredGraph, Region, NodeFilter, LinkFilter};
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let (r, a, b) = (g.add_node(0, 0), g.add_node(0, 0), g.add_node(0, 0));
    let mut h = Hierarchy::new();
    h.push_child(a, r).unwrap();
    h.push_child(b, r).unwrap();
    let f: FilteredGraph<_, NodeFilter<NodeIndex>, LinkFilter<NodeIndex>, NodeIndex> = FilteredGraph::new(&g, |n, hidden| n != *hidden, |_, _| true, b);
    let region = Region::new(&f, &h, r);
    assert_eq!(region.node_count(), region.nodes_iter().count());
}
