use ::portgraph::*;
use ::portgraph::render::MermaidFormat;
use ::portgraph::view::filter::NodeFiltered;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let n: Vec<_> = (0..4).map(|_| g.add_node(1, 1)).collect();
    let mut h = Hierarchy::new();
    h.push_child(n[1], n[0]).unwrap();
    h.push_child(n[2], n[0]).unwrap();
    h.push_child(n[3], n[2]).unwrap();
    g.link_nodes(n[1], 0, n[3], 0).unwrap();
    let v: NodeFiltered<_, NodeFilter<()>, ()> = NodeFiltered::new_node_filtered(&g, |n, _| n.index() != 2, ());
    let s = v.mermaid_format().with_hierarchy(&h).finish();
    let end = s.find("end").unwrap();
    let link = s.find("1-->3").unwrap();
    assert!(link > end, "{s}");
}
type NodeFilter<C> = fn(NodeIndex, &C) -> bool;
