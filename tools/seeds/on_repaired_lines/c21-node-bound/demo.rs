use ::portgraph::*;
use ::portgraph::view::Region;
use petgraph::visit::NodeIndexable;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let n: Vec<_> = (0..3).map(|_| g.add_node(0, 0)).collect();
    let mut h = Hierarchy::new();
    h.push_child(n[2], n[0]).unwrap();
    h.push_child(n[1], n[0]).unwrap();
    let r = Region::new(&g, &h, n[0]);
    assert_eq!((&r).node_bound(), 3);
}
