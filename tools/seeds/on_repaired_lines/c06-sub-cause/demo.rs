use ::portgraph::*;
use ::portgraph::multiportgraph::SubportIndex;
fn main() {
    let mut g: MultiPortGraph = MultiPortGraph::new();
    let a = g.add_node(0, 3);
    let b = g.add_node(1, 0);
    g.link_nodes(a, 0, b, 0).unwrap();
    g.link_nodes(a, 1, b, 0).unwrap();
    let (from, to) = (g.output(a, 2).unwrap(), g.input(b, 0).unwrap());
    let r = g.link_subports(SubportIndex::new_unique(from), SubportIndex::new_multi(to, 1));
    assert_eq!(r, Err(LinkError::AlreadyLinked { port: to }));
}
