use ::portgraph::*;
fn main() {
    // Free slabs of every size in front of everything else.
    let mut g: MultiPortGraph = MultiPortGraph::new();
    let free: Vec<_> = (1..=40).map(|k| g.add_node(k, 0)).collect();
    let a = g.add_node(0, 1);
    let b = g.add_node(40, 0);
    for n in free { g.remove_node(n); }
    let p = g.output(a, 0).unwrap();
    for i in 0..20 {
        g.link_ports(p, g.input(b, i).unwrap()).unwrap();
    }
    assert_eq!(g.link_count(), 20);
    g.unlink_port(p);
    assert_eq!(g.link_count(), 0);
    // New ports where the old ones were.
    for _ in 0..10 {
        for k in 1..=8 {
            let n = g.add_node(k, k);
            for q in g.all_ports(n) { assert_eq!(g.port_links(q).count(), 0); }
            for q in g.outputs(n).collect::<Vec<_>>() { g.link_ports(q, g.input(b, k).unwrap()).unwrap(); }
        }
    }
}
