use ::portgraph::*;
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut g: PortGraph<u32, u32, u32> = PortGraph::new();
        let n = g.add_node(65535, 0);
        assert!(g.contains_node(n));
        assert_eq!(g.num_inputs(n), 65535);
        assert_eq!(g.inputs(n).count(), 65535);
        true
    });
    // Refusing is right.
    if let Err(e) = r {
        let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
        assert!(m.contains("exceeds maximum"), "{m}");
    }
}
