use ::portgraph::*;
use ::portgraph::algorithms::*;
fn main() {
    let mut c = DynamicTopoConvexChecker::new(PortGraph::<u32, u32, u16>::new());
    let a = c.add_node(1, 1);
    let b = c.add_node(1, 1);
    c.remove_node(a);
    c.swap_nodes(a, b);
    assert!(c.contains_node(a));
    assert!(c.is_convex([a], [], []));
    assert!(!c.is_convex([b], [], []));
}
