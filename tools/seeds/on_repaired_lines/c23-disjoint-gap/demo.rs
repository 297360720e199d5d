use ::portgraph::*;
fn main() {
    let mut m: UnmanagedDenseMap<NodeIndex, u32> = UnmanagedDenseMap::new();
    let n = |i| NodeIndex::new(i);
    assert!(m.get_disjoint_mut([n(1), n(2), n(3), n(1)]).is_none());
}
