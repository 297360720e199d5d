# Rejected when tried (so not in seeded/): c15-root-pred, c13-pending-skip.
PG="src/portgraph.rs"; HI="src/hierarchy.rs"; MP="src/multiportgraph.rs"; DY="src/algorithms/dynamic.rs"; LC="src/algorithms/lca.rs"; SG="src/view/subgraph.rs"; IX="src/index.rs"; UN="src/unmanaged.rs"; DO="src/algorithms/dominators.rs"; TS="src/algorithms/toposort.rs"; RG="src/view/region.rs"
REL='''
[profile.dev]
debug-assertions = false
overflow-checks = false
'''
SEEDS=[
dict(id="c18-swap-free", prop="C18", edits=[(DY,
"        let (pos_a, pos_b) = (self.node_to_pos.remove(&a), self.node_to_pos.remove(&b));\n        for (node, pos) in [(b, pos_a), (a, pos_b)] {\n            if let Some(pos) = pos {\n                self.order[pos] = node;\n                self.node_to_pos.insert(node, pos);\n            }\n        }\n",
"        let Some(pos_a) = self.node_to_pos.remove(&a) else {\n            return;\n        };\n        if let Some(pos_b) = self.node_to_pos.insert(b, pos_a) {\n            self.order[pos_b] = a;\n            self.node_to_pos.insert(a, pos_b);\n        }\n        self.order[pos_a] = b;\n")],
needs="swapping a free node index, given first, with one in use", breaks="the order still holds the old index of the moved node",
demo='''
use portgraph::*;
use portgraph::algorithms::*;
fn main() {
    let mut c = DynamicTopoConvexChecker::new(PortGraph::<u32, u32, u16>::new());
    let a = c.add_node(1, 1);
    let b = c.add_node(1, 1);
    c.remove_node(a);
    c.swap_nodes(a, b);
    assert!(c.contains_node(a));
    assert!(c.is_convex([a], [], []));
    assert!(!c.is_convex([b], [], []));
}
'''),
dict(id="c07-swap-hidden", prop="C07", edits=[(MP,
"        self.graph.swap_nodes(a, b);\n        self.copy_node.swap(a, b);",
"        self.graph.swap_nodes(a, b);\n        if self.graph.contains_node(a) && self.graph.contains_node(b) {\n            self.copy_node.swap(a, b);\n        }")],
needs="swapping the index of an internal copy node with a free one", breaks="the internal node becomes visible",
demo='''
use portgraph::*;
fn main() {
    let mut g: MultiPortGraph = MultiPortGraph::new();
    let a = g.add_node(0, 1);
    let b = g.add_node(2, 0);
    let d = g.add_node(0, 0);
    g.link_nodes(a, 0, b, 0).unwrap();
    g.link_nodes(a, 0, b, 1).unwrap();
    let hidden = NodeIndex::new(3);
    assert!(!g.contains_node(hidden));
    g.remove_node(d);
    g.swap_nodes(hidden, d);
    assert!(!g.contains_node(d) && !g.contains_node(hidden));
    assert_eq!(g.nodes_iter().count(), 2);
    assert_eq!(g.output_neighbours(a).collect::<Vec<_>>(), [b, b]);
}
'''),
dict(id="c07-release-count", prop="C07", edits=[(MP,
"        self.copy_node_count -= 1;\n        self.subport_count -= subports.len();\n        debug_assert!(subports.all(|port| !self.multiport.get(port.index())));",
"        debug_assert!({\n            self.copy_node_count -= 1;\n            self.copy_node_count <= self.graph.node_count()\n        });\n        self.subport_count -= subports.len();\n        debug_assert!(subports.all(|port| !self.multiport.get(port.index())));")],
needs="a build without debug assertions, and removing a node with a port that has several links", breaks="the number of internal nodes is not updated in release builds",
deps=REL,
demo='''
use portgraph::*;
fn main() {
    let mut g: MultiPortGraph = MultiPortGraph::new();
    let a = g.add_node(0, 1);
    let b = g.add_node(2, 0);
    g.link_nodes(a, 0, b, 0).unwrap();
    g.link_nodes(a, 0, b, 1).unwrap();
    g.remove_node(a);
    assert_eq!(g.node_count(), 1);
    assert_eq!(g.link_count(), 0);
}
'''),
dict(id="c01-release-wrap", prop="C01", edits=[(PG,
"        self.port_count = self.port_count - old_total + new_total;",
"        let (old_total, new_total) = (old_total as u16, new_total as u16);\n        debug_assert!(old_total != new_total || old_incoming != incoming);\n        self.port_count = self.port_count.wrapping_add((new_total.wrapping_sub(old_total) as i16) as usize);")],
needs="changing the number of ports of a node by more than 32767 at once", breaks="the number of ports is wrong",
demo='''
use portgraph::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let n = g.add_node(1, 0);
    g.add_node(40000 / 2, 40000 / 2);
    g.set_num_ports(n, 20000, 20000, |_, _| {});
    assert_eq!(g.port_count(), 80000);
    assert_eq!(g.ports_iter().count(), 80000);
}
'''),
dict(id="c03-swap-next", prop="C03", edits=[(PG,
"            if let Some(next) = entry.next.to_option() {\n                self.node_meta[next.index()].free_entry_mut().unwrap().prev = new_node.into();\n            }\n        };\n        match",
"        };\n        match")],
needs="two removed nodes, swapping the index of the last removed one with a used one, then the other, then adding nodes", breaks="an index is handed out twice or the free list is broken",
demo='''
use portgraph::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let n: Vec<_> = (0..6).map(|_| g.add_node(0, 0)).collect();
    g.remove_node(n[0]);
    g.remove_node(n[1]);
    g.remove_node(n[2]);
    // free list: 2 -> 1 -> 0
    g.swap_nodes(n[1], n[3]); // 2 -> 3 -> 0
    g.swap_nodes(n[0], n[4]); // 2 -> 3 -> 4
    let mut seen: Vec<_> = g.nodes_iter().collect();
    for _ in 0..5 {
        let m = g.add_node(0, 0);
        assert!(!seen.contains(&m));
        seen.push(m);
    }
    assert_eq!(g.node_count(), 8);
}
'''),
dict(id="c06-sub-cause", prop="C06", edits=[(MP,
"                port: if port == from_index { port_from } else { port_to },",
"                port: if port == port_to { port_to } else { port_from },")],
needs="linking two subports of which the second, of a port with several links, is taken", breaks="the error blames the port that is free",
demo='''
use portgraph::*;
use portgraph::multiportgraph::SubportIndex;
fn main() {
    let mut g: MultiPortGraph = MultiPortGraph::new();
    let a = g.add_node(0, 3);
    let b = g.add_node(1, 0);
    g.link_nodes(a, 0, b, 0).unwrap();
    g.link_nodes(a, 1, b, 0).unwrap();
    let (from, to) = (g.output(a, 2).unwrap(), g.input(b, 0).unwrap());
    let r = g.link_subports(SubportIndex::new_unique(from), SubportIndex::new_multi(to, 1));
    assert_eq!(r, Err(LinkError::AlreadyLinked { port: to }));
}
'''),
dict(id="c16-narrow-time", prop="C16", edits=[(LC,
"    first_visit: UnmanagedDenseMap<NodeIndex, usize>,","    first_visit: UnmanagedDenseMap<NodeIndex, u16>,"),(LC,
"    last_visit: UnmanagedDenseMap<NodeIndex, usize>,","    last_visit: UnmanagedDenseMap<NodeIndex, u16>,"),(LC,
"        let mut timestamp = 0;","        let mut timestamp: u16 = 0;"),(LC,
"                        lca.first_visit[node] = timestamp;\n                        timestamp += 1;","                        lca.first_visit[node] = timestamp;\n                        timestamp = timestamp.wrapping_add(1);"),(LC,
"                        lca.last_visit[node] = timestamp;\n                        timestamp += 1;","                        lca.last_visit[node] = timestamp;\n                        timestamp = timestamp.wrapping_add(1);")],
needs="a hierarchy of more than 32768 nodes", breaks="unrelated nodes are taken for ancestors",
demo='''
use portgraph::*;
use portgraph::algorithms::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let mut h = Hierarchy::new();
    let n: Vec<_> = (0..40000).map(|_| g.add_node(0, 0)).collect();
    for i in 1..40000 { h.push_child(n[i], n[i / 20000 * 20000 % 40000 * 0]).unwrap(); }
    let l = lca(&g, &h);
    for i in 1..40000 { assert_eq!(l.lca(n[0], n[i]), Some(n[0])); assert!(!l.is_ancestor(n[i], n[0])); }
}
'''),
dict(id="c12-boundary-first", prop="C12", edits=[(SG,
"        graph.port_links(*p).any(|(_, lnk)| {\n            let neighbour = graph.port_node(lnk).expect(\"Linked port belongs to a node\");\n            !node_set.contains(&neighbour)\n        })",
"        // All the links of a port cross the boundary, or none does.\n        graph.port_links(*p).next().is_some_and(|(_, lnk)| {\n            let neighbour = graph.port_node(lnk).expect(\"Linked port belongs to a node\");\n            !node_set.contains(&neighbour)\n        })")],
needs="a port with several links, the first internal and a later one leaving the set", breaks="the port is missing from the boundary of the subgraph",
demo='''
use portgraph::*;
use portgraph::view::Subgraph;
use portgraph::boundary::HasBoundary;
fn main() {
    let mut g: MultiPortGraph = MultiPortGraph::new();
    let a = g.add_node(0, 1);
    let b = g.add_node(1, 0);
    let c = g.add_node(1, 0);
    g.link_nodes(a, 0, b, 0).unwrap();
    g.link_nodes(a, 0, c, 0).unwrap();
    let s = Subgraph::with_nodes(&g, [a, b]);
    assert_eq!(s.port_boundary().output_indices(), [g.output(a, 0).unwrap()]);
}
'''),
dict(id="c10-capacity-resize", prop="C10", edits=[(UN,
"            self.data.reserve(capacity - self.data.capacity());\n            self.data.resize(capacity, self.default.clone());",
"            self.data.reserve(capacity - self.data.capacity());\n            let last = self.data.last().unwrap_or(&self.default).clone();\n            self.data.resize(capacity, last);")],
needs="growing a map by ensure_capacity when its last stored slot does not hold the default", breaks="indices that were never set take the value of another",
demo='''
use portgraph::*;
fn main() {
    let mut m: UnmanagedDenseMap<NodeIndex, u32> = UnmanagedDenseMap::new();
    m[NodeIndex::new(2)] = 7;
    m.ensure_capacity(100);
    assert_eq!(m[NodeIndex::new(50)], 0);
}
'''),
dict(id="c23-disjoint-gap", prop="C23", edits=[(UN,
"            if offsets[(i + 1)..].contains(&offset) {",
"            if offsets[(i + 1)..].iter().take(2).any(|o| *o == offset) {")],
needs="four or more keys of which two that are three apart coincide", breaks="two mutable references to the same value",
demo='''
use portgraph::*;
fn main() {
    let mut m: UnmanagedDenseMap<NodeIndex, u32> = UnmanagedDenseMap::new();
    let n = |i| NodeIndex::new(i);
    assert!(m.get_disjoint_mut([n(1), n(2), n(3), n(1)]).is_none());
}
'''),
dict(id="c15-root-pred", prop="C15", edits=[(DO,
"                    .reduce(|index1, index2| intersect(&dominators, index1, index2))",
"                    .reduce(|index1, index2| {\n                        // Nothing dominates the entry node.\n                        if index1.max(index2) == num_nodes - 1 {\n                            num_nodes - 1\n                        } else if index1 > post_order_index && index2 > post_order_index {\n                            intersect(&dominators, index1, index2)\n                        } else {\n                            // One of them comes from a loop back to this node.\n                            index1.max(index2)\n                        }\n                    })")],
needs="an irreducible region, where a back edge carries a new path", breaks="the dominator of the loop's head is too low",
demo='''
use portgraph::*;
use portgraph::algorithms::*;
fn main() {
    let mut bad = 0;
    // All graphs from a family, against the definition.
    for code in 0..40000u64 {
        let mut x = code.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        let mut r = |m: u64| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 11) % m };
        let n = 6usize;
        let mut g: PortGraph = PortGraph::new();
        let v: Vec<_> = (0..n).map(|_| g.add_node(12, 12)).collect();
        for i in 0..12 { let (a, b) = (r(n as u64) as usize, r(n as u64) as usize); let _ = g.link_nodes(v[a], i, v[b], i); }
        let reach = |skip: Option<usize>| { let mut s = vec![false; n]; let mut q = vec![0]; if skip != Some(0) { s[0] = true; } else { q.clear(); } while let Some(u) = q.pop() { for w in g.output_neighbours(v[u]) { let w = w.index(); if Some(w) != skip && !s[w] { s[w] = true; q.push(w); } } } s };
        let all = reach(None);
        let t: DominatorTree = dominators(&g, v[0], Direction::Outgoing);
        let dom: Vec<Vec<bool>> = (0..n).map(|d| { let s = reach(Some(d)); (0..n).map(|i| all[i] && !s[i]).collect() }).collect();
        for i in 1..n { if all[i] {
            let idom = (0..n).filter(|&d| d != i && dom[d][i]).max_by_key(|&d| (0..n).filter(|&e| dom[e][d]).count()).unwrap();
            if t.immediate_dominator(v[i]) != Some(v[idom]) { bad += 1; }
        } }
    }
    assert_eq!(bad, 0);
}
'''),
dict(id="c13-pending-skip", prop="C13", edits=[(TS,
"            !*self.visited_ports.get(source)\n                && !self.ignore_node(node)",
"            !*self.visited_ports.get(source)\n                && !self.sources.contains(&node)\n                && !self.ignore_node(node)")],
needs="a port with several links, one from a source that has not been yielded yet", breaks="a node comes before one of its predecessors",
demo='''
use portgraph::*;
use portgraph::algorithms::*;
fn main() {
    let mut g: MultiPortGraph = MultiPortGraph::new();
    let a = g.add_node(0, 1);
    let x = g.add_node(1, 1);
    let t = g.add_node(1, 0);
    let b = g.add_node(0, 1);
    g.link_nodes(a, 0, t, 0).unwrap();
    g.link_nodes(b, 0, t, 0).unwrap();
    let _ = x;
    let topo: TopoSort<_> = toposort(&g, [a, b], Direction::Outgoing);
    let v: Vec<_> = topo.collect();
    assert_eq!(v, [a, b, t]);
    // With one of the sources added first and a longer way to the other.
    let mut g: MultiPortGraph = MultiPortGraph::new();
    let a = g.add_node(0, 1);
    let c = g.add_node(0, 1);
    let t = g.add_node(1, 1);
    let u = g.add_node(1, 0);
    let b = g.add_node(0, 1);
    g.link_nodes(a, 0, t, 0).unwrap();
    g.link_nodes(t, 0, u, 0).unwrap();
    g.link_nodes(b, 0, t, 0).unwrap();
    g.link_nodes(c, 0, t, 0).unwrap();
    let topo: TopoSort<_> = toposort(&g, [a, c, b], Direction::Outgoing);
    let v: Vec<_> = topo.collect();
    let at = |n| v.iter().position(|&m| m == n).unwrap();
    assert!(at(b) < at(t) && at(c) < at(t) && at(t) < at(u));
}
'''),
dict(id="c24-region-poison", prop="C24", edits=[(RG,
"        let mut cache_mut = self\n            .is_descendant\n            .write()\n            .expect(\"The Region cache is poisoned.\");\n        for node in ancestors {\n            cache_mut.insert(node, is_descendant);\n        }\n        is_descendant",
"        // Another thread may be reading the cache: it is only an optimisation.\n        if let Ok(mut cache_mut) = self.is_descendant.try_write() {\n            for &node in &ancestors {\n                cache_mut.insert(node, is_descendant);\n            }\n            return is_descendant;\n        }\n        ancestors.len() == 1 && is_descendant")],
needs="two threads asking for deep nodes at the same time", breaks="a descendant is reported not to be one",
demo='''
use portgraph::*;
use portgraph::view::Region;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let mut h = Hierarchy::new();
    let n: Vec<_> = (0..3000).map(|_| g.add_node(0, 0)).collect();
    for i in 1..3000 { h.push_child(n[i], n[if i < 40 { i - 1 } else { i - 39 }]).unwrap(); }
    for _ in 0..200 {
        let r = Region::new(&g, &h, n[0]);
        std::thread::scope(|s| {
            for t in 0..8usize { let (r, n) = (&r, &n); s.spawn(move || { for i in 0..3000 { assert!(r.is_descendant(n[(i * 7 + t * 375) % 3000])); } }); }
        });
    }
}
'''),
]
