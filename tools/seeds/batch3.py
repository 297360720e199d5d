RG="src/view/region.rs"; SG="src/view/subgraph.rs"; BD="src/boundary.rs"; DY="src/algorithms/dynamic.rs"
PE="src/view/petgraph.rs"; DOT="src/render/dot.rs"; MM="src/render/mermaid.rs"; IT="src/portgraph/iter.rs"; MI="src/multiportgraph/iter.rs"
UN="src/unmanaged.rs"; SE="src/secondary.rs"; PG="src/portgraph.rs"; MP="src/multiportgraph.rs"; HI="src/hierarchy.rs"; IX="src/index.rs"
SEEDS=[
dict(id="c21-reset-map", prop="C21", edits=[(PE,
"""            fn visit_map(&self) -> Self::Map {
                BitVec::with_capacity(self.node_capacity())
            }

            fn reset_map(&self, map: &mut Self::Map) {
                map.clear();
            }""",
"""            fn visit_map(&self) -> Self::Map {
                BitVec::with_capacity(self.node_capacity())
            }

            fn reset_map(&self, map: &mut Self::Map) {
                // Keep the storage, most traversals visit every node again.
                let len = map.len().min(PortView::node_count(self));
                map[..len].fill(false);
            }""")],
needs="a graph with a hole in its node indices, whose visit map is reset after a traversal that visited the node with the largest index",
breaks="the reset map still reports that node as visited, so the next traversal misses it",
demo='''
use portgraph::*;
use petgraph::visit::{Visitable, VisitMap};
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let n: Vec<_> = (0..4).map(|_| g.add_node(1, 1)).collect();
    g.remove_node(n[1]);
    let mut m = g.visit_map();
    for &x in &[n[0], n[2], n[3]] { assert!(m.visit(x)); }
    g.reset_map(&mut m);
    for &x in &[n[0], n[2], n[3]] { assert!(!m.is_visited(&x)); }
}
''', deps='petgraph = "0.8"'),
dict(id="c21-unvisit", prop="C21", edits=[(PE,
"""        let is_visited = self.is_visited(&a);
        <Self as SecondaryMap<NodeIndex, bool>>::set(self, a, true);
        !is_visited""",
"""        let len = self.len();
        <Self as SecondaryMap<NodeIndex, bool>>::set(self, a, true);
        // Marking a node behind the end grows the map.
        self.len() > len || !self.is_visited(&a)""")],
needs="visiting a node with a smaller index after one with a larger index",
breaks="visit reports a first visit as a repeated one",
demo='''
use portgraph::*;
use petgraph::visit::{Visitable, VisitMap};
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let n: Vec<_> = (0..4).map(|_| g.add_node(1, 1)).collect();
    let mut m = g.visit_map();
    for &x in &[n[3], n[0]] { assert!(m.visit(x)); assert!(!m.visit(x)); }
}
''', deps='petgraph = "0.8"'),
dict(id="c21-adjacency-row", prop="C21", edits=[(PE,
"""                for node in self.nodes_iter() {
                    for neighbour in self.output_neighbours(node) {
                        let row = node.index();
                        let column = neighbour.index();
                        matrix.set(row * row_size + column, true);
                    }
                }
                (matrix, row_size)""",
"""                for (row, node) in self.nodes_iter().enumerate() {
                    for neighbour in self.output_neighbours(node) {
                        let column = neighbour.index();
                        matrix.set(row * row_size + column, true);
                    }
                }
                (matrix, row_size)""")],
needs="the adjacency matrix of a graph with a hole in its node indices",
breaks="adjacency is reported for the wrong source node",
demo='''
use portgraph::*;
use petgraph::visit::GetAdjacencyMatrix;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let n: Vec<_> = (0..4).map(|_| g.add_node(1, 1)).collect();
    g.remove_node(n[1]);
    g.link_nodes(n[2], 0, n[3], 0).unwrap();
    let m = g.adjacency_matrix();
    assert!(g.is_adjacent(&m, n[2], n[3]));
    assert!(!g.is_adjacent(&m, n[0], n[3]));
}
''', deps='petgraph = "0.8"'),
dict(id="c22-port-ids", prop="C22", edits=[(DOT,
"""            .ports(node, direction)
            .enumerate()
            .filter_map(|(offset, port)| match self.port_style(port) {
                PortStyle::Hidden => None,
                PortStyle::Plain(label, show_offset) => Some(PortCellStrings {
                    id: format!("{dir}{offset}"),""",
"""            .ports(node, direction)
            .map(|port| (port, self.port_style(port)))
            .filter(|(_, style)| !matches!(style, PortStyle::Hidden))
            .enumerate()
            .filter_map(|(offset, (_, style))| match style {
                PortStyle::Hidden => None,
                PortStyle::Plain(label, show_offset) => Some(PortCellStrings {
                    id: format!("{dir}{offset}"),""")],
needs="a node with a hidden port before a shown port in the same direction",
breaks="the cells of the following ports carry the identifiers of other ports, so links are drawn to the wrong port",
demo='''
use portgraph::*;
use portgraph::render::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let (a, b) = (g.add_node(0, 2), g.add_node(1, 0));
    g.link_nodes(a, 1, b, 0).unwrap();
    let hide = g.output(a, 0).unwrap();
    let s = g.dot_format().with_port_style(|p| if p == hide { PortStyle::Hidden } else { PortStyle::new("x") }).finish();
    assert!(s.contains("0:out1 -> 1:in0"));
    assert!(s.contains("port=\\"out1\\"") && !s.contains("port=\\"out0\\""), "{s}");
}
'''),
dict(id="c22-escape-once", prop="C22", edits=[(MM,
"""    format!("\\"{}\\"", label.replace('"', "#quot;").replace('\\n', "<br>"))""",
"""    format!("\\"{}\\"", label.trim_end().replace('"', "#quot;").replacen('\\n', "<br>", 2))""")],
needs="a label with at least three line breaks",
breaks="a raw line break ends the node definition in the middle of its label",
demo='''
use portgraph::*;
use portgraph::render::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    g.add_node(0, 0);
    let s = g.mermaid_format().with_node_style(|_| NodeStyle::boxed("a\\nb\\nc\\nd")).finish();
    assert_eq!(s.lines().count(), 2, "{s}");
}
'''),
dict(id="c22-sibling-region", prop="C22", edits=[(MM,
"""                        for child in self.node_children(node).rev() {
                            exploration_stack.push(ExplorationStep::ExploreNode { node: child });
                        }""",
"""                        let mut children: Vec<_> = self.node_children(node).collect();
                        // Draw the boxes first.
                        children.sort_by_key(|&child| self.is_leaf(child));
                        children.dedup_by_key(|child| (self.is_leaf(*child), self.graph.num_inputs(*child) == 0 && self.graph.num_outputs(*child) == 0 && self.is_leaf(*child)).1.then_some(()).ok_or(*child));
                        for child in children.into_iter().rev() {
                            exploration_stack.push(ExplorationStep::ExploreNode { node: child });
                        }""")],
needs="two neighbouring leaves without ports under the same parent",
breaks="only one of them is drawn",
demo='''
use portgraph::*;
use portgraph::render::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let mut h = Hierarchy::new();
    let r = g.add_node(0, 0);
    for _ in 0..2 { let n = g.add_node(0, 0); h.push_child(n, r).unwrap(); }
    let s = g.mermaid_format().with_hierarchy(&h).finish();
    assert!(s.contains("1[1]") && s.contains("2[2]"), "{s}");
}
'''),
dict(id="c25-ports-back-len", prop="C25", edits=[(IT,
"""        while let Some((index, port_entry)) = self.iter.next_back() {
            if let PortEntry::Port(_) = port_entry {
                self.len -= 1;
                return Some(PortIndex::new(index));
            }
        }
        None
    }
}

impl FusedIterator for Ports<'_> {}""",
"""        while let Some((index, port_entry)) = self.iter.next_back() {
            if let PortEntry::Port(_) = port_entry {
                self.len = self.len.min(self.iter.len());
                return Some(PortIndex::new(index));
            }
        }
        None
    }
}

impl FusedIterator for Ports<'_> {}""")],
needs="driving the port iterator of a graph with freed ports from the back",
breaks="the promised exact length is too large",
demo='''
use portgraph::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let n: Vec<_> = (0..3).map(|_| g.add_node(1, 1)).collect();
    g.remove_node(n[0]);
    let v = g.clone();
    let mut i = v.ports_iter();
    let mut left = v.port_count();
    while i.next_back().is_some() { left -= 1; assert_eq!(i.size_hint(), (left, Some(left))); }
}
'''),
dict(id="c25-offset-back", prop="C25", edits=[(IT,
"""        if let Some(i) = self.outgoing.next_back() {
            return Some(PortOffset::new_outgoing(i));
        }
        if let Some(i) = self.incoming.next_back() {
            return Some(PortOffset::new_incoming(i));
        }
        None""",
"""        if let Some(i) = self.incoming.next_back() {
            return Some(PortOffset::new_incoming(i));
        }
        if let Some(i) = self.outgoing.next_back() {
            return Some(PortOffset::new_outgoing(i));
        }
        None""")],
needs="driving the offsets of a node with both inputs and outputs from the back",
breaks="the reversed sequence is not the reverse of the forward one",
demo='''
use portgraph::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let n = g.add_node(2, 2);
    let f: Vec<_> = g.all_port_offsets(n).collect();
    let mut b: Vec<_> = g.all_port_offsets(n).rev().collect();
    b.reverse();
    assert_eq!(f, b);
}
'''),
dict(id="c25-portlinks-hint", prop="C25", edits=[(MI,
"""            PortLinks::Multiport { subports, .. } => (0, Some(subports.len())),""",
"""            PortLinks::Multiport { subports, .. } => (subports.len(), Some(subports.len())),""")],
needs="the links of a port one of whose links was removed while others remain",
breaks="the lower size estimate is larger than the number of links left",
demo='''
use portgraph::*;
fn main() {
    let mut g: MultiPortGraph = MultiPortGraph::new();
    let (a, b) = (g.add_node(0, 1), g.add_node(3, 0));
    for i in 0..3 { g.link_nodes(a, 0, b, i).unwrap(); }
    let o = g.output(a, 0).unwrap();
    let (s, _) = g.port_links(o).nth(1).unwrap();
    g.unlink_subport(s);
    let i = g.port_links(o);
    let (lo, hi) = i.size_hint();
    let n = i.count();
    assert!(lo <= n && hi.map_or(true, |h| n <= h));
}
'''),
dict(id="c25-nth-skip", prop="C25", edits=[(UN,
"""        self.iter
            .nth(n)
            .map(|(key, value)| (key.try_into().ok().unwrap(), value))""",
"""        // The position is the key.
        self.iter
            .find(|(key, _)| *key == n)
            .map(|(key, value)| (key.try_into().ok().unwrap(), value))""")],
needs="nth on a map iterator that was already advanced",
breaks="the wrong entry is returned, or none",
demo='''
use portgraph::*;
fn main() {
    let mut m: UnmanagedDenseMap<NodeIndex, u32> = UnmanagedDenseMap::new();
    for i in 0..6 { m.set(NodeIndex::new(i), i as u32 + 1); }
    let mut i = m.iter();
    i.next();
    assert_eq!(i.nth(1).map(|x| *x.1), Some(3));
}
'''),
dict(id="c10-take-len", prop="C10", edits=[(UN,
"""            self.data[new.into()] = val;
        } else {""",
"""            *self.get_mut(new) = val;
            // Trim an emptied tail.
            if old.into() + 1 == self.data.len() {
                self.data.pop();
            }
        } else {""")],
needs="a rekey of the last stored index to itself",
breaks="the value of the index is lost",
demo='''
use portgraph::*;
fn main() {
    let mut m: UnmanagedDenseMap<NodeIndex, u32> = UnmanagedDenseMap::new();
    for i in 0..6 { m.set(NodeIndex::new(i), i as u32 + 1); }
    m.rekey(NodeIndex::new(5), Some(NodeIndex::new(5)));
    assert_eq!(*m.get(NodeIndex::new(5)), 6);
}
'''),
dict(id="c10-capacity-default", prop="C10", edits=[(UN,
"""        if capacity > self.data.capacity() {
            self.data.reserve(capacity - self.data.capacity());
            self.data.resize(capacity, self.default.clone());
        }""",
"""        if capacity > self.data.capacity() {
            // Grow to the capacity that was actually allocated.
            let fill = self.data.last().unwrap_or(&self.default).clone();
            self.data.reserve(capacity - self.data.capacity());
            self.data.resize(capacity, fill);
        }""")],
needs="growing the capacity of a map whose last stored entry is not the default",
breaks="indices never set answer the last value instead of the default",
demo='''
use portgraph::*;
fn main() {
    let mut m: UnmanagedDenseMap<NodeIndex, u32> = UnmanagedDenseMap::new();
    m.set(NodeIndex::new(2), 7);
    m.ensure_capacity(50);
    assert_eq!(*m.get(NodeIndex::new(20)), 0);
}
'''),
dict(id="c12-flat-memo", prop="C12", edits=[(RG,
"""                        for child in""", """                        for child in""")], needs="-", breaks="-", demo="fn main() {}"),
dict(id="c20-skip-default", prop="C20", edits=[(UN,
"""#[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
pub struct UnmanagedDenseMap<K, V> {
    data: Vec<V>,
    phantom: PhantomData<K>,
    default: V,
}""",
"""#[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
#[cfg_attr(feature = "serde", serde(bound(deserialize = "V: serde::Deserialize<'de> + Clone")))]
#[cfg_attr(feature = "serde", serde(from = "StoredMap<V>"))]
pub struct UnmanagedDenseMap<K, V> {
    data: Vec<V>,
    phantom: PhantomData<K>,
    default: V,
}

/// Serialised form, which may lack the default if it is the first value.
#[cfg(feature = "serde")]
#[derive(Deserialize)]
struct StoredMap<V> {
    data: Vec<V>,
    default: Option<V>,
}

#[cfg(feature = "serde")]
impl<K, V: Clone> From<StoredMap<V>> for UnmanagedDenseMap<K, V> {
    fn from(s: StoredMap<V>) -> Self {
        let default = s.default.or_else(|| s.data.first().cloned());
        Self {
            data: s.data,
            phantom: PhantomData,
            default: default.expect("map without default"),
        }
    }
}""")],
needs="reading back a map whose values are optional and whose default is None",
breaks="an absent default is taken from the first entry, or the read panics",
demo='''
use portgraph::*;
fn main() {
    let mut m: UnmanagedDenseMap<NodeIndex, Option<u32>> = UnmanagedDenseMap::new();
    m.set(NodeIndex::new(0), Some(3));
    let s = serde_json::to_string(&m).unwrap();
    let b: UnmanagedDenseMap<NodeIndex, Option<u32>> = serde_json::from_str(&s).unwrap();
    assert_eq!(*b.get(NodeIndex::new(9)), None);
    assert!(b == m);
}
''', deps='serde_json = "1"'),
dict(id="c20-offset-sign", prop="C20", edits=[(IX, "XX", "XX")], needs="-", breaks="-", demo="fn main() {}"),
dict(id="c08-insert-dir", prop="C08", edits=[(PG, "XX", "XX")], needs="-", breaks="-", demo="fn main() {}"),
]
SEEDS=[s for s in SEEDS if s["needs"]!="-"]
