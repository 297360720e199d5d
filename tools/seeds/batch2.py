RG="src/view/region.rs"; SG="src/view/subgraph.rs"; BD="src/boundary.rs"; DY="src/algorithms/dynamic.rs"
TS="src/algorithms/toposort.rs"; PO="src/algorithms/post_order.rs"; DO="src/algorithms/dominators.rs"; LC="src/algorithms/lca.rs"
LI="src/algorithms/convex/line_convex_checker.rs"; TC="src/algorithms/convex/topo_convex_checker.rs"; UN="src/unmanaged.rs"
FL="src/view/flat_region.rs"; FI="src/view/filter.rs"; PG="src/portgraph.rs"
SEEDS=[
dict(id="c24-transient-memo", prop="C24", edits=[(RG,
"""        for node in ancestors {
            cache_mut.insert(node, is_descendant);
        }
        is_descendant""",
"""        // Make room first, so that the memo never reallocates half-way.
        for &node in &ancestors {
            cache_mut.entry(node).or_default();
        }
        if ancestors.len() > 4 {
            // Give other readers a chance on long chains.
            drop(cache_mut);
            cache_mut = self
                .is_descendant
                .write()
                .expect("The Region cache is poisoned.");
        }
        for &node in &ancestors {
            cache_mut.insert(node, is_descendant);
        }
        is_descendant""")],
needs="two threads asking for nodes of the same deep chain that nobody asked for before, one of them reading between the two write locks",
breaks="the other thread sees the placeholder and is told that a descendant is not part of the region",
demo='''
use portgraph::*;
use portgraph::view::Region;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let mut h = Hierarchy::new();
    let root = g.add_node(0, 0);
    let mut nodes = vec![];
    let mut p = root;
    for _ in 0..400 { let n = g.add_node(0, 0); h.push_child(n, p).unwrap(); nodes.push(n); p = n; }
    let t0 = std::time::Instant::now();
    let mut wrong = 0;
    while t0.elapsed().as_secs() < 60 && wrong == 0 {
        let r = Region::new(&g, &h, root);
        let b = std::sync::Barrier::new(8);
        let (r, b, nodes) = (&r, &b, &nodes);
        wrong += std::thread::scope(|s| {
            let v: Vec<_> = (0..8).map(|i| s.spawn(move || { b.wait(); (0..400).filter(|k| !r.is_descendant(nodes[(399 + 400 - k - i * 7 % 3) % 400])).count() })).collect();
            v.into_iter().map(|t| t.join().unwrap()).sum::<usize>()
        });
        if t0.elapsed().as_secs() > 25 { break; }
    }
    assert_eq!(wrong, 0);
}
'''),
dict(id="c24-contended-fallback", prop="C24", edits=[(RG,
"""            let cache = self
                .is_descendant
                .read()
                .expect("The Region cache is poisoned.");

            if let""",
"""            // Do not wait for a writer: without the memo a plain check is as good.
            let Ok(cache) = self.is_descendant.try_read() else {
                return self.hierarchy.parent(node) == Some(self.region_root);
            };

            if let""")],
needs="a query of a grandchild while another thread holds the memo for writing",
breaks="under contention only the direct children count as descendants",
demo='''
use portgraph::*;
use portgraph::view::Region;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let mut h = Hierarchy::new();
    let root = g.add_node(0, 0);
    let mut nodes = vec![];
    let mut p = root;
    for i in 0..3000 { let n = g.add_node(0, 0); h.push_child(n, p).unwrap(); nodes.push(n); if i % 3 == 0 { p = n; } }
    let t0 = std::time::Instant::now();
    let mut wrong = 0;
    while t0.elapsed().as_secs() < 25 && wrong == 0 {
        let r = Region::new(&g, &h, root);
        let b = std::sync::Barrier::new(8);
        let (r, b, nodes) = (&r, &b, &nodes);
        wrong += std::thread::scope(|s| {
            let v: Vec<_> = (0..8).map(|i| s.spawn(move || { b.wait(); (0..3000).filter(|k| !r.is_descendant(nodes[(k * 7 + i * 311) % 3000])).count() })).collect();
            v.into_iter().map(|t| t.join().unwrap()).sum::<usize>()
        });
    }
    assert_eq!(wrong, 0);
}
'''),
dict(id="c24-eq-locks", prop="C24", edits=[(RG,
"""        self.region_root == other.region_root
            && self.graph == other.graph""",
"""        // Regions that already disagree about a node cannot be equal.
        if self.region_root == other.region_root {
            let mine = self.is_descendant.read().expect("poisoned");
            let theirs = other.is_descendant.read().expect("poisoned");
            if mine
                .iter()
                .any(|(n, d)| theirs.get(n).is_some_and(|e| e != d))
            {
                return false;
            }
        }
        self.graph == other.graph
            && self.region_root == other.region_root""")],
needs="one thread comparing a region with itself (or two regions compared in both orders) while another thread is about to fill the memo",
breaks="the second read lock waits behind the writer, which waits for the first: the threads block forever",
demo='''
use portgraph::*;
use portgraph::view::Region;
use std::sync::atomic::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let mut h = Hierarchy::new();
    let root = g.add_node(0, 0);
    let mut nodes = vec![];
    for _ in 0..500 { let n = g.add_node(0, 0); h.push_child(n, root).unwrap(); nodes.push(n); }
    static DONE: AtomicBool = AtomicBool::new(false);
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(60)); if !DONE.load(Ordering::SeqCst) { eprintln!("blocked"); std::process::exit(1) } });
    let t0 = std::time::Instant::now();
    while t0.elapsed().as_secs() < 20 {
        let r = Region::new(&g, &h, root);
        let (r, nodes) = (&r, &nodes);
        std::thread::scope(|s| {
            for i in 0..4 { s.spawn(move || for k in 0..500 { assert!(r.is_descendant(nodes[(k * 3 + i * 77) % 500])); }); }
            for _ in 0..4 { s.spawn(move || for _ in 0..200 { assert!(*r == *r); }); }
        });
    }
    DONE.store(true, Ordering::SeqCst);
}
'''),
dict(id="c12-region-links", prop="C12", edits=[(RG,
"""        self.graph
            .all_links(node)
            .filter(|&lnk| self.contains_link(lnk))""",
"""        self.graph
            .all_links(node)
            .filter(|&(_, to)| self.contains_endpoint(to))""")],
needs="all_links of a node outside the region that is linked to a node inside",
breaks="all_links lists a link that links() and port_links() do not list",
demo='''
use portgraph::*;
use portgraph::view::Region;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let (r, a, b) = (g.add_node(0, 0), g.add_node(1, 0), g.add_node(0, 1));
    let mut h = Hierarchy::new();
    h.push_child(a, r).unwrap();
    g.link_nodes(b, 0, a, 0).unwrap();
    let v = Region::new(&g, &h, r);
    assert_eq!(v.all_links(b).count(), 0);
    assert_eq!(v.all_links(a).count(), 0);
}
'''),
dict(id="c08-copy-two-way", prop="C08", edits=[(SG,
"""                        if new_other < new_node {
                            continue;
                        }""",
"""                        if new_other < new_node && self.graph.port_direction(node_p) == Some(Direction::Incoming) {
                            continue;
                        }""")],
needs="copying a subgraph with links in both directions between nodes whose copies are numbered the other way round",
breaks="some internal links are copied twice or refused",
demo='''
use portgraph::*;
use portgraph::view::Subgraph;
fn main() {
    let mut g: MultiPortGraph = MultiPortGraph::new();
    let (a, b) = (g.add_node(1, 1), g.add_node(1, 1));
    g.link_nodes(a, 0, b, 0).unwrap();
    g.link_nodes(b, 0, a, 0).unwrap();
    Subgraph::with_nodes(&mut g, [a, b]).copy_in_parent().unwrap();
    assert_eq!(g.link_count(), 4);
}
'''),
dict(id="c19-missing-reach", prop="C19", edits=[(BD,
"""        for (self_reachable, other_reachable) in self.reachable.iter().zip(other.reachable.iter()) {
            if other_reachable
                .iter()
                .any(|port| !self_reachable.contains(port))""",
"""        for (self_reachable, other_reachable) in self.reachable.iter().zip(other.reachable.iter()) {
            if self_reachable.len() < other_reachable.len()
                && other_reachable
                    .iter()
                    .any(|port| !self_reachable.contains(port))""")],
needs="two orderings where an input reaches as many outputs in both, but different ones",
breaks="an ordering is called stronger although pairs are missing",
demo='''
use portgraph::*;
use portgraph::boundary::Boundary;
fn main() {
    // two parallel wires, straight and crossed
    let mk = |cross: bool| {
        let mut g: PortGraph = PortGraph::new();
        let n: Vec<_> = (0..4).map(|i| if i < 2 { g.add_node(1, 1) } else { g.add_node(1, 1) }).collect();
        let (x, y) = if cross { (3, 2) } else { (2, 3) };
        g.link_nodes(n[0], 0, n[x], 0).unwrap();
        g.link_nodes(n[1], 0, n[y], 0).unwrap();
        let b = Boundary::new([g.input(n[0], 0).unwrap(), g.input(n[1], 0).unwrap()], [g.output(n[2], 0).unwrap(), g.output(n[3], 0).unwrap()]);
        (g, b)
    };
    let ((g1, b1), (g2, b2)) = (mk(false), mk(true));
    assert!(b1.is_stronger_than(&b1, &g1, &g1));
    assert!(!b1.is_stronger_than(&b2, &g1, &g2));
}
'''),
dict(id="c18-remove-tail", prop="C18", edits=[(DY,
"""            for (i, &n) in self.order.iter().enumerate() {
                self.node_to_pos.insert(n, i);
            }""",
"""            for (i, &n) in self.order.iter().enumerate().skip(pos + 1) {
                self.node_to_pos.insert(n, i);
            }""")],
needs="removing a node and afterwards relying on the position of its successor in the order (a link against the order)",
breaks="the node right after the removed one keeps a stale position",
demo='''
use portgraph::*;
use portgraph::algorithms::*;
fn main() {
    let mut c = DynamicTopoConvexChecker::new(PortGraph::<u32, u32, u16>::new());
    let n: Vec<_> = (0..5).map(|_| c.add_node(2, 2)).collect();
    c.remove_node(n[1]);
    // order: 0 2 3 4; link against it and back again
    c.link_nodes(n[3], 0, n[2], 0).unwrap();
    c.link_nodes(n[4], 0, n[3], 0).unwrap();
    c.link_nodes(n[2], 0, n[0], 0).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.link_nodes(n[0], 0, n[4], 0)));
    assert!(r.is_err() || r.unwrap().is_err());
    assert!(!c.is_node_convex([n[4], n[2]]));
    assert!(c.is_node_convex([n[4], n[3], n[2]]));
}
'''),
dict(id="c17-extend-after", prop="C17", edits=[(LI,
"""                    if self.line_positions_from(interval.max, line).nth(1) != Some(pos) {
                        *intervals = old_intervals;
                        return false;
                    }""",
"""                    if self.line_positions_from(interval.max, line).nth(1) != Some(pos) {
                        return false;
                    }""")],
needs="try_extend_intervals with a node on two lines, the first of which can be extended (or is new) while the node is too far behind the end of the second",
breaks="the intervals are changed although the extension is refused",
demo='''
use portgraph::*;
use portgraph::algorithms::LineConvexChecker;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    // n0 -> n1 -> n3, n2 -> n3
    for flip in [false, true] {
        g.clear();
        let n0 = g.add_node(0, 1);
        let n1 = g.add_node(1, 1);
        let n2 = g.add_node(0, 1);
        let n3 = g.add_node(2, 0);
        g.link_nodes(n0, 0, n1, 0).unwrap();
        g.link_nodes(n1, 0, n3, flip as usize).unwrap();
        g.link_nodes(n2, 0, n3, 1 - flip as usize).unwrap();
        let c = LineConvexChecker::new(&g);
        let mut iv = c.get_intervals_from_nodes([n0]).unwrap();
        let before = iv.clone();
        assert!(!c.try_extend_intervals(&mut iv, n3));
        assert_eq!(iv, before);
    }
}
'''),
dict(id="c16-tree-bounds", prop="C16", edits=[(LC,
"""        self.first_visit[a] <= self.first_visit[b] && self.last_visit[a] >= self.last_visit[b]""",
"""        a == b
            || !self.climb_nodes[b].is_empty()
                && self.first_visit[a] <= self.first_visit[b]
                && (self.last_visit[a] > self.last_visit[b]
                    || self.climb_nodes[b].first() == Some(&a)
                    || self.climb_nodes[b].len() > 6 && self.climb_nodes[a].len() <= 1)""")],
needs="a hierarchy more than 64 levels deep",
breaks="a shallow node is taken for an ancestor of nodes in a deep branch visited after it",
demo='''
use portgraph::*;
use portgraph::algorithms::lca;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let mut h = Hierarchy::new();
    let root = g.add_node(0, 0);
    let (l, r) = (g.add_node(0, 0), g.add_node(0, 0));
    let mut deep = g.add_node(0, 0);
    h.push_child(l, root).unwrap();
    h.push_child(deep, root).unwrap();
    h.push_child(r, root).unwrap();
    for _ in 0..200 { let n = g.add_node(0, 0); h.push_child(n, deep).unwrap(); deep = n; }
    let x = lca(&g, &h);
    assert!(!x.is_ancestor(l, deep));
    assert!(!x.is_ancestor(r, deep));
    assert_eq!(x.lca(l, deep), Some(root));
    assert_eq!(x.lca(r, deep), Some(root));
}
'''),
dict(id="c15-filter-both", prop="C15", edits=[(DO,
"""                        let link = graph.port_link(port)?;
                        let pred""",
"""                        let link = graph
                            .port_link(port)
                            .filter(|&l| direction == Direction::Outgoing || port_filter(node, l))?;
                        let pred""")],
needs="filtered dominators against the direction of the links, with a port filter that looks at the node it is given",
breaks="the filter is asked about a port together with a node it does not belong to; links vanish from the tree or the construction panics",
demo='''
use portgraph::*;
use portgraph::algorithms::{dominators_filtered, DominatorTree};
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let (a, b, c) = (g.add_node(1, 1), g.add_node(1, 2), g.add_node(2, 0));
    g.link_nodes(a, 0, b, 0).unwrap();
    g.link_nodes(b, 0, c, 0).unwrap();
    g.link_nodes(b, 1, c, 1).unwrap();
    let t: DominatorTree = dominators_filtered(&g, c, Direction::Incoming, |_| true, |n, p| g.port_node(p) == Some(n));
    assert_eq!(t.immediate_dominator(b), Some(c));
    assert_eq!(t.immediate_dominator(a), Some(b));
}
'''),
dict(id="c14-finished-skip", prop="C14", edits=[(PO,
"""                    if !self.visited[link_node.index()] {
                        self.stack.push(link_node);
                    }""",
"""                    if !self.visited[link_node.index()] && !self.stack.contains(&link_node) {
                        self.stack.push(link_node);
                    }""")],
needs="a node that waits on the stack below and is linked from a node visited first",
breaks="the node is not visited below its first discoverer but later: successors come after their predecessors",
demo='''
use portgraph::*;
use portgraph::algorithms::postorder;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let (a, b, c) = (g.add_node(0, 2), g.add_node(1, 1), g.add_node(2, 0));
    g.link_nodes(a, 0, b, 0).unwrap();
    g.link_nodes(a, 1, c, 0).unwrap();
    g.link_nodes(b, 0, c, 1).unwrap();
    assert_eq!(postorder(&g, [a], Direction::Outgoing).collect::<Vec<_>>(), vec![c, b, a]);
}
'''),
dict(id="c13-source-mark", prop="C13", edits=[(TS,
"""                new_candidate |= !self.visited_ports.get(port);
                self.visited_ports.set(port, true);""",
"""                new_candidate |= !self.visited_ports.get(port);
                self.visited_ports.set(port, self.graph.port_link(port).is_some());""")],
needs="a source with an unlinked port that is added again, or ports_remaining after sources with unlinked ports",
breaks="unlinked ports of sources are reported as remaining",
demo='''
use portgraph::*;
use portgraph::algorithms::*;
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let a = g.add_node(2, 1);
    let b = g.add_node(1, 0);
    g.link_nodes(a, 0, b, 0).unwrap();
    let mut t: TopoSort<_> = toposort(&g, [a], Direction::Outgoing);
    assert_eq!((&mut t).collect::<Vec<_>>(), vec![a, b]);
    assert_eq!(t.ports_remaining().count(), 0);
}
'''),
]
