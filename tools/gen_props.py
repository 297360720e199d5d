#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Every structural query agrees with the history of edits",
  "After any sequence of edits to a port graph in which each port carries at most one link, every query about nodes, ports, offsets, directions and counts answers exactly what the edits imply: each node has the requested number of input and output ports, numbered from zero in order, every port belongs to exactly one node, direction and offset, and the counts equal what the iterators yield. Nodes and ports that were removed or never created are reported as absent by every query, and clearing leaves an empty, usable graph. Reserving, shrinking, cloning and debug printing change nothing observable.",
  ["histories", "inputs"], "all finite sequences of add/remove/resize/link/unlink/compact/swap/insert/clear/reserve/shrink/clone operations, for 8-, 16- and 32-bit port offsets",
  "Unit tests replay a few short fixed histories; the bookkeeping (free lists, slab reuse, in-place shifts) only goes wrong for particular interleavings of many operations.",
  ["src/portgraph.rs", "src/portgraph/iter.rs", "src/view.rs"],
  [("node slots with an intrusive free list", "src/portgraph.rs alloc_node/free_node"), ("port slabs with per-size free lists", "src/portgraph.rs alloc_ports/free_ports"), ("query methods", "src/portgraph.rs impl PortView")],
  ["PortView methods of PortGraph after each operation"],
  [("node and port tables", "which slots are live, and the node each port belongs to")])

p("C02", "Links are symmetric, join opposite directions, and are counted exactly",
  "In a single-link port graph every link joins one output port to one input port, is reported identically from both of its ends and through every way of listing links, neighbours and connections, and a port has at most one link. The link count always equals the number of links, a link exists exactly from the moment a linking call succeeds until it is unlinked or one of its ports is removed, and unlinking returns the port that was linked. A node linked to itself is listed once when both directions are listed together.",
  ["histories"], "all finite edit histories, including self-links, parallel links between the same nodes and removal of linked nodes and ports",
  "Tests check link symmetry on a handful of graphs; backlinks are rewritten during resizing, compaction and removal, where only specific layouts (self-links, shifted ports, reused slabs) expose an error.",
  ["src/portgraph.rs", "src/portgraph/iter.rs", "src/view.rs"],
  [("paired link table", "src/portgraph.rs link_ports/unlink_port/free_ports"), ("link iterators", "src/portgraph/iter.rs NodeLinks, Neighbours, NodeConnections")],
  ["LinkView methods of PortGraph after each operation"])

p("C03", "Indices are stable and never handed out twice",
  "No operation changes the index of a node or port except as it documents or reports, and a node or port that is created never receives an index that is in use. Removed slots may be reused, also after swapping, clearing and compacting, without disturbing anything that is alive. Swapping two node indices exchanges exactly those two, whether both, one or neither of the slots holds a node.",
  ["histories"], "all finite histories of creation, removal, swapping, resizing and compaction, followed by creating nodes of every size until all free slots are used up",
  "Reuse of freed slots depends on the whole history of removals; tests reuse at most one or two slots and never swap a free one.",
  ["src/portgraph.rs"],
  [("intrusive doubly linked list of free nodes", "src/portgraph.rs alloc_node/free_node/swap_nodes"), ("free port slabs by size", "src/portgraph.rs alloc_ports/free_ports/set_num_ports")],
  ["indices returned by add_node and by the port queries"],
  [("free lists", "slots that may be handed out next")])

p("C04", "Resizing a node keeps its surviving ports and reports every move",
  "Changing the number of ports of a node removes exactly the ports beyond the new counts, with their links, adds unlinked ports at the end, and leaves every surviving port at the same offset with the same link, including links to the node itself. Every port that changes index or disappears is reported exactly once, with the right new index or the port it was linked to, in an order that lets user data kept per port follow by applying the reports one by one. No other node is affected, and counts above the supported limits are refused without changing anything.",
  ["histories", "inputs"], "all histories and all pairs of old and new port counts up to the documented limits, in single-link graphs and graphs with several links per port",
  "The number of (old, new, spare capacity, link pattern) combinations is large and in-place shifting in either direction behaves differently from reallocation; tests cover a few.",
  ["src/portgraph.rs", "src/multiportgraph.rs"],
  [("in-place shift and reallocation", "src/portgraph.rs set_num_ports/resize_ports_inplace"), ("flags following the moves", "src/multiportgraph.rs set_num_ports")],
  ["callback of set_num_ports and queries after it"])

p("C05", "Compaction only renames, and reports every renaming",
  "Compacting the nodes or the ports of a graph changes nothing but indices: following the reported renamings, every node keeps its ports, offsets and links, and user data kept alongside follows by applying the reports one by one. Compaction never increases the largest index in use, leaves a single-link graph without gaps in the compacted indices, and the graph remains fully usable afterwards: later additions, removals and resizings never touch another node's ports.",
  ["histories"], "all histories with compactions at any point, any pattern of free slots and spare port capacity, in single-link graphs and graphs with several links per port",
  "Tests compact one small graph; errors depend on which slots are free and on stale bookkeeping that only matters several operations later.",
  ["src/portgraph.rs", "src/multiportgraph.rs"],
  [("node compaction", "src/portgraph.rs compact_nodes"), ("port compaction and capacity reset", "src/portgraph.rs compact_ports"), ("flags following the moves", "src/multiportgraph.rs compact_nodes/compact_ports")],
  ["callbacks of compact_nodes/compact_ports and queries after them"])

p("C06", "Refused operations report the right cause and change nothing",
  "A linking request succeeds exactly when both ports exist, have opposite directions and, where only one link per port is allowed, are both free; requests by node and offset succeed exactly when those offsets exist as well. A refused request reports a cause that is true of the ports named in it, and leaves the graph exactly as it was. Unlinking something that is not linked or removing something absent does nothing.",
  ["inputs", "histories"], "all pairs of present, absent, removed, linked and unlinked ports, subports, offsets and nodes, in every reachable graph",
  "Tests try a few error cases on fresh graphs and rarely look at the graph after a refusal.",
  ["src/portgraph.rs", "src/multiportgraph.rs", "src/view.rs"],
  [("checks before mutation", "src/portgraph.rs link_ports"), ("validation before allocating subports", "src/multiportgraph.rs link_ports/link_subports"), ("offset lookup", "src/view.rs link_offsets")],
  ["LinkError values and all queries before and after"])

p("C07", "Graphs with several links per port behave as a multiset of links",
  "After any sequence of edits to a port graph that allows several links per port, its nodes, ports, links, neighbours, connections, subports and counts are exactly those implied by the edits, with nothing of the internal representation showing, and every link is reported identically from both ends. Each link occupies one distinct subport at either end, which keeps its identity while other links of the same port come and go. Unlinking a port removes all its links and returns one of the subports it was linked to, unlinking a subport removes exactly its link, and the underlying plain graph shows the same links once its auxiliary nodes are contracted.",
  ["histories"], "all finite edit histories, including self-links, repeated links between the same ports, subport-level edits, resizing, removal, swapping and compaction",
  "The flags and auxiliary nodes behind multiple links must follow every move of the underlying graph; tests exercise a few linear scenarios and the library's own property test covers little beyond construction.",
  ["src/multiportgraph.rs", "src/multiportgraph/iter.rs"],
  [("copy nodes and their flags", "src/multiportgraph.rs get_free_multiport/remove_copy_node"), ("iterators that skip the internal nodes", "src/multiportgraph/iter.rs")],
  ["PortView, LinkView and MultiView methods of MultiPortGraph after each operation"],
  [("multiport and copy node flags", "which ports and nodes are internal")])

p("C08", "Inserting or copying a graph yields an isomorphic copy and nothing else",
  "Inserting a graph, or any view of one, into another adds one new node per node of the source with the same numbers of ports, and exactly the links of the source between corresponding ports, including self-links and parallel links; the returned map covers exactly the source nodes, and nothing that was there before changes. Copying a subgraph within its graph adds an isomorphic copy of its nodes and inner links, reproduces each link that joins the subgraph to the rest with the same outer port, and refuses, leaving the graph unchanged, when such a link cannot be duplicated because ports carry one link each. An insertion whose links the graph cannot hold is refused and leaves the graph unchanged too.",
  ["inputs", "histories"], "all pairs of destination and source graphs and views (single-link, multi-link, filtered, regions, subgraphs), all node subsets to copy",
  "Tests insert one or two tiny graphs; links are added while nodes are being renamed, so errors depend on order, self-links, parallel links and what the view hides.",
  ["src/view.rs", "src/view/subgraph.rs"],
  [("copy loop with link deduplication", "src/view.rs insert_graph"), ("copy within the parent", "src/view/subgraph.rs copy_in_parent")],
  ["returned node map and all queries afterwards"])

p("C09", "The hierarchy is always an ordered forest matching its edits",
  "After any sequence of attaching, inserting, detaching, swapping, renaming and removing, the parent, the ordered children, the siblings, the counts and the descendants of every node are exactly those implied by the edits, and no node is ever its own ancestor. A request that would create a cycle, attach an attached node, place a node next to a root or overwrite an occupied index is refused with a true cause and changes nothing. Following the renamings reported by node compaction keeps the forest attached to the right nodes.",
  ["histories", "inputs"], "all finite sequences of hierarchy operations over any node indices, with forward, backward and mixed iteration from both ends",
  "Sibling lists are doubly linked and shared between parents and siblings; only particular positions (first, last, only child) and sequences expose errors, and tests use a few fixed trees.",
  ["src/hierarchy.rs"],
  [("linked child lists", "src/hierarchy.rs attach_*/detach/insert_*"), ("cycle check", "src/hierarchy.rs cycle_check"), ("rename and swap", "src/hierarchy.rs rekey/swap_nodes")],
  ["all Hierarchy methods after each operation"])

p("C10", "Secondary maps behave as total functions with a default",
  "Every kind of secondary map (dense, bit vector, hash set, node/port weights) answers, after any sequence of operations, the value last stored for each index and the map's default for every other index, however its capacity is changed. Removing, taking, renaming and swapping move exactly the values of the indices named and leave the default behind, iteration yields every stored value at its index, and references obtained to two or more distinct entries at once never alias.",
  ["histories", "inputs"], "all operation sequences over all map kinds, default values and index orders, including indices beyond the capacity",
  "Tests cover set/get of a few indices; behaviour at the capacity boundary, with a non-standard default and after renaming to or from absent entries is not covered.",
  ["src/secondary.rs", "src/unmanaged.rs", "src/weights.rs"],
  [("dense storage with a default value", "src/unmanaged.rs"), ("bit vector and hash set maps", "src/secondary.rs"), ("paired weights", "src/weights.rs")],
  ["SecondaryMap methods"])

p("C11", "Indices and offsets round-trip and respect their limits",
  "For every integer width, a node index, port index, optional index or port offset built from a value gives that value, and for offsets that direction, back through every accessor, conversion, comparison and serialised form, distinct values give distinct indices, and an absent optional index is distinct from every present one. Values above the documented maximum are refused instead of being turned into a different index.",
  ["inputs"], "all values of all supported integer widths at, around and between the limits, both directions, present and absent",
  "The encodings use spare values and bits whose limits differ per width; tests try a few small 32-bit values.",
  ["src/index.rs"],
  [("packed value with a flag bit", "src/index.rs BitField"), ("limits", "src/index.rs max_index/max_offset")],
  ["constructors and accessors of the index types"])

p("C12", "Views show exactly their part of the graph",
  "A filtered graph, a region of a hierarchy (all descendants or direct children only) and a subgraph view contain exactly the nodes they are specified to contain, and every query through them about these nodes and their ports answers as it would on a graph made of those nodes, their ports and the links that join them and pass the filter; links that leave the view are never reported. Answers do not depend on the order of queries, on earlier queries, or on how views are stacked, shared or cloned.",
  ["inputs", "histories"], "all graphs, filters, hierarchies, region roots and node subsets, all query orders",
  "Tests query a few hand-made views; most queries are forwarded with an additional filter that is easy to forget for one method, one direction or one end of a link.",
  ["src/view/filter.rs", "src/view/region.rs", "src/view/flat_region.rs", "src/view/subgraph.rs", "src/view/refs.rs"],
  [("node and link filters", "src/view/filter.rs"), ("descendant test with cache", "src/view/region.rs"), ("direct children test", "src/view/flat_region.rs"), ("boundary of a subgraph", "src/view/subgraph.rs")],
  ["PortView, LinkView and MultiView methods of each view"])

p("C13", "Topological order lists exactly the eligible nodes, predecessors first",
  "A topological sort from a set of sources yields each node at most once, and only after every one of its linked predecessors (successors, in the reverse direction) that pass the filters, treating the given sources as starting points. It yields exactly the sources that pass the filters and, repeatedly, every node that has incoming links passing the filters and all of them from yielded nodes, so that nodes on or behind a cycle, filtered nodes and nodes reachable only through them are left out. The size estimates given on the way are never wrong.",
  ["inputs"], "all graphs (cyclic, disconnected, with self-links and parallel links, one or several links per port), source sets, directions, filters and workspace map kinds",
  "Tests sort a few fixed graphs; correctness depends on per-port bookkeeping that differs for parallel links, filters and repeated visits.",
  ["src/algorithms/toposort.rs"],
  [("Kahn's algorithm over ports", "src/algorithms/toposort.rs")],
  ["the sequence yielded by the iterator"])

p("C14", "Post-order visits every reachable node once, in depth-first order",
  "A post-order traversal from a set of start nodes in either direction yields exactly the nodes reachable from them through nodes and ports that pass the filters, each exactly once. The sequence is that of a depth-first search that follows ports in order, so a node comes after everything reachable from it that is not on a cycle through it. The size estimates given on the way are never wrong.",
  ["inputs"], "all graphs, start sets (repeated or unreachable from one another), directions and filters",
  "Tests run on a few small graphs; the traversal keeps its own stack and visited set, and errors need particular cycles, diamonds and filters.",
  ["src/algorithms/post_order.rs"],
  [("explicit stack and visited bits", "src/algorithms/post_order.rs")],
  ["the sequence yielded by the iterator"])

p("C15", "The dominator tree is exact for every node reachable from the entry",
  "The dominator tree computed from an entry node, in either direction and under filters, has that entry as root, and the immediate dominator of every other node that can be reached from it through nodes and ports that pass the filters is the unique closest node on every such path. Nodes that cannot be reached have no immediate dominator and do not influence the result.",
  ["inputs"], "all graphs including irreducible and cyclic ones and ones with unreachable predecessors, entry nodes, directions and filters",
  "Tests use three fixed graphs; the iterative fixpoint is sensitive to traversal order, loops and predecessors outside the reachable part.",
  ["src/algorithms/dominators.rs"],
  [("iterative intersection over a post-order", "src/algorithms/dominators.rs")],
  ["DominatorTree root and immediate_dominator"])

p("C16", "Lowest common ancestors match the hierarchy",
  "For every pair of nodes of the graph or view it was built for, the precomputed structure answers the lowest node of the hierarchy that is an ancestor of, or equal to, both, or nothing if they lie in different trees; and the ancestor test answers whether one node is an ancestor of, or equal to, the other.",
  ["inputs"], "all graphs and forests of any depth and shape, all pairs of nodes",
  "Tests check a few pairs in small trees; the jump tables go wrong only at particular depths and shapes.",
  ["src/algorithms/lca.rs"],
  [("binary lifting with visit intervals", "src/algorithms/lca.rs")],
  ["LCA::lca and LCA::is_ancestor"])

p("C17", "Convexity checks agree with the definition",
  "On an acyclic graph, a set of nodes is reported convex exactly when no directed path leaves the set and returns to it, and a subgraph given by boundary ports is reported convex exactly when it is so by its stated definition; every checker, shared or rebuilt, and every interval-based variant gives the same answer, and extending a convex interval succeeds exactly when the result is still an interval. Checks never depend on the order in which the nodes are given.",
  ["inputs"], "all acyclic graphs, node sets (including empty, single and disconnected ones), boundary port sets and orders of presentation",
  "Tests compare a few fixed node sets; line decompositions and topological cut-offs fail only for particular shapes and positions.",
  ["src/algorithms/convex.rs", "src/algorithms/convex/topo_convex_checker.rs", "src/algorithms/convex/line_convex_checker.rs", "src/view/subgraph.rs"],
  [("search bounded by a topological order", "src/algorithms/convex/topo_convex_checker.rs"), ("line intervals", "src/algorithms/convex/line_convex_checker.rs")],
  ["is_node_convex, is_convex and the interval methods"])

p("C18", "The dynamic checker keeps a valid order through every edit",
  "After any sequence of node additions and removals and link additions and removals made through the dynamic convexity checker, which starts from an acyclic graph, the graph is exactly the edited graph, and the order maintained underneath stays valid: convexity answers equal the definition and those of a checker freshly built from the graph. Links that close no directed cycle are accepted in whatever order they are made, and one that would close a cycle is refused (the call panics) without changing the graph.",
  ["histories"], "all finite edit histories over all acyclic graphs, with links inserted in any order relative to the maintained one",
  "Incremental reordering only misbehaves for particular insertion orders; tests insert a few links.",
  ["src/algorithms/dynamic.rs"],
  [("incremental topological order", "src/algorithms/dynamic.rs")],
  ["DynamicTopoConvexChecker methods"])

p("C19", "Boundary orderings equal reachability between boundary ports",
  "The boundary of a set of nodes consists of exactly the linked ports joining it to the rest of the graph (or the given ports), with the index of a port being its position; where the enclosed part is acyclic, an input is ordered before an output exactly when the output can be reached from it inside the subgraph, through links that are not part of the boundary. One boundary's ordering is reported at least as strong as another's exactly when every pair ordered by the other is ordered by it, and the reported missing pairs are exactly those that are not.",
  ["inputs"], "all acyclic graphs, node subsets, explicit boundaries and pairs of boundaries of the same shape",
  "Tests use one or two boundaries; the ordering is a transitive closure over ports computed in bit sets.",
  ["src/boundary.rs", "src/view/subgraph.rs"],
  [("reachability over a topological order", "src/boundary.rs port_ordering")],
  ["Boundary and PortOrdering methods"])

p("C20", "Serialised structures come back equal and behave identically",
  "Serialising any graph, multi-link graph, hierarchy, weights, secondary map or index and reading it back, in any self-describing text or binary format, yields an equal value. The value read back answers every query identically and continues to behave identically under any further edits, including which indices are handed out next.",
  ["histories", "inputs"], "all reachable structures after any edit history, all formats, followed by any further history",
  "Tests round-trip a few generated graphs without removals and do not continue editing afterwards.",
  ["src/portgraph.rs", "src/multiportgraph.rs", "src/hierarchy.rs", "src/unmanaged.rs", "src/index.rs"],
  [("derived and custom serialisation", "serde attributes in src/portgraph.rs, src/index.rs")],
  ["serde_json and rmp-serde round trips"])

p("C21", "The petgraph interface describes the same graph",
  "Through the petgraph traits a port graph has the same nodes, the same directed edges and the same counts as through its own interface: neighbours, directed neighbours, edges and adjacency tests agree with one another and with the links, every node index is below the stated bound, and visit maps report first visits as the trait requires. Standard petgraph algorithms therefore give the answers that hold for the graph.",
  ["inputs", "histories"], "all graphs and views after any history (including gaps in the indices), all petgraph traits implemented",
  "Tests touch a few trait methods on a fresh dense graph.",
  ["src/view/petgraph.rs"],
  [("trait implementations", "src/view/petgraph.rs")],
  ["petgraph::visit traits, petgraph::algo functions"])

p("C22", "Renderings contain every node and link exactly once",
  "The DOT and Mermaid renderings of a graph contain each visible node, with its ports where they are shown, once, and each link between visible nodes once, joining the right nodes and ports in the right direction; nodes appear nested according to the given hierarchy, and user labels and styles are attached to the items they were given for. Links to hidden nodes do not appear; a hidden node appears at most as an item marked hidden or as an unlabelled box around the visible nodes it contains, and links of hidden ports join the node instead. The output is well-formed whatever the graph and hierarchy are, with labels taken as markup of the target format: verbatim as HTML-like label text in DOT, with quotes and line breaks escaped in Mermaid, where link labels are shown on the built-in line styles.",
  ["inputs"], "all graphs, hierarchies, label and style functions",
  "Snapshot tests fix the output of a handful of graphs.",
  ["src/render.rs", "src/render/dot.rs", "src/render/mermaid.rs"],
  [("DOT writer", "src/render/dot.rs"), ("Mermaid writer", "src/render/mermaid.rs")],
  ["the rendered strings"])

p("C23", "No operation causes undefined behaviour",
  "No sequence of calls to the safe interface, whatever its arguments, causes undefined behaviour: no out-of-bounds or dangling access, no aliasing mutable references, no invalid enum or niche value and no data race, whether the calls succeed, fail or panic.",
  ["histories", "inputs", "schedules"], "all call sequences over every public type that relies on unchecked constructions, including extreme indices and counts and calls that panic",
  "Ordinary tests do not observe undefined behaviour; it needs an interpreter or sanitizer watching the executions.",
  ["src/index.rs", "src/portgraph.rs", "src/unmanaged.rs"],
  [("unchecked non-zero values", "src/portgraph.rs NodeMeta/PortMeta"), ("disjoint mutable borrows through raw pointers", "src/unmanaged.rs get_disjoint_mut"), ("reinterpreted option", "src/index.rs as_mut")],
  ["Miri and AddressSanitizer runs of the operation histories"])

p("C24", "Shared read-only use from several threads gives the sequential answers",
  "Graphs, hierarchies, maps and views can be shared between threads (they are Send and Sync when what they are built from is), and when several threads query, clone or compare the same one at once, every query returns what it would return alone, whatever the interleaving, and no query blocks forever or races with another.",
  ["schedules"], "all interleavings of concurrent queries on a shared view, including the first queries that fill its caches",
  "The region view memoises answers behind interior mutability; the tests are single-threaded.",
  ["src/view/region.rs"],
  [("lock-protected memo of descendant tests", "src/view/region.rs")],
  ["concurrent queries on one Region, ThreadSanitizer"])

p("C25", "Every iterator keeps the iterator contract",
  "Every iterator handed out by a graph, view, hierarchy, map or traversal yields the same items whether advanced one at a time, skipped with nth, counted, cloned midway, or, where it can, driven from the back or both ends; its size estimate brackets the number of items left at every point, exact where exactness is promised, and once finished it stays finished.",
  ["inputs", "histories"], "all iterators of all graphs, views and maps in every reachable state, all mixtures of next, next_back, nth, skip, count and clone",
  "Tests mostly collect iterators front to back; hand-written size estimates, nth and next_back implementations are only wrong for particular gaps and mixtures.",
  ["src/portgraph/iter.rs", "src/multiportgraph/iter.rs", "src/hierarchy.rs", "src/unmanaged.rs", "src/view"],
  [("hand-written iterators", "src/portgraph/iter.rs, src/multiportgraph/iter.rs, src/hierarchy.rs")],
  ["Iterator, DoubleEndedIterator and ExactSizeIterator methods"])

p("C26", "Generated random graphs keep within their bounds and are reproducible",
  "Whatever bounds are asked for, as long as they allow for a node, the strategies for random graphs supplied for property testing yield graphs with at least one node, at most the given number of nodes, input ports and output ports per node and links, and no more than one link per port unless several are allowed; so do all their simplifications. The same seed always yields the same graph. The strategy that picks a node of a graph only picks nodes the graph has, and can pick each of them.",
  ["inputs"], "all bounds and seeds, for both kinds of graphs, with the generating functions and the Arbitrary implementations, through any number of simplification steps",
  "The two tests use one set of bounds and never simplify or repeat a seed.",
  ["src/proptest.rs"],
  [("random edge lists turned into graphs", "src/proptest.rs gen_edges, gen_unique_edges, graph_from_edges")],
  ["ValueTree::current after each simplification of a strategy's value trees (feature proptest)"])

p("C27", "Values handed to Python mean the same there",
  "With the Python bindings, a node or port index of any width becomes the Python integer equal to that index, a direction becomes a member of a Direction class that compares with directions and with 0 and 1 as in Rust and converts back to itself, a refused linking request becomes a RuntimeError with the same message, and a wrapped graph stays the same graph.",
  ["inputs"], "all indices of all widths, both directions, and all refusals",
  "There are no tests of the conversions.",
  ["src/index.rs", "src/lib.rs", "src/portgraph.rs"],
  [("derived conversions of the index representation", "src/index.rs BitField, NodeIndex, PortIndex"), ("exceptions", "src/portgraph.rs impl From<LinkError> for PyErr")],
  ["objects in an embedded interpreter (feature pyo3)"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
