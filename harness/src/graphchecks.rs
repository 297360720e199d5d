//! Workloads of the properties about plain and multi-link graphs.

use crate::hist::*;
use crate::model::*;
use crate::run::*;
use ::portgraph::index::Unsigned;
use ::portgraph::*;

pub type Plain<PO> = PortGraph<u32, u32, PO>;
pub type Multi<PO> = MultiPortGraph<u32, u32, PO>;

pub const RESIZE: Mix = Mix { add: 8, remove: 3, resize: 40, link: 30, unlink: 3, compact: 2, swap: 1, insert: 0, sub: 6, fail: 1, misc: 1 };
pub const COMPACT: Mix = Mix { add: 12, remove: 10, resize: 12, link: 25, unlink: 3, compact: 12, swap: 3, insert: 1, sub: 6, fail: 1, misc: 1 };
pub const CHURN: Mix = Mix { add: 30, remove: 26, resize: 10, link: 12, unlink: 2, compact: 2, swap: 14, insert: 2, sub: 3, fail: 1, misc: 3 };
pub const LINKS: Mix = Mix { add: 6, remove: 4, resize: 5, link: 50, unlink: 18, compact: 2, swap: 2, insert: 1, sub: 14, fail: 2, misc: 1 };
pub const FAIL: Mix = Mix { add: 8, remove: 4, resize: 4, link: 20, unlink: 4, compact: 1, swap: 2, insert: 0, sub: 12, fail: 45, misc: 4 };
pub const INSERT: Mix = Mix { add: 4, remove: 6, resize: 5, link: 20, unlink: 4, compact: 2, swap: 2, insert: 20, sub: 6, fail: 0, misc: 1 };

fn go<G: Gut>(c: &mut Case, w: &Mix) {
    let mut h: Hist<G> = Hist::new(c);
    let n = 4 + c.size;
    h.run(c, w, n);
}

pub fn even<G: Gut>(c: &mut Case) {
    go::<G>(c, &EVEN)
}
pub fn resize<G: Gut>(c: &mut Case) {
    go::<G>(c, &RESIZE)
}
pub fn compact<G: Gut>(c: &mut Case) {
    go::<G>(c, &COMPACT)
}
pub fn churn<G: Gut>(c: &mut Case) {
    go::<G>(c, &CHURN)
}
pub fn links<G: Gut>(c: &mut Case) {
    go::<G>(c, &LINKS)
}
pub fn fail<G: Gut>(c: &mut Case) {
    go::<G>(c, &FAIL)
}
pub fn insert<G: Gut>(c: &mut Case) {
    go::<G>(c, &INSERT)
}

/// Few nodes, no port counts above one: dense reuse of the same few slots.
pub fn tiny<G: Gut>(c: &mut Case) {
    let mut h: Hist<G> = Hist::new(c);
    h.max_nodes = 3;
    h.typical_ports = 1;
    let w = [EVEN, RESIZE, COMPACT, CHURN, LINKS][c.rng.below(5)];
    let n = 4 + c.size / 2;
    h.run(c, &w, n);
}

/// A resize from every small shape to every small shape, on a node with spare capacity or not,
/// with a dense random link pattern that includes self-links.
pub fn resize_grid<G: Gut>(c: &mut Case) {
    let mut h: Hist<G> = Hist::new(c);
    h.max_nodes = 4;
    let r = |c: &mut Case| (c.rng.below(6), c.rng.below(6));
    let (a, b) = r(c);
    let n = h.add_node(c, a, b);
    let (x, y) = r(c);
    let other = h.add_node(c, x, y);
    if c.rng.bool() {
        let (a, b) = r(c);
        h.resize(c, n, a, b);
    }
    let rounds = 1 + c.rng.below(3);
    for _ in 0..rounds {
        // link densely
        let mut outs: Vec<PortIndex> = h.m.nodes[&n][1].clone();
        outs.extend(h.m.nodes[&other][1].iter());
        let mut ins: Vec<PortIndex> = h.m.nodes[&n][0].clone();
        ins.extend(h.m.nodes[&other][0].iter());
        c.rng.shuffle(&mut outs);
        c.rng.shuffle(&mut ins);
        let extra = if G::MULTI { c.rng.below(6) } else { 0 };
        for (p, q) in outs.iter().zip(&ins) {
            if G::MULTI || (!h.m.linked(*p) && !h.m.linked(*q)) {
                h.link_ports(c, *p, *q);
            }
        }
        for _ in 0..extra {
            if !outs.is_empty() && !ins.is_empty() {
                let (p, q) = (*c.rng.pick(&outs), *c.rng.pick(&ins));
                h.link_ports(c, p, q);
            }
        }
        let (i, o) = r(c);
        h.resize(c, n, i, o);
        h.full_check(c);
        c.feed((a * 6 + b) as u64 * 36 + (i * 6 + o) as u64);
    }
    if c.rng.chance(1, 3) {
        h.compact_ports(c);
        h.full_check(c);
    }
    h.drain_probe(c);
    let fp = h.m.fingerprint();
    c.feed(fp);
    c.nontrivial();
}

/// Port counts around the limits.
pub fn limits<PO: Unsigned + Default>(c: &mut Case) {
    let max = PortOffset::<PO>::max_offset().min(65535);
    let multi = c.rng.bool();
    let pickn = |c: &mut Case| -> usize {
        *c.rng.pick(&[0, 1, 5, max.min(65534) / 2, 16384, 32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 70000, max.saturating_sub(1), max, max + 1])
    };
    let ok = |i: usize, o: usize| i <= max.min(65534) && o <= max && i + o <= 65535;
    let unclear = |i: usize, o: usize| !ok(i, o) && i + o <= 65535 && i <= max && o <= max;
    macro_rules! body {
        ($g:expr) => {{
            let mut g = $g;
            let a = g.add_node(2, 2);
            let b = g.add_node(1, 3);
            g.link_nodes(a, 0, b, 0).unwrap();
            g.link_nodes(a, 1, a, 1).unwrap();
            let mut cur = (2usize, 2usize);
            let rounds = 1 + c.rng.below(4);
            for _ in 0..rounds {
                let (i, o) = (pickn(c), pickn(c));
                if unclear(i, o) {
                    continue;
                }
                c.feed((i * 70001 + o) as u64);
                if c.rng.chance(1, 3) {
                    c.log(|| format!("add_node({i}, {o})"));
                    let before = (g.node_count(), g.port_count());
                    let r = catch(|| g.add_node(i, o));
                    ensure_eq!(r.is_ok(), ok(i, o), "limit-add", "add_node({i}, {o}) accepted");
                    match r {
                        Ok(n) => {
                            ensure_eq!((g.num_inputs(n), g.num_outputs(n)), (i, o), "limit-add-count", "ports of the new node");
                            ensure_eq!(g.port_count(), before.1 + i + o, "limit-add-total", "port_count");
                            ensure_eq!(g.outputs(n).count(), o, "limit-add-outputs", "outputs of the new node");
                            if o > 0 {
                                let p = g.output(n, o - 1).unwrap();
                                ensure_eq!(g.port_offset(p).map(|x| x.index()), Some(o - 1), "limit-add-offset", "offset of the last output");
                                ensure_eq!(g.port_node(p), Some(n), "limit-add-node", "node of the last output");
                            }
                            g.remove_node(n);
                        }
                        Err(_) => {
                            ensure_eq!((g.node_count(), g.port_count()), before, "limit-add-state", "counts after a refused add_node");
                        }
                    }
                } else {
                    c.log(|| format!("set_num_ports({i}, {o})"));
                    let r = catch(|| g.set_num_ports(a, i, o, |_, _| {}));
                    ensure_eq!(r.is_ok(), ok(i, o), "limit-resize", "set_num_ports({i}, {o}) accepted");
                    if r.is_ok() {
                        cur = (i, o);
                    }
                    ensure_eq!((g.num_inputs(a), g.num_outputs(a)), cur, "limit-resize-count", "ports after set_num_ports({i}, {o})");
                    ensure_eq!(g.port_count(), cur.0 + cur.1 + 4, "limit-resize-total", "port_count");
                    if cur.1 > 0 {
                        let p = g.output(a, cur.1 - 1).unwrap();
                        ensure_eq!(g.port_offset(p).map(|x| (x.direction(), x.index())), Some((Direction::Outgoing, cur.1 - 1)), "limit-resize-offset", "offset of the last output");
                    }
                    if cur.0 > 0 {
                        let p = g.input(a, cur.0 - 1).unwrap();
                        ensure_eq!(g.port_offset(p).map(|x| (x.direction(), x.index())), Some((Direction::Incoming, cur.0 - 1)), "limit-resize-offset", "offset of the last input");
                    }
                    // the link a.0 -> b.0 is kept while output 0 is
                    if cur.1 == 0 {
                        let bi = g.input(b, 0).unwrap();
                        ensure!(g.port_link(bi).is_none(), "limit-resize-link", "a removed port is still linked");
                    }
                }
            }
            g.remove_node(a);
            ensure_eq!((g.node_count(), g.port_count()), (1, 4), "limit-after", "counts after removing the node");
            let nn = g.add_node(3, 1);
            ensure_eq!(g.all_ports(nn).count(), 4, "limit-after-add", "ports of a node added later");
            for p in g.all_ports(nn) {
                ensure!(g.port_link(p).is_none(), "limit-after-link", "new port is linked");
            }
        }};
    }
    if multi {
        body!(Multi::<PO>::default())
    } else {
        body!(Plain::<PO>::default())
    }
    c.count("limit_cases", 1);
    c.nontrivial();
}

/// Large graphs: many nodes and links, then heavy removal and reuse.
pub fn large<G: Gut>(c: &mut Case) {
    let mut h: Hist<G> = Hist::new(c);
    h.max_nodes = 60 + 4 * c.size;
    h.typical_ports = 3;
    let w = Mix { add: 30, remove: 8, resize: 8, link: 60, unlink: 5, compact: 1, swap: 3, insert: 1, sub: 8, fail: 2, misc: 1 };
    let n = 20 * c.size + 50;
    for _ in 0..n {
        h.step(c, &w);
        if c.rng.chance(1, 100) {
            h.full_check(c);
        }
    }
    h.full_check(c);
    h.drain_probe(c);
    let fp = h.m.fingerprint();
    c.feed(fp);
    if h.m.link_count() > 0 {
        c.nontrivial();
    }
}

/// A few nodes with as many ports as make offsets and capacities longer than a byte.
pub fn fat<G: Gut>(c: &mut Case) {
    let mut h: Hist<G> = Hist::new(c);
    h.max_nodes = 4;
    h.typical_ports = *c.rng.pick(&[64usize, 128, 256, 300, 520]);
    for _ in 0..2 + c.rng.below(2) {
        let (i, o) = h.rand_ports_count(c);
        h.add_node(c, i, o);
    }
    let nodes: Vec<NodeIndex> = h.m.nodes.keys().copied().collect();
    let (a, b) = (*c.rng.pick(&nodes), *c.rng.pick(&nodes));
    let (outs, mut ins) = (h.m.nodes[&a][1].clone(), h.m.nodes[&b][0].clone());
    if c.rng.bool() {
        ins.reverse();
    }
    for (p, q) in outs.into_iter().zip(ins) {
        if c.rng.chance(7, 8) {
            h.link_ports(c, p, q);
        }
    }
    h.full_check(c);
    let w = [EVEN, RESIZE, COMPACT, LINKS, FAIL][c.rng.below(5)];
    let n = 4 + c.size;
    for s in 0..n {
        h.step(c, &w);
        if s % 8 == 0 {
            h.full_check(c);
        }
    }
    h.full_check(c);
    c.feed(h.m.fingerprint());
    c.nontrivial_if(h.m.link_count() > 0);
}

/// Node and port indices that do not fit into 16 bits.
pub fn high<G: Gut>(c: &mut Case) {
    let mut h: Hist<G> = Hist::new(c);
    let dummies: Vec<NodeIndex> = (0..66000).map(|_| h.g.add_node(1, 1)).collect();
    c.log(|| "66000 times add_node(1, 1)".into());
    // counts longer than two bytes, before most of them go again
    let linked = c.rng.bool();
    if linked {
        c.log(|| "each linked to the next".into());
        for w in dummies.windows(2) {
            h.g.link_nodes(w[0], 0, w[1], 0).expect("free ports");
        }
    }
    let links = if linked { dummies.len() - 1 } else { 0 };
    ensure_eq!((h.g.node_count(), h.g.port_count(), h.g.link_count()), (dummies.len(), 2 * dummies.len(), links), "high:counts", "nodes, ports and links of a long chain");
    ensure_eq!((h.g.nodes_iter().count(), h.g.ports_iter().count()), (dummies.len(), 2 * dummies.len()), "high:iter-counts", "nodes and ports listed of a long chain");
    if linked {
        let k = c.rng.below(dummies.len() - 1);
        let (x, y) = (dummies[k], dummies[k + 1]);
        ensure!(h.g.output_neighbours(x).eq([y]) && h.g.input_neighbours(y).eq([x]), "high:neighbours", "neighbours of {x:?} and {y:?} in a long chain");
        if !G::MULTI && c.rng.bool() {
            // the whole chain again, and away
            let other = h.g.clone();
            let map = h.g.insert_graph(&other).expect("single links");
            ensure_eq!((map.len(), h.g.link_count()), (dummies.len(), 2 * links), "high:insert", "nodes inserted, and links afterwards");
            for (_, n) in map {
                h.g.remove_node(n);
                h.freed.insert(n);
            }
            ensure_eq!((h.g.node_count(), h.g.port_count(), h.g.link_count()), (dummies.len(), 2 * dummies.len(), links), "high:removed", "nodes, ports and links after removing the copy");
        }
    }
    for _ in 0..3 {
        let (i, o) = h.rand_ports_count(c);
        h.add_node(c, i, o);
    }
    let keep = c.rng.below(3);
    c.log(|| format!("remove the first {} of them", dummies.len() - keep));
    for (k, n) in dummies.iter().enumerate() {
        if k + keep < dummies.len() {
            h.g.remove_node(*n);
            h.freed.insert(*n);
        } else {
            h.m.add_node(*n, h.g.inputs(*n).collect(), h.g.outputs(*n).collect());
            if linked && h.m.nodes.len() > 0 && k + keep > dummies.len() {
                use crate::model::Ep;
                let (a, b) = h.g.get_connections(dummies[k - 1], *n).next().expect("linked");
                h.m.link(a.end(), b.end());
            }
        }
    }
    let mut h = {
        let (g, m, freed) = (h.g, h.m, h.freed);
        let mut x: Hist<G> = Hist::adopt(c, g, m);
        x.freed = freed;
        x
    };
    let w = Mix { compact: 1, swap: 2, ..[EVEN, RESIZE, LINKS, FAIL][c.rng.below(4)] };
    let n = 20 + c.size;
    for s in 0..n {
        h.step(c, &w);
        if s % 12 == 0 {
            h.full_check(c);
        }
    }
    h.full_check(c);
    h.drain_probe(c);
    c.feed(h.m.fingerprint());
    c.max("max_node_index", h.m.nodes.keys().last().map_or(0, |n| n.index() as u64));
    c.nontrivial_if(h.m.link_count() > 0);
}

/// Many links on one port.
/// Hundreds of links on one port.
pub fn crowd<PO: Unsigned + Default>(c: &mut Case) {
    let mut h: Hist<Multi<PO>> = Hist::new(c);
    let hub = h.add_node(c, 1, 1);
    let k = 1 + c.rng.below(4);
    let spokes: Vec<NodeIndex> = (0..k).map(|_| h.add_node(c, 2, 1)).collect();
    let want = *c.rng.pick(&[60usize, 130, 256, 260, 300, 520]) + c.rng.below(8);
    let dir = *c.rng.pick(&Direction::BOTH);
    let fill = |h: &mut Hist<Multi<PO>>, c: &mut Case, want: usize| {
        while h.m.link_count() < want {
            let Some(p) = h.m.nodes[&hub][dir as usize].first().copied() else { return };
            let t = if c.rng.chance(1, 30) { hub } else { *c.rng.pick(&spokes) };
            let ps = &h.m.nodes[&t][dir.reverse() as usize];
            if ps.is_empty() {
                return;
            }
            let q = *c.rng.pick(ps);
            let (a, b) = if c.rng.bool() { (p, q) } else { (q, p) };
            h.link_ports(c, a, b);
        }
    };
    fill(&mut h, c, want);
    h.full_check(c);
    for s in 0..6 + c.size {
        match c.rng.below(8) {
            0..=2 => {
                for _ in 0..1 + c.rng.below(5) {
                    let l: Vec<End> = h.m.links.keys().copied().collect();
                    if !l.is_empty() {
                        let e = *c.rng.pick(&l);
                        h.unlink_subport(c, e);
                    }
                }
            }
            3 => {
                // all but the last few
                let l: Vec<End> = h.m.links.keys().copied().collect();
                for e in l {
                    if h.m.link_count() > 3 && c.rng.chance(3, 4) && h.m.links.contains_key(&e) {
                        h.unlink_subport(c, e);
                    }
                }
                h.full_check(c);
                fill(&mut h, c, want);
            }
            4 => {
                let (i, o) = (1 + c.rng.below(2), 1 + c.rng.below(2));
                h.resize(c, hub, i, o);
            }
            5 => h.compact_ports(c),
            6 => fill(&mut h, c, want),
            _ => {
                let w = Mix { remove: 0, ..[EVEN, LINKS, COMPACT][c.rng.below(3)] };
                h.step(c, &w);
            }
        }
        if !h.m.nodes.contains_key(&hub) || spokes.iter().any(|n| !h.m.nodes.contains_key(n)) {
            break;
        }
        if s % 8 == 0 {
            h.full_check(c);
        }
    }
    h.full_check(c);
    c.feed(h.m.fingerprint());
    c.nontrivial_if(h.m.link_count() > 0);
}

pub fn hub<PO: Unsigned + Default>(c: &mut Case) {
    let mut h: Hist<Multi<PO>> = Hist::new(c);
    let hub = h.add_node(c, 1, 1);
    let k = 2 + c.rng.below(6);
    let spokes: Vec<NodeIndex> = (0..k)
        .map(|_| {
            let i = 1 + c.rng.below(2);
            h.add_node(c, i, 1)
        })
        .collect();
    let n = 5 + c.size;
    for s in 0..n {
        match c.rng.below(12) {
            0..=5 => {
                let hp = h.m.nodes[&hub].clone();
                let t = *c.rng.pick(&spokes);
                let (a, b) = if c.rng.bool() { (hp[1].first().copied(), h.m.nodes[&t][0].first().copied()) } else { (h.m.nodes[&t][1].first().copied(), hp[0].first().copied()) };
                if let (Some(a), Some(b)) = (a, b) {
                    if h.m.links.len() < 200 {
                        h.link_ports(c, a, b);
                    }
                }
            }
            6..=8 => {
                let l: Vec<End> = h.m.links.keys().copied().collect();
                if !l.is_empty() {
                    let e = *c.rng.pick(&l);
                    h.unlink_subport(c, e);
                }
            }
            9 => {
                let hp = h.m.nodes[&hub].clone();
                if let (Some(a), Some(b)) = (hp[1].first(), hp[0].first()) {
                    h.link_ports(c, *a, *b);
                }
            }
            10 => {
                let (i, o) = (c.rng.below(3), c.rng.below(3));
                h.resize(c, hub, i, o);
            }
            _ => {
                if c.rng.bool() {
                    h.compact_ports(c)
                } else if c.rng.chance(1, 3) {
                    let Some(p) = h.rand_port(c, None) else { continue };
                    h.unlink_port(c, p);
                }
            }
        }
        if s % 4 == 0 {
            h.full_check(c);
        }
    }
    h.full_check(c);
    let fp = h.m.fingerprint();
    c.feed(fp);
    c.nontrivial();
}

/// A plain graph turned into a multigraph and a multigraph flattened into a plain graph describe
/// the same nodes, ports and links, and stay usable.
pub fn converted(c: &mut Case) {
    let w = [EVEN, RESIZE, COMPACT, CHURN, LINKS][c.rng.below(5)];
    let k = 2 + c.size / 2;
    if c.rng.bool() {
        let mut h: Hist<PortGraph> = Hist::new(c);
        for _ in 0..k {
            h.step(c, &w);
        }
        c.log(|| "MultiPortGraph::from(graph)".into());
        let g = must("from-portgraph", || MultiPortGraph::from(h.g.clone()));
        ensure_eq!(g.as_portgraph() == &h.g, true, "from-as_portgraph", "as_portgraph of the converted graph is the graph");
        let mut h2: Hist<MultiPortGraph> = Hist::adopt(c, g, h.m.clone());
        h2.freed = h.freed.clone();
        h2.full_check(c);
        h2.run(c, &w, k);
    } else {
        let mut h: Hist<MultiPortGraph> = Hist::new(c);
        for _ in 0..k {
            h.step(c, &w);
        }
        c.log(|| "PortGraph::from(multigraph)".into());
        let g = must("from-multiportgraph", || PortGraph::from(h.g.clone()));
        ensure_eq!(&g == h.g.as_portgraph(), true, "from-flat", "the flattened graph is as_portgraph()");
        for (n, [i, o]) in &h.m.nodes {
            ensure_eq!((&g.inputs(*n).collect::<Vec<_>>(), &g.outputs(*n).collect::<Vec<_>>()), (i, o), "from-flat-ports", "ports of {n:?} in the flattened graph");
        }
        let m = read_model(&g);
        let mut h2: Hist<PortGraph> = Hist::adopt(c, g, m);
        h2.full_check(c);
        h2.run(c, &w, k);
    }
}
