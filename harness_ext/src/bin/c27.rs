//! C27: values handed to Python.

use ::portgraph::portgraph::PyPortGraph;
use ::portgraph::*;
use ::pyo3::exceptions::PyRuntimeError;
use ::pyo3::prelude::*;
use ::pyo3::types::PyInt;
use std::fmt::Debug;
use vpharness::run::*;
use vpharness::{ensure, ensure_eq};

fn index(c: &mut Case, max: usize) -> usize {
    match c.rng.below(5) {
        0 => max,
        1 => c.rng.below(3),
        2 => max - c.rng.below(max.min(3) + 1),
        3 => (1usize << c.rng.below(63)).min(max),
        _ => c.rng.u64() as usize % (max.max(1)),
    }
}

macro_rules! width {
    ($c:expr, $py:expr, $u:ty) => {{
        let (i, j) = (index($c, NodeIndex::<$u>::max_index()), index($c, PortIndex::<$u>::max_index()));
        $c.log(|| format!("{}: node {i}, port {j}", stringify!($u)));
        $c.feed(i as u64);
        $c.feed(j as u64);
        $c.nontrivial_if(i > 0 && j > 0);
        let obj = must("into_pyobject", || NodeIndex::<$u>::new(i).into_pyobject($py).map(|o| o.into_any())).unwrap_or_else(|e| vio("node", format!("{e:?}")));
        ensure!(obj.is_instance_of::<PyInt>(), "node-type", "a node index became a {obj:?}");
        ensure_eq!(obj.extract::<u64>().ok(), Some(i as u64), "node", "node index {i} in Python");
        let obj = must("into_pyobject", || PortIndex::<$u>::new(j).into_pyobject($py).map(|o| o.into_any())).unwrap_or_else(|e| vio("port", format!("{e:?}")));
        ensure!(obj.is_instance_of::<PyInt>(), "port-type", "a port index became a {obj:?}");
        ensure_eq!(obj.extract::<u64>().ok(), Some(j as u64), "port", "port index {j} in Python");
        // In containers.
        let obj = must("into_pyobject", || vec![Some(NodeIndex::<$u>::new(i)), None].into_pyobject($py).map(|o| o.into_any())).unwrap_or_else(|e| vio("list", format!("{e:?}")));
        ensure_eq!(obj.extract::<Vec<Option<u64>>>().ok(), Some(vec![Some(i as u64), None]), "list", "a list of node indices");
        $c.count("indices", 3);
    }};
}
fn indices(c: &mut Case) {
    Python::with_gil(|py| {
        width!(c, py, u8);
        width!(c, py, u16);
        width!(c, py, u32);
        width!(c, py, u64);
        width!(c, py, usize);
    })
}

fn ok<T, E: Debug>(r: Result<T, E>, sig: &str) -> T {
    r.unwrap_or_else(|e| vio(sig, format!("{e:?}")))
}
fn directions(c: &mut Case) {
    let (a, b) = (*c.rng.pick(&Direction::BOTH), *c.rng.pick(&Direction::BOTH));
    c.log(|| format!("{a:?} {b:?}"));
    c.feed(a as u64 * 2 + b as u64);
    c.nontrivial();
    Python::with_gil(|py| {
        let x = ok(a.into_pyobject(py), "direction").into_any();
        let y = ok(b.into_pyobject(py), "direction").into_any();
        ensure_eq!(ok(x.extract::<Direction>(), "extract"), a, "extract", "direction after a round trip");
        ensure_eq!(ok(x.eq(&y), "eq"), a == b, "eq", "{a:?} == {b:?} in Python");
        ensure_eq!(ok(x.ne(&y), "eq"), a != b, "ne", "{a:?} != {b:?} in Python");
        ensure_eq!(ok(x.eq(usize::from(b)), "eq-int"), a == b, "eq-int", "{a:?} == {} in Python", usize::from(b));
        ensure_eq!(ok(ok(x.call_method0("__int__"), "int").extract::<usize>(), "int"), usize::from(a), "int", "int({a:?})");
        let ty = x.get_type();
        ensure_eq!(ok(ty.name(), "name").to_string(), "Direction", "name", "name of the class");
        for d in Direction::BOTH {
            let z = ok(ty.getattr(format!("{d:?}")), "member");
            ensure_eq!(ok(z.extract::<Direction>(), "member"), d, "member", "Direction.{d:?}");
        }
        c.count("directions", 2);
    })
}

/// Every kind of refusal becomes an exception with the same message.
fn errors(c: &mut Case) {
    let mut g: PortGraph = PortGraph::new();
    for _ in 0..1 + c.rng.below(4) {
        g.add_node(c.rng.below(3), c.rng.below(3));
    }
    for _ in 0..20 {
        let k = g.port_count().max(1) + 2;
        let n = g.node_count() + 1;
        let r = if c.rng.bool() {
            let (a, b) = (PortIndex::new(c.rng.below(k)), PortIndex::new(c.rng.below(k)));
            must("link_ports", || g.link_ports(a, b)).map(|_| ())
        } else {
            let (a, b) = (NodeIndex::new(c.rng.below(n)), NodeIndex::new(c.rng.below(n)));
            let (x, y) = (c.rng.below(3), c.rng.below(3));
            must("link_nodes", || g.link_nodes(a, x, b, y)).map(|_| ())
        };
        let Err(e) = r else {
            c.count("links made", 1);
            continue;
        };
        let text = e.to_string();
        c.log(|| text.clone());
        c.feed(text.len() as u64);
        c.nontrivial();
        let e: PyErr = must("PyErr::from", || e.into());
        Python::with_gil(|py| {
            ensure!(e.is_instance_of::<PyRuntimeError>(py), "error-type", "{text}: became {e:?}");
            ensure_eq!(e.value(py).to_string(), text, "error-text", "text of the exception");
        });
        c.count("refusals", 1);
    }
}

/// A graph wrapped for Python and read back.
fn wrapped(c: &mut Case) {
    let mut g: PortGraph = PortGraph::new();
    let n = 1 + c.rng.below(6);
    let nodes: Vec<_> = (0..n).map(|_| g.add_node(c.rng.below(3), c.rng.below(3))).collect();
    for _ in 0..2 * n {
        let (a, b) = (*c.rng.pick(&nodes), *c.rng.pick(&nodes));
        let (x, y) = (c.rng.below(3), c.rng.below(3));
        let _ = must("link_nodes", || g.link_nodes(a, x, b, y));
    }
    c.log(|| format!("{g:?}"));
    c.nontrivial_if(g.link_count() > 1);
    c.feed(g.link_count() as u64 * 64 + g.port_count() as u64);
    Python::with_gil(|py| {
        let w = ok(must("Py::new", || Py::new(py, PyPortGraph(g.clone()))), "new");
        ensure_eq!(ok(w.bind(py).get_type().name(), "name").to_string(), "PortGraph", "name", "name of the class");
        ensure!(w.borrow(py).0 == g, "graph", "the graph changed");
        // Edits made behind the wrapper show.
        let k = w.borrow_mut(py).0.add_node(1, 1);
        ensure!(w.bind(py).borrow().0.contains_node(k), "graph-edit", "an added node is missing");
    });
    c.count("graphs", 1);
}

pub static CHECK: Check = Check {
    prop: "C27",
    rule: "random and extreme indices of every width, both directions, and refusals of random requests, converted in an embedded interpreter; non-trivial if an index is not zero",
    assumptions: &["CPython as installed, through pyo3"],
    suites: &[
        Suite { name: "indices", quick: 20000, thorough: 400000, max_size: 16, f: indices },
        Suite { name: "directions", quick: 4000, thorough: 40000, max_size: 16, f: directions },
        Suite { name: "errors", quick: 4000, thorough: 80000, max_size: 16, f: errors },
        Suite { name: "wrapped", quick: 4000, thorough: 80000, max_size: 16, f: wrapped },
    ],
};
#[allow(dead_code)]
fn main() {
    ::pyo3::prepare_freethreaded_python();
    main_(&CHECK)
}
