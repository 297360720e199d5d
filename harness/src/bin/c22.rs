//! C22: renderings contain every node and link exactly once.

use ::portgraph::render::{DotFormat, EdgeStyle, MermaidFormat, NodeStyle, PortStyle, PresentationStyle};
use ::portgraph::view::{FlatRegion, LinkView, Region, Subgraph};
use ::portgraph::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use vpharness::forest::Forest;
use vpharness::gen::*;
use vpharness::graphchecks::{Multi, Plain};
use vpharness::hist::Gut;
use vpharness::model::*;
use vpharness::run::*;
use vpharness::{ensure, ensure_eq};

/// What the user asks for.
#[derive(Default, Clone)]
struct Want {
    node: Option<BTreeMap<NodeIndex, NodeStyle>>,
    port: Option<BTreeMap<PortIndex, PortStyle>>,
    edge: Option<BTreeMap<(End, End), EdgeStyle>>,
}

impl Want {
    fn node(&self, n: NodeIndex, default: &str) -> (Option<String>, PresentationStyle) {
        match &self.node {
            None => (Some(default.to_string()), PresentationStyle::new()),
            #[allow(deprecated)]
            Some(m) => match m[&n].clone() {
                NodeStyle::Hidden => (None, PresentationStyle::new()),
                NodeStyle::Box(l) => (Some(l), PresentationStyle::new()),
                s => {
                    let a = s.attrs().clone();
                    let NodeStyle::Boxed { label, .. } = s else { unreachable!() };
                    (Some(label), a)
                }
            },
        }
    }
    fn hidden(&self, n: NodeIndex) -> bool {
        self.node(n, "").0.is_none()
    }
    fn port(&self, p: PortIndex) -> PortStyle {
        self.port.as_ref().map_or(PortStyle::default(), |m| m[&p].clone())
    }
    fn edge(&self, a: End, b: End) -> EdgeStyle {
        self.edge.as_ref().map_or(EdgeStyle::Solid, |m| m[&(a, b)].clone())
    }
}

const LABELS: [&str; 14] =
    ["", "x", "a b", "root", "0", "12", "é→∀", "&lt;b&gt;", "<b>bold</b>", "<i>a</i> <br/> b", "[x]", "end", "subgraph 7", "a -&gt; b; c"];
const MMD_LABELS: [&str; 6] = ["say \"hi\"", "two\nlines", "\"", "\n", "a\"]\nb", "-->"];
const COLORS: [&str; 4] = ["#f00", "#AE00FF", "red", "#0000ff"];

fn label(c: &mut Case, mermaid: bool) -> String {
    let k = c.rng.below(LABELS.len() + if mermaid { MMD_LABELS.len() } else { 0 });
    LABELS.iter().chain(&MMD_LABELS).nth(k).unwrap().to_string()
}
fn attrs(c: &mut Case) -> PresentationStyle {
    let mut o = |v: &[&str]| c.rng.bool().then(|| c.rng.pick(v).to_string());
    let mut s = PresentationStyle::new();
    s.color = o(&COLORS);
    s.fill = o(&COLORS);
    s.stroke = o(&COLORS);
    s.stroke_width = o(&["1px", "2pt", "0.5em"]);
    s
}
fn edge_style(c: &mut Case, mermaid: bool, depth: usize) -> EdgeStyle {
    match c.rng.below(if depth < 2 { 8 } else { 4 }) {
        0 => EdgeStyle::Solid,
        1 => EdgeStyle::Dotted,
        2 => EdgeStyle::Dashed,
        3 => EdgeStyle::Custom(if mermaid { ["==>", "o--o", "x--x", "--o"] } else { ["bold", "invis", "dashed,bold", "tapered"] }[c.rng.below(4)].into()),
        4 => EdgeStyle::Labelled(label(c, mermaid), Box::new(edge_style(c, mermaid, depth + 1))),
        _ => {
            let l = label(c, mermaid);
            edge_style(c, mermaid, depth + 1).with_label(l)
        }
    }
}
fn want(c: &mut Case, m: &Model, mermaid: bool) -> Want {
    let mut w = Want::default();
    let hide = c.rng.below(4);
    if c.rng.chance(3, 4) {
        w.node = Some(
            m.nodes
                .keys()
                .map(|n| {
                    let l = label(c, mermaid);
                    #[allow(deprecated)]
                    let s = match c.rng.below(10) {
                        x if x < hide => NodeStyle::Hidden,
                        4 => NodeStyle::Box(l),
                        5 => NodeStyle::default(),
                        6 => NodeStyle::new(l),
                        7 | 8 => NodeStyle::boxed(l).with_attrs(attrs(c)),
                        _ => NodeStyle::boxed(l),
                    };
                    (*n, s)
                })
                .collect(),
        );
    }
    let hide = c.rng.below(4);
    if c.rng.bool() {
        w.port = Some(
            m.ports
                .keys()
                .map(|p| {
                    let l = label(c, mermaid);
                    let b = c.rng.bool();
                    let s = match c.rng.below(8) {
                        x if x < hide => PortStyle::Hidden,
                        4 => PortStyle::default(),
                        5 => PortStyle::new(l),
                        6 => PortStyle::text(l, b),
                        _ => PortStyle::boxed(l, b),
                    };
                    (*p, s)
                })
                .collect(),
        );
    }
    if c.rng.bool() {
        w.edge = Some(out_links(m).into_iter().map(|(a, b)| ((a, b), edge_style(c, mermaid, 0))).collect());
    }
    w
}
fn out_links(m: &Model) -> Vec<(End, End)> {
    m.links.iter().filter(|(a, _)| m.dir(a.0) == Direction::Outgoing).map(|(a, b)| (*a, *b)).collect()
}

// ---------------------------------------------------------------- DOT

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Id(String),
    Str(String),
    Html(String),
    Sym(&'static str),
}

fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let v: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < v.len() {
        let ch = v[i];
        if ch.is_whitespace() {
            i += 1;
        } else if ch == '-' && v.get(i + 1) == Some(&'>') {
            out.push(Tok::Sym("->"));
            i += 2;
        } else if let Some(k) = "{}[]=;,:".find(ch) {
            out.push(Tok::Sym(["{", "}", "[", "]", "=", ";", ",", ":"][k]));
            i += 1;
        } else if ch == '"' {
            let mut x = String::new();
            i += 1;
            loop {
                match v.get(i) {
                    None => return Err("string without end".into()),
                    Some('"') => break,
                    Some('\\') => {
                        x.push('\\');
                        i += 1;
                        x.push(*v.get(i).ok_or("string without end")?);
                    }
                    Some(y) => x.push(*y),
                }
                i += 1;
            }
            i += 1;
            out.push(Tok::Str(x));
        } else if ch == '<' {
            let mut depth = 0;
            let mut x = String::new();
            loop {
                match v.get(i) {
                    None => return Err("HTML string without end".into()),
                    Some('<') => depth += 1,
                    Some('>') => depth -= 1,
                    _ => {}
                }
                x.push(v[i]);
                i += 1;
                if depth == 0 {
                    break;
                }
            }
            out.push(Tok::Html(x[1..x.len() - 1].to_string()));
        } else if ch.is_alphanumeric() || ch == '_' || ch == '.' {
            let mut x = String::new();
            while i < v.len() && (v[i].is_alphanumeric() || v[i] == '_' || v[i] == '.') {
                x.push(v[i]);
                i += 1;
            }
            out.push(Tok::Id(x));
        } else {
            return Err(format!("unexpected {ch:?}"));
        }
    }
    Ok(out)
}

type Attrs = BTreeMap<String, Tok>;
type Place = (String, Option<String>);
#[derive(Debug, Default)]
struct Dot {
    nodes: Vec<(String, Attrs)>,
    edges: Vec<(Place, Place, Attrs)>,
}

fn parse_dot(s: &str) -> Result<Dot, String> {
    let t = lex(s)?;
    let mut i = 0;
    let eat = |i: &mut usize, x: &'static str| -> Result<(), String> {
        if t.get(*i) == Some(&Tok::Sym(x)) {
            *i += 1;
            Ok(())
        } else {
            Err(format!("expected {x:?}, found {:?}", t.get(*i)))
        }
    };
    let id = |i: &mut usize| -> Result<String, String> {
        match t.get(*i) {
            Some(Tok::Id(x) | Tok::Str(x)) => {
                *i += 1;
                Ok(x.clone())
            }
            x => Err(format!("expected an identifier, found {x:?}")),
        }
    };
    let place = |i: &mut usize| -> Result<Place, String> {
        let n = id(i)?;
        Ok((n, if eat(i, ":").is_ok() { Some(id(i)?) } else { None }))
    };
    if id(&mut i)? != "digraph" {
        return Err("not a digraph".into());
    }
    let _ = id(&mut i);
    eat(&mut i, "{")?;
    let mut d = Dot::default();
    while t.get(i) != Some(&Tok::Sym("}")) {
        let a = place(&mut i)?;
        let b = if eat(&mut i, "->").is_ok() { Some(place(&mut i)?) } else { None };
        let mut attrs = Attrs::new();
        if eat(&mut i, "[").is_ok() {
            while t.get(i) != Some(&Tok::Sym("]")) {
                let k = id(&mut i)?;
                eat(&mut i, "=")?;
                let v = t.get(i).ok_or("attribute without value")?.clone();
                if matches!(v, Tok::Sym(_)) {
                    return Err(format!("attribute {k} without value"));
                }
                i += 1;
                if attrs.insert(k.clone(), v).is_some() {
                    return Err(format!("attribute {k} twice"));
                }
                let _ = eat(&mut i, ",").or_else(|_| eat(&mut i, ";"));
            }
            i += 1;
        }
        let _ = eat(&mut i, ";");
        match b {
            Some(b) => d.edges.push((a, b, attrs)),
            None => {
                if a.1.is_some() {
                    return Err("node statement with a port".into());
                }
                d.nodes.push((a.0, attrs));
            }
        }
    }
    i += 1;
    if i != t.len() {
        return Err("text behind the graph".into());
    }
    Ok(d)
}

/// Rows of cells of a node's table: attributes and content.
fn parse_table(s: &str) -> Result<Vec<Vec<(BTreeMap<String, String>, String)>>, String> {
    fn tag<'a>(s: &mut &'a str, name: &str) -> Result<BTreeMap<String, String>, String> {
        *s = s.trim_start();
        let r = s.strip_prefix('<').and_then(|x| x.strip_prefix(name)).ok_or_else(|| format!("expected <{name}> at {s:?}"))?;
        let (inner, rest) = r.split_once('>').ok_or("tag without end")?;
        *s = rest;
        let mut m = BTreeMap::new();
        let mut x = inner.trim();
        while !x.is_empty() {
            let (k, r) = x.split_once("=\"").ok_or_else(|| format!("bad attributes {inner:?}"))?;
            let (v, r) = r.split_once('"').ok_or_else(|| format!("bad attributes {inner:?}"))?;
            if m.insert(k.trim().to_string(), v.to_string()).is_some() {
                return Err(format!("attribute {k} twice"));
            }
            x = r.trim();
        }
        Ok(m)
    }
    let mut s = s;
    let mut rows = vec![];
    tag(&mut s, "table")?;
    while !s.trim_start().starts_with("</table>") {
        tag(&mut s, "tr")?;
        let mut row = vec![];
        while !s.trim_start().starts_with("</tr>") {
            let a = tag(&mut s, "td")?;
            let (content, rest) = s.split_once("</td>").ok_or("cell without end")?;
            row.push((a, content.to_string()));
            s = rest;
        }
        s = &s.trim_start()["</tr>".len()..];
        rows.push(row);
    }
    if s.trim() != "</table>" {
        return Err("text behind the table".into());
    }
    Ok(rows)
}

fn str_of(t: Option<&Tok>) -> Option<String> {
    match t {
        Some(Tok::Str(x) | Tok::Id(x)) => Some(x.clone()),
        _ => None,
    }
}

fn check_dot(c: &mut Case, text: &str, m: &Model, f: Option<&Forest>, w: &Want, t: &str) {
    let s = |x: &str| format!("{t}:dot:{x}");
    let bad = |x: &str, e: String| -> ! { vio(s(x), format!("{e} in\n{text}")) };
    let d = match parse_dot(text) {
        Ok(d) => d,
        Err(e) => bad("malformed", format!("malformed DOT: {e}")),
    };
    let vis: Vec<NodeIndex> = m.nodes.keys().copied().filter(|n| !w.hidden(*n)).collect();
    // nodes
    let mut exp: Vec<String> = vis.iter().map(|n| n.index().to_string()).collect();
    if f.is_some() {
        exp.extend(vis.iter().map(|n| format!("hier{}", n.index())));
    }
    exp.sort();
    let mut got: Vec<String> = d.nodes.iter().map(|x| x.0.clone()).collect();
    got.sort();
    if got != exp {
        bad("nodes", format!("nodes {got:?}, expected {exp:?}"));
    }
    for (id, a) in &d.nodes {
        if let Some(i) = id.strip_prefix("hier") {
            if str_of(a.get("label")).as_deref() != Some(i) {
                bad("hierarchy-label", format!("label of {id}"));
            }
            continue;
        }
        let n = ni(id.parse().unwrap());
        let (label, at) = w.node(n, id);
        for (k, v) in [("fontcolor", &at.color), ("fillcolor", &at.fill), ("color", &at.stroke), ("penwidth", &at.stroke_width)] {
            if str_of(a.get(k)) != *v {
                bad("node-style", format!("attribute {k} of node {id} is {:?}, expected {v:?}", a.get(k)));
            }
        }
        let Some(Tok::Html(h)) = a.get("label") else { bad("node-label", format!("node {id} has no table")) };
        let rows = match parse_table(h) {
            Ok(r) => r,
            Err(e) => bad("malformed", format!("malformed table of node {id}: {e}")),
        };
        let mut exp: Vec<Vec<(Option<String>, bool, String)>> = vec![];
        for k in 0..2 {
            let row: Vec<_> = m.nodes[&n][k]
                .iter()
                .enumerate()
                .filter_map(|(o, p)| {
                    let (l, show, boxed) = match w.port(*p) {
                        PortStyle::Hidden => return None,
                        PortStyle::Plain(l, b) => (l, b, false),
                        PortStyle::Boxed(l, b) => (l, b, true),
                        _ => unreachable!(),
                    };
                    let l = match (show, l.as_str()) {
                        (false, l) => l.to_string(),
                        (true, "") => o.to_string(),
                        (true, l) => format!("{o}: {l}"),
                    };
                    Some((Some(format!("{}{o}", ["in", "out"][k])), boxed, l))
                })
                .collect();
            if !row.is_empty() {
                exp.push(row);
            }
            if k == 0 {
                exp.push(vec![(None, false, label.clone().unwrap())]);
            }
        }
        let got: Vec<Vec<_>> = rows
            .iter()
            .map(|r| r.iter().map(|(a, x)| (a.get("port").cloned(), a.get("border").map(|b| b.as_str()) != Some("0"), x.clone())).collect())
            .collect();
        if got != exp {
            bad("node-table", format!("cells of node {id}: {got:?}, expected {exp:?}"));
        }
        let widths: BTreeSet<usize> = rows.iter().map(|r| r.iter().map(|(a, _)| a.get("colspan").map_or(1, |x| x.parse().unwrap_or(0))).sum()).collect();
        if widths.len() != 1 {
            bad("node-width", format!("rows of node {id} have widths {widths:?}"));
        }
        c.count("dot_nodes", 1);
    }
    // edges
    let mut exp: Vec<(String, String, String)> = vec![];
    let place = |p: PortIndex| {
        let (n, dir, o) = m.ports[&p];
        match w.port(p) {
            // links of hidden ports go to the node
            PortStyle::Hidden => n.index().to_string(),
            _ => format!("{}:{}{o}", n.index(), ["in", "out"][vpharness::model::d(dir)]),
        }
    };
    for (a, b) in out_links(m) {
        if w.hidden(m.node(a.0)) || w.hidden(m.node(b.0)) {
            continue;
        }
        let style = match w.edge(a, b).strip_label() {
            EdgeStyle::Solid => String::new(),
            EdgeStyle::Dotted => "dotted".into(),
            EdgeStyle::Dashed => "dashed".into(),
            EdgeStyle::Custom(x) => x.clone(),
            _ => unreachable!(),
        };
        exp.push((place(a.0), place(b.0), style));
    }
    if let Some(f) = f {
        for n in &vis {
            for k in f.kids(n.index()) {
                if vis.contains(&ni(*k)) {
                    exp.push((format!("hier{}", n.index()), format!("hier{k}"), "dashed".into()));
                }
            }
        }
    }
    let place = |x: &Place| -> String {
        let Some(port) = &x.1 else { return x.0.clone() };
        let full = format!("{}:{port}", x.0);
        // naming a hidden port is the same as naming the node
        let k = if port.starts_with("in") { 0 } else { 1 };
        let o: Option<usize> = port.trim_start_matches(['i', 'n', 'o', 'u', 't']).parse().ok();
        let p = x.0.parse::<usize>().ok().and_then(|n| m.nodes.get(&ni(n))).and_then(|v| v[k].get(o?));
        match p {
            Some(p) if matches!(w.port(*p), PortStyle::Hidden) => x.0.clone(),
            _ => full,
        }
    };
    let mut got: Vec<_> = d.edges.iter().map(|(a, b, x)| (place(a), place(b), str_of(x.get("style")).unwrap_or_default())).collect();
    got.sort();
    exp.sort();
    if got != exp {
        bad("edges", format!("edges {got:?}, expected {exp:?}"));
    }
    c.count("dot_edges", got.len() as u64);
    c.count("dot_texts", 1);
}

// ---------------------------------------------------------------- Mermaid

#[derive(Debug, Default)]
struct Mmd {
    /// id, enclosing subgraph, label (None: hidden), is a subgraph
    nodes: Vec<(usize, Option<usize>, Option<String>, bool)>,
    styles: Vec<(usize, String)>,
    /// source, arrow, target, enclosing subgraph
    edges: Vec<(usize, String, usize, Option<usize>)>,
}

fn digits(s: &str) -> (&str, &str) {
    let k = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    s.split_at(k)
}
fn bracketed(s: &str) -> Result<String, String> {
    let x = s.strip_prefix('[').and_then(|x| x.strip_suffix(']')).ok_or_else(|| format!("expected a label in brackets, found {s:?}"))?;
    if let Some(q) = x.strip_prefix('"') {
        let q = q.strip_suffix('"').ok_or_else(|| format!("label without closing quote: {s:?}"))?;
        if q.contains('"') {
            return Err(format!("quote within a label: {s:?}"));
        }
        return Ok(q.to_string());
    }
    if x.contains(|c: char| !c.is_alphanumeric() && c != ' ') || x == "end" {
        return Err(format!("label that needs quotes: {s:?}"));
    }
    Ok(x.to_string())
}

fn parse_mmd(s: &str) -> Result<Mmd, String> {
    let mut lines = s.lines().map(|l| l.trim()).filter(|l| !l.is_empty());
    let head = lines.next().unwrap_or("");
    if !head.starts_with("graph ") && !head.starts_with("flowchart ") {
        return Err(format!("no diagram header but {head:?}"));
    }
    let mut d = Mmd::default();
    let mut open: Vec<usize> = vec![];
    for l in lines {
        if l == "end" {
            open.pop().ok_or("end without subgraph")?;
        } else if let Some(x) = l.strip_prefix("subgraph ") {
            let (id, rest) = digits(x.trim());
            let id: usize = id.parse().map_err(|_| format!("subgraph without id: {l:?}"))?;
            let label = bracketed(rest.trim())?;
            let label = if label.trim().is_empty() && rest.trim() == "[ ]" { None } else { Some(label) };
            d.nodes.push((id, open.last().copied(), label, true));
            open.push(id);
        } else if l.starts_with("direction ") {
        } else if let Some(x) = l.strip_prefix("style ") {
            let (id, rest) = digits(x.trim());
            d.styles.push((id.parse().map_err(|_| format!("style without id: {l:?}"))?, rest.trim().to_string()));
        } else {
            let (id, rest) = digits(l);
            let id: usize = id.parse().map_err(|_| format!("unexpected line {l:?}"))?;
            if rest == ":::hidden" {
                d.nodes.push((id, open.last().copied(), None, false));
            } else if rest.starts_with('[') {
                d.nodes.push((id, open.last().copied(), Some(bracketed(rest)?), false));
            } else {
                let k = rest.rfind(|c: char| !c.is_ascii_digit()).ok_or_else(|| format!("unexpected line {l:?}"))?;
                let w = rest[k..].chars().next().unwrap().len_utf8();
                let (arrow, to) = rest.split_at(k + w);
                let to = to.parse().map_err(|_| format!("link without target: {l:?}"))?;
                d.edges.push((id, arrow.trim().to_string(), to, open.last().copied()));
            }
        }
    }
    if !open.is_empty() {
        return Err(format!("subgraphs {open:?} are not closed"));
    }
    Ok(d)
}
/// The text a quoted label stands for.
fn plain(l: &str) -> String {
    l.replace("#quot;", "\"").replace("<br>", "\n")
}

fn check_mmd(c: &mut Case, text: &str, m: &Model, f: Option<&Forest>, w: &Want, t: &str) {
    let s = |x: &str| format!("{t}:mermaid:{x}");
    let bad = |x: &str, e: String| -> ! { vio(s(x), format!("{e} in\n{text}")) };
    let d = match parse_mmd(text) {
        Ok(d) => d,
        Err(e) => bad("malformed", format!("malformed: {e}")),
    };
    let parent = |n: usize| f.and_then(|f| f.parent(n)).filter(|p| m.nodes.contains_key(&ni(*p)));
    let mut got: Vec<_> = d.nodes.iter().map(|x| (x.0, x.1, x.2.as_deref().map(plain), x.3)).collect();
    got.sort();
    let exp: Vec<_> = m
        .nodes
        .keys()
        .map(|n| {
            let i = n.index();
            let box_ = f.is_some_and(|f| f.kids(i).iter().any(|k| m.nodes.contains_key(&ni(*k))));
            let l = w.node(*n, "").0.map(|l| if l.is_empty() { i.to_string() } else { plain(&l) });
            (i, parent(i), l, box_)
        })
        .collect();
    // A hidden node may be left out altogether.
    let gone: BTreeSet<usize> = exp.iter().filter(|x| x.2.is_none() && !x.3).map(|x| x.0).collect();
    let present: BTreeSet<usize> = got.iter().map(|x| x.0).collect();
    let exp: Vec<_> = exp.into_iter().filter(|x| !gone.contains(&x.0) || present.contains(&x.0)).collect();
    if got != exp {
        bad("nodes", format!("nodes (id, enclosing box, label, is a box) {got:?}, expected {exp:?}"));
    }
    let mut styles = d.styles.clone();
    styles.sort();
    let mut exp: Vec<(usize, String)> = vec![];
    for n in m.nodes.keys() {
        let a = w.node(*n, "").1;
        if !a.is_empty() {
            let mut v = vec![];
            for (k, x) in [("color", a.color), ("fill", a.fill), ("stroke", a.stroke), ("stroke-width", a.stroke_width)] {
                if let Some(x) = x {
                    v.push(format!("{k}:{x}"));
                }
            }
            exp.push((n.index(), v.join(",")));
        }
    }
    if styles != exp {
        bad("styles", format!("styles {styles:?}, expected {exp:?}"));
    }
    // links
    let shape = |a: &str| -> (String, String) {
        for (pre, post, kind) in [("--\"", "\"-->", "solid"), ("-.\"", "\".->", "dotted")] {
            if let Some(l) = a.strip_prefix(pre).and_then(|x| x.strip_suffix(post)) {
                return (kind.into(), plain(l));
            }
        }
        match a {
            "-->" | "---->" => ("solid".into(), "".into()),
            "-.->" | "-..->" => ("dotted".into(), "".into()),
            _ => (a.to_string(), "".into()),
        }
    };
    let mut got: Vec<_> = d.edges.iter().map(|(a, x, b, _)| (*a, *b, shape(x))).collect();
    got.sort();
    let mut exp = vec![];
    for (a, b) in out_links(m) {
        let (x, y) = (m.node(a.0), m.node(b.0));
        if w.hidden(x) || w.hidden(y) {
            continue;
        }
        let e = w.edge(a, b);
        let l = match &e {
            EdgeStyle::Labelled(l, _) => plain(l),
            _ => String::new(),
        };
        let sh = match e.strip_label() {
            EdgeStyle::Solid => ("solid".to_string(), l),
            EdgeStyle::Dotted | EdgeStyle::Dashed => ("dotted".to_string(), l),
            // labels of custom arrows are not shown
            EdgeStyle::Custom(x) => (x.clone(), String::new()),
            _ => unreachable!(),
        };
        exp.push((x.index(), y.index(), sh));
    }
    exp.sort();
    if got != exp {
        bad("links", format!("links {got:?}, expected {exp:?}"));
    }
    // A box takes in whatever is mentioned within it.
    for (a, _, b, at) in &d.edges {
        if let Some(r) = at {
            for e in [a, b] {
                // (the nodes between them need not be part of the view)
                let inside = f.is_some_and(|f| e != r && f.is_anc_or_eq(*r, *e));
                if !inside {
                    bad("link-place", format!("the link from {a} to {b} stands within the box of {r}, which does not contain {e}"));
                }
            }
        }
    }
    c.count("mermaid_links", got.len() as u64);
    c.count("mermaid_nodes", m.nodes.len() as u64);
    c.count("mermaid_texts", 1);
}

fn render<V: LinkView>(c: &mut Case, v: &V, m: &Model, f: &Forest, t: &str)
where
    V::LinkEndpoint: Ep,
{
    let h = f.build();
    let key = |a: V::LinkEndpoint, b: V::LinkEndpoint| (a.end(), b.end());
    // DOT
    let w = want(c, m, false);
    let hier = c.rng.bool();
    let text = must("dot", || {
        let mut d = v.dot_format();
        if hier {
            d = d.with_hierarchy(&h);
        }
        if let Some(x) = &w.node {
            d = d.with_node_style(|n| x[&n].clone());
        }
        if let Some(x) = &w.port {
            d = d.with_port_style(|n| x[&n].clone());
        }
        if let Some(x) = &w.edge {
            d = d.with_edge_style(|a, b| x.get(&key(a, b)).cloned().unwrap_or_else(|| vio("dot:edge-style-arguments", format!("edge style asked for {:?}", key(a, b)))));
        }
        d.finish()
    });
    check_dot(c, &text, m, hier.then_some(f), &w, t);
    if c.rng.chance(1, 4) {
        check_dot(c, &must("dot_string", || v.dot_string()), m, None, &Want::default(), t);
    }
    // Mermaid
    let w = want(c, m, true);
    let hier = c.rng.chance(3, 4);
    let text = must("mermaid", || {
        let mut d = v.mermaid_format();
        if hier {
            d = d.with_hierarchy(&h);
        }
        if let Some(x) = &w.node {
            d = d.with_node_style(|n| x[&n].clone());
        }
        if let Some(x) = &w.edge {
            d = d.with_edge_style(|a, b| x.get(&key(a, b)).cloned().unwrap_or_else(|| vio("mermaid:edge-style-arguments", format!("edge style asked for {:?}", key(a, b)))));
        }
        d.finish()
    });
    check_mmd(c, &text, m, hier.then_some(f), &w, t);
    if c.rng.chance(1, 4) {
        check_mmd(c, &must("mermaid_string", || v.mermaid_string()), m, None, &Want::default(), t);
    }
    // weights
    if c.rng.chance(1, 4) {
        let mut ws: Weights<String, String> = Weights::new();
        let mut w = Want { node: Some(Default::default()), port: Some(Default::default()), edge: None };
        for n in m.nodes.keys() {
            let l = label(c, false);
            ws[*n] = l.clone();
            w.node.as_mut().unwrap().insert(*n, NodeStyle::boxed(l));
        }
        for p in m.ports.keys() {
            let l = label(c, false);
            ws[*p] = l.clone();
            w.port.as_mut().unwrap().insert(*p, PortStyle::new(l));
        }
        check_dot(c, &must("dot", || v.dot_format().with_weights(&ws).finish()), m, None, &w, t);
        check_mmd(c, &must("mermaid", || v.mermaid_format().with_weights(&ws).with_hierarchy(&h).finish()), m, Some(f), &w, t);
    }
}

fn go<G: Gut>(c: &mut Case)
where
    G::LinkEndpoint: Ep,
{
    let s = shape_big(c, 12);
    let (g, m) = graph::<G>(&mut c.rng, s);
    let nodes: Vec<usize> = m.nodes.keys().map(|n| n.index()).collect();
    let f = Forest::random(&mut c.rng, &nodes);
    let h = f.build();
    c.log(|| format!("{} {f:?}", m.describe()));
    c.feed(m.fingerprint());
    let kind = if nodes.is_empty() { 0 } else { c.rng.below(9) };
    c.feed(kind as u64);
    c.nontrivial_if(m.link_count() > 0);
    if kind < 4 {
        return render(c, &g, &m, &f, "graph");
    }
    let root = ni(*c.rng.pick(&nodes));
    let set: BTreeSet<_> = f.descendants(root.index()).into_iter().map(ni).collect();
    c.log(|| format!("view kind {kind}, root {root:?}"));
    match kind {
        4 | 5 => {
            let k = Keep::random(&mut c.rng, &m);
            let km = k.apply(&m);
            c.log(|| format!("{k:?}"));
            render(c, &filtered(&g, k), &km, &f, "filter")
        }
        6 => render(c, &Region::new(&g, &h, root), &m.restrict(|n| set.contains(&n), |_, _| true), &f, "region"),
        7 => {
            let mut kids: BTreeSet<_> = f.kids(root.index()).iter().map(|n| ni(*n)).collect();
            let with = c.rng.bool();
            let v = if with {
                kids.insert(root);
                FlatRegion::new_with_root(&g, Cow::Borrowed(&h), root)
            } else {
                FlatRegion::new_without_root(&g, Cow::Borrowed(&h), root)
            };
            render(c, &v, &m.restrict(|n| kids.contains(&n), |_, _| true), &f, "flat")
        }
        _ => {
            let some: BTreeSet<NodeIndex> = nodes.iter().map(|n| ni(*n)).filter(|_| c.rng.bool()).collect();
            render(c, &Subgraph::with_nodes(&g, some.clone()), &m.restrict(|n| some.contains(&n), |_, _| true), &f, "subgraph")
        }
    }
}

fn styles(c: &mut Case) {
    // the style values themselves
    let a = attrs(c);
    let l = label(c, true);
    let ns = NodeStyle::boxed(&l).with_attrs(a.clone());
    ensure_eq!(*ns.attrs(), a, "style-attrs", "attributes of a boxed node");
    ensure!(NodeStyle::Hidden.with_attrs(a.clone()) == NodeStyle::Hidden, "style-hidden", "attributes show a hidden node");
    ensure_eq!(a.is_empty(), a == PresentationStyle::new(), "style-empty", "is_empty");
    let e = edge_style(c, true, 0);
    let base = e.strip_label().clone();
    ensure!(!matches!(base, EdgeStyle::Labelled(..)), "strip_label", "strip_label leaves a label");
    let x = e.clone().with_label(&l);
    ensure!(*x.strip_label() == base, "with_label-base", "with_label changes the line of {e:?}");
    ensure!(matches!(&x, EdgeStyle::Labelled(k, _) if *k == l), "with_label", "with_label gives {x:?}");
    c.feed(l.len() as u64);
    c.nontrivial();
}

pub static CHECK: Check = Check {
    prop: "C22",
    rule: "random graphs, multigraphs and views with random hierarchies, node, port and edge styles and labels, rendered as DOT and Mermaid; the text is parsed by own parsers and its nodes, tables, boxes, styles and links compared as multisets with the reference model; non-trivial if the graph has a link",
    assumptions: &["labels in DOT are markup of DOT's label language and style strings are valid in the format, as they are passed on verbatim", "labels of custom Mermaid arrows and of DOT links are not shown"],
    suites: &[
        Suite { name: "plain", quick: 240000, thorough: 1920000, max_size: 16, f: go::<Plain<u16>> },
        Suite { name: "multi", quick: 160000, thorough: 1280000, max_size: 16, f: go::<Multi<u16>> },
        Suite { name: "styles", quick: 2000, thorough: 20000, max_size: 4, f: styles },
    ],
};
#[allow(dead_code)]
fn main() {
    main_(&CHECK)
}
