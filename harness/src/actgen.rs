//! Editing sessions: documents, actions, and a model of what each action is documented to do.
use crate::engine::{Cx, Fail, Src};
use crate::{geom, svgpath, xml};
use oxvg_actions::{Action, Actor};
use oxvg_ast::serialize::Node as _;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

const SVG: &str = "http://www.w3.org/2000/svg";
const SIDE: usize = 12;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<El>,
    #[serde(default)]
    pub text: String,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Act {
    Attr(String, String),
    Class(String),
    Style(String, String),
    Op(u8),
    Matrix([f32; 6]),
    Translate(f32, Option<f32>),
    Scale(f32, Option<f32>),
    Rotate(f32, Option<(f32, f32)>),
    SkewX(f32),
    SkewY(f32),
    Insert(String),
    Forget,
    Select(String),
    /// The elements at these places of the document, counted in document order.
    Pick(Vec<usize>),
    SelectMore(String),
    PickMore(Vec<usize>),
    Deselect,
    /// The document is written and read again.
    Reload,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Input {
    pub root: El,
    /// White space is put between elements.
    pub spaced: bool,
    pub acts: Vec<Act>,
}

// ---- generation ----

const CLASSES: &[&str] = &["a", "b", "c"];
const RULES: &[(&str, &str)] = &[("fill", "red"), ("fill", "none"), ("stroke", "red"), ("display", "none"), ("visibility", "hidden"), ("fill-rule", "evenodd"), ("fill-rule", "nonzero")];

fn rect(s: &mut Src) -> String {
    let (x, y) = (s.int(0, 8), s.int(0, 8));
    let (w, h) = (s.int(1, (SIDE as i64 - x).min(8)), s.int(1, (SIDE as i64 - y).min(8)));
    if s.chance(1, 3) { format!("M{x} {y}v{h}h{w}v-{h}z") } else { format!("M{x} {y}h{w}v{h}h-{w}z") }
}

fn element(s: &mut Src, depth: usize, next: &mut usize) -> El {
    s.span(|s| {
        let name = s.pick(&["path", "rect", "path", "g", "path", "circle", "text", "defs", "linearGradient"]).to_string();
        let mut e = El { name: name.clone(), attrs: vec![], kids: vec![], text: String::new() };
        if s.chance(1, 3) {
            e.attrs.push(("id".into(), format!("n{}", *next)));
            *next += 1;
        }
        common(s, &mut e);
        match name.as_str() {
            "path" => {
                let mut d = rect(s);
                while s.chance(1, 3) {
                    d += &rect(s);
                }
                e.attrs.push(("d".into(), d));
                if s.chance(1, 4) {
                    e.attrs.push(("fill-rule".into(), s.pick(&["evenodd", "nonzero"]).to_string()));
                }
                if s.chance(1, 12) {
                    e.attrs.retain(|a| a.0 != "d");
                }
                if s.chance(1, 10) {
                    e.kids.push(title());
                }
            }
            "text" => e.text = s.pick(&["t", "u v", "a&b"]).to_string(),
            "linearGradient" => {
                for _ in 0..s.us(3) {
                    e.kids.push(El { name: "stop".into(), attrs: vec![], kids: vec![], text: String::new() });
                }
            }
            "g" | "defs" if depth < 3 => {
                if name == "g" && s.chance(1, 5) {
                    e.attrs.push(("fill-rule".into(), "evenodd".into()));
                }
                e.kids = kids(s, depth + 1, next);
            }
            _ => {}
        }
        e
    })
}

fn title() -> El {
    El { name: "title".into(), attrs: vec![], kids: vec![], text: "T".into() }
}

fn common(s: &mut Src, e: &mut El) {
    if s.chance(1, 3) {
        let n = 1 + s.us(2);
        let mut c: Vec<&str> = (0..n).map(|_| *s.pick(CLASSES)).collect();
        c.dedup();
        e.attrs.push(("class".into(), c.join(" ")));
    }
    if s.chance(1, 5) {
        let r = s.pick(RULES);
        e.attrs.push(("style".into(), format!("{}:{}", r.0, r.1)));
    }
    if !matches!(e.name.as_str(), "defs" | "linearGradient") && s.chance(1, 5) {
        e.attrs.push(("transform".into(), s.pick(&["translate(1 2)", "rotate(30)", "inherit", "scale(2)translate(3)"]).to_string()));
    }
}

fn kids(s: &mut Src, depth: usize, next: &mut usize) -> Vec<El> {
    let n = s.us(if depth == 0 { 6 } else { 4 });
    (0..n).map(|_| element(s, depth, next)).collect()
}

fn query(s: &mut Src) -> String {
    let simple = |s: &mut Src| match s.us(8) {
        0..=2 => s.pick(&["path", "rect", "g", "svg", "text", "stop", "circle", "title", "defs"]).to_string(),
        3 => format!(".{}", s.pick(CLASSES)),
        4 => format!("#n{}", s.us(4)),
        5 => "*".to_string(),
        6 => format!("path.{}", s.pick(CLASSES)),
        _ => "path".to_string(),
    };
    let one = simple(s);
    match s.us(8) {
        0 => format!("{one} > {}", simple(s)),
        1 => format!("{one} {}", simple(s)),
        2 => format!("{one}, {}", simple(s)),
        _ => one,
    }
}

fn number(s: &mut Src) -> f32 {
    *s.pick(&[0.0, 1.0, 2.0, -1.0, 0.5, 10.0, 30.0, -2.5, 45.0, 1e-3, 123.25])
}

fn act(s: &mut Src, sessions: bool) -> Act {
    let origin = |s: &mut Src| s.chance(1, 2).then(|| number(s));
    match s.weighted(&[8, 4, 6, 4, 3, 6, 2, 2, 2, 2, 1, 1, 3, 1, 1, if sessions { 4 } else { 0 }]) {
        0 => Act::Select(query(s)),
        1 => Act::SelectMore(query(s)),
        2 => {
            let a = s.pick(&[
                ("x", "5"), ("cx", "7"), ("r", "3"), ("d", "M0 0h4v4h-4z"), ("id", "q"), ("class", "z"), ("class", "z a"), ("foo", "bar"), ("offset", "1"),
                ("fill", "red"), ("x", "foo"), ("style", "fill:red"), ("transform", "translate(3)"), ("y", "2"), ("fill-rule", "evenodd"), ("points", "1 2"), ("points", "3 4"), ("offset", "0"), ("gradientUnits", "userSpaceOnUse"), ("width", "4"),
                ("nope:x", "1"), ("font-family", "a  b"), ("class", "z  a"), ("class", " "), ("id", "<&\">"),
            ]);
            Act::Attr(a.0.into(), a.1.into())
        }
        3 => Act::Class(s.pick(&["a", "b", "c", "new"]).to_string()),
        4 => {
            let r = s.pick(RULES);
            let bang = match s.us(6) {
                0 => "!important",
                1 => " !important",
                _ => "",
            };
            Act::Style(r.0.into(), format!("{}{bang}", r.1))
        }
        5 => Act::Op(s.us(4) as u8),
        6 => Act::Matrix(std::array::from_fn(|_| number(s))),
        7 => Act::Translate(number(s), origin(s)),
        8 => Act::Scale(number(s), origin(s)),
        9 => {
            let a = number(s);
            Act::Rotate(a, s.chance(1, 2).then(|| (number(s), number(s))))
        }
        10 => Act::SkewX(number(s)),
        11 => Act::SkewY(number(s)),
        12 => Act::Insert(s.pick(&["rect", "g", "path", "stop", "title", "circle", "linearGradient"]).to_string()),
        13 => {
            let n = 1 + s.us(4);
            let v = (0..n).map(|_| s.us(12)).collect();
            if s.chance(1, 2) { Act::Pick(v) } else { Act::PickMore(v) }
        }
        14 => {
            if s.chance(1, 3) || !sessions {
                Act::Deselect
            } else {
                Act::Forget
            }
        }
        _ => Act::Reload,
    }
}

pub fn input(s: &mut Src, cx: &mut Cx, sessions: bool) -> Input {
    let mut next = 0;
    let mut root = El { name: "svg".into(), attrs: vec![], kids: vec![], text: String::new() };
    if s.chance(1, 4) {
        root.attrs.push(("id".into(), "root".into()));
    }
    root.kids = kids(s, 0, &mut next);
    let mut spaced = s.chance(1, 3);
    let n = 1 + s.us(8);
    let mut acts = vec![];
    if s.chance(3, 4) {
        acts.push(Act::Select(query(s)));
    }
    for _ in 0..n {
        acts.push(act(s, sessions));
    }
    if spaced && acts.iter().any(|a| matches!(a, Act::Reload)) {
        // A known finding: white space between elements is not written, which moves the selection.
        cx.exclude("white space between elements of a document that is read again");
        spaced = false;
    }
    Input { root, spaced, acts }
}

pub fn print(i: &Input) -> String {
    fn esc(t: &str) -> String {
        t.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;")
    }
    fn go(e: &El, i: &Input, depth: usize, out: &mut String) {
        *out += &format!("<{}", e.name);
        if depth == 0 {
            *out += &format!(" xmlns=\"{SVG}\"");
        }
        for a in &e.attrs {
            *out += &format!(" {}=\"{}\"", a.0, esc(&a.1));
        }
        if e.kids.is_empty() && e.text.is_empty() {
            *out += "/>";
            return;
        }
        *out += ">";
        *out += &esc(&e.text);
        for k in &e.kids {
            if i.spaced && e.name != "path" {
                *out += &format!("\n{}", "  ".repeat(depth + 1));
            }
            go(k, i, depth + 1, out);
        }
        if i.spaced && e.name != "path" && !e.kids.is_empty() {
            *out += "\n";
        }
        *out += &format!("</{}>", e.name);
    }
    let mut out = String::new();
    go(&i.root, i, 0, &mut out);
    out
}

// ---- model ----

#[derive(Clone, Debug)]
pub struct Node {
    pub name: String,
    pub attrs: BTreeMap<String, String>,
    pub parent: Option<usize>,
    pub kids: Vec<usize>,
    pub text: String,
    /// The region the path was last made to have, where its data is not known yet.
    pub region: Option<Vec<bool>>,
}

#[derive(Clone)]
pub struct Model {
    pub nodes: Vec<Node>,
    pub selection: Vec<usize>,
    pub history: Vec<(String, Vec<String>)>,
}

impl Model {
    fn add(&mut self, e: &El, parent: Option<usize>) -> usize {
        let at = self.nodes.len();
        self.nodes.push(Node { name: e.name.clone(), attrs: e.attrs.iter().cloned().collect(), parent, kids: vec![], text: e.text.clone(), region: None });
        for k in &e.kids {
            let k = self.add(k, Some(at));
            self.nodes[at].kids.push(k);
        }
        at
    }
    pub fn new(i: &Input) -> Self {
        let mut m = Model { nodes: vec![], selection: vec![], history: vec![] };
        m.add(&i.root, None);
        m
    }
    /// Elements in document order.
    pub fn order(&self) -> Vec<usize> {
        fn go(m: &Model, n: usize, out: &mut Vec<usize>) {
            out.push(n);
            for &k in &m.nodes[n].kids {
                go(m, k, out);
            }
        }
        let mut out = vec![];
        go(self, 0, &mut out);
        out
    }
    fn simple(&self, n: usize, q: &str) -> bool {
        let e = &self.nodes[n];
        let has = |c: &str| e.attrs.get("class").is_some_and(|v| v.split_ascii_whitespace().any(|t| t == c));
        if q == "*" {
            true
        } else if let Some(id) = q.strip_prefix('#') {
            e.attrs.get("id").is_some_and(|v| v == id)
        } else if let Some((tag, c)) = q.split_once('.') {
            (tag.is_empty() || tag == e.name) && has(c)
        } else {
            e.name == q
        }
    }
    fn matches(&self, n: usize, q: &str) -> bool {
        q.split(", ").any(|q| {
            if let Some((a, b)) = q.split_once(" > ") {
                self.simple(n, b) && self.nodes[n].parent.is_some_and(|p| self.simple(p, a))
            } else if let Some((a, b)) = q.split_once(' ') {
                let mut up = self.nodes[n].parent;
                while let Some(p) = up {
                    if self.simple(n, b) && self.simple(p, a) {
                        return true;
                    }
                    up = self.nodes[p].parent;
                }
                false
            } else {
                self.simple(n, q)
            }
        })
    }
    fn query(&self, q: &str) -> Vec<usize> {
        self.order().into_iter().filter(|n| self.matches(*n, q)).collect()
    }
    fn in_order(&self, v: Vec<usize>) -> Vec<usize> {
        self.order().into_iter().filter(|n| v.contains(n)).collect()
    }
    fn rule(&self, n: usize) -> bool {
        let e = &self.nodes[n];
        if let Some(v) = e.attrs.get("style").and_then(|s| declared(s).get("fill-rule").cloned()) {
            return v == "evenodd";
        }
        if let Some(v) = e.attrs.get("fill-rule") {
            return v == "evenodd";
        }
        e.parent.is_some_and(|p| self.rule(p))
    }
    fn region(&self, n: usize) -> Vec<bool> {
        region(self.nodes[n].attrs.get("d").map_or("", |d| d), self.rule(n))
    }
}

fn region(d: &str, evenodd: bool) -> Vec<bool> {
    let subs = geom::flatten(&svgpath::read(d).cmds, 0.01);
    (0..SIDE * SIDE)
        .map(|k| {
            let w = geom::winding(&subs, ((k % SIDE) as f64 + 0.5, (k / SIDE) as f64 + 0.5));
            if evenodd { w % 2 != 0 } else { w != 0 }
        })
        .collect()
}

/// The declarations of a style attribute that take effect.
pub fn declared(style: &str) -> BTreeMap<String, String> {
    let mut out: BTreeMap<String, (bool, String)> = BTreeMap::new();
    for d in style.split(';') {
        let Some((p, v)) = d.split_once(':') else { continue };
        let (v, bang) = match v.trim().strip_suffix("!important") {
            Some(v) => (v.trim(), true),
            None => (v.trim(), false),
        };
        if out.get(p.trim()).is_some_and(|o| o.0) && !bang {
            continue;
        }
        out.insert(p.trim().into(), (bang, v.into()));
    }
    out.into_iter().map(|(k, v)| (k, v.1)).collect()
}

type M = [f64; 6];
fn mul(a: M, b: M) -> M {
    [
        a[0] * b[0] + a[2] * b[1],
        a[1] * b[0] + a[3] * b[1],
        a[0] * b[2] + a[2] * b[3],
        a[1] * b[2] + a[3] * b[3],
        a[0] * b[4] + a[2] * b[5] + a[4],
        a[1] * b[4] + a[3] * b[5] + a[5],
    ]
}

/// The matrix of a transform attribute.
pub fn matrix(text: &str) -> Option<M> {
    let mut m: M = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];
    let mut rest = text.trim();
    while !rest.is_empty() {
        let (name, after) = rest.split_once('(')?;
        let (args, after) = after.split_once(')')?;
        rest = after.trim_start_matches([' ', ',']);
        let a = numbers(args)?;
        let g = |k: usize, d: f64| a.get(k).copied().unwrap_or(d);
        let t = |x: f64| x.to_radians().tan();
        m = mul(
            m,
            match name.trim() {
                "matrix" => [g(0, 0.0), g(1, 0.0), g(2, 0.0), g(3, 0.0), g(4, 0.0), g(5, 0.0)],
                "translate" => [1.0, 0.0, 0.0, 1.0, g(0, 0.0), g(1, 0.0)],
                "scale" => [g(0, 1.0), 0.0, 0.0, g(1, g(0, 1.0)), 0.0, 0.0],
                "rotate" => {
                    let (s, c) = g(0, 0.0).to_radians().sin_cos();
                    let (x, y) = (g(1, 0.0), g(2, 0.0));
                    mul(mul([1.0, 0.0, 0.0, 1.0, x, y], [c, s, -s, c, 0.0, 0.0]), [1.0, 0.0, 0.0, 1.0, -x, -y])
                }
                "skewX" => [1.0, 0.0, t(g(0, 0.0)), 1.0, 0.0, 0.0],
                "skewY" => [1.0, t(g(0, 0.0)), 0.0, 1.0, 0.0, 0.0],
                _ => return None,
            },
        );
    }
    Some(m)
}

/// Numbers as they may be written together: `1 2`, `1,2`, `1-2`, `.5.5`.
fn numbers(text: &str) -> Option<Vec<f64>> {
    let mut out = vec![];
    let mut now = String::new();
    for c in text.chars().chain([' ']) {
        let cut = match c {
            ' ' | ',' | '\n' => true,
            '-' | '+' => !now.is_empty() && !now.ends_with(['e', 'E']),
            '.' => now.contains('.') || now.contains('e'),
            _ => false,
        };
        if cut && !now.is_empty() {
            out.push(now.parse().ok()?);
            now.clear();
        }
        if !matches!(c, ' ' | ',' | '\n') {
            now.push(c);
        }
    }
    Some(out)
}

/// Whether the element takes the attribute; `None` where the specifications differ.
fn takes(e: &str, a: &str) -> Option<bool> {
    let shape = matches!(e, "path" | "rect" | "circle" | "text" | "g");
    match a {
        "id" | "class" | "style" => Some(true),
        "foo" | "nope:x" => Some(false),
        // Presentation attributes of SVG 2 may be written on other elements, without effect.
        "x" | "y" if matches!(e, "svg" | "rect" | "text") => Some(true),
        "width" if matches!(e, "svg" | "rect") => Some(true),
        "cx" | "r" if e == "circle" => Some(true),
        "d" if e == "path" => Some(true),
        "offset" => Some(e == "stop"),
        "gradientUnits" => Some(e == "linearGradient"),
        "points" => Some(false),
        "transform" if shape => Some(true),
        "fill" | "font-family" | "fill-rule" if shape => Some(true),
        _ => None,
    }
}

/// Whether the element takes the child; `None` where the specifications differ.
fn holds(e: &str, c: &str) -> Option<bool> {
    match (e, c) {
        ("svg" | "g" | "defs", "stop") => Some(false),
        ("svg" | "g" | "defs", _) => Some(true),
        ("path" | "rect" | "circle", "title") => Some(true),
        ("path" | "rect" | "circle" | "text", "linearGradient") => None,
        ("path" | "rect" | "circle", _) => Some(false),
        ("linearGradient", "stop" | "title") => Some(true),
        ("linearGradient", _) => Some(false),
        ("text", "title") => Some(true),
        ("text", _) => Some(false),
        ("title", _) => None,
        ("stop", "title") => None,
        ("stop", _) => Some(false),
        _ => None,
    }
}

fn f(x: f32) -> String {
    x.to_string()
}

pub enum Step {
    Done,
    /// What the action has to do is not certain.
    Unsure,
}

impl Model {
    fn append(&mut self, t: String) -> Step {
        for n in self.selection.clone() {
            match takes(&self.nodes[n].name, "transform") {
                None => return Step::Unsure,
                Some(false) => continue,
                Some(true) => {}
            }
            let a = self.nodes[n].attrs.entry("transform".into()).or_default();
            if a.trim() == "inherit" {
                a.clear();
            }
            *a += &t;
        }
        Step::Done
    }

    pub fn apply(&mut self, a: &Act, cx: &mut Cx) -> Step {
        let mut note = |name: &str, args: Vec<String>| self.history.push((name.to_string(), args));
        match a {
            Act::Reload => {}
            Act::Attr(k, v) => {
                note("Attr", vec![k.clone(), v.clone()]);
                for n in self.selection.clone() {
                    match takes(&self.nodes[n].name, k) {
                        None => return Step::Unsure,
                        Some(false) => cx.label("attribute the element does not take"),
                        Some(true) => {
                            cx.label("attribute set");
                            self.nodes[n].attrs.insert(k.clone(), v.clone());
                        }
                    }
                }
            }
            Act::Class(c) => {
                note("Class", vec![c.clone()]);
                for n in self.selection.clone() {
                    let v = self.nodes[n].attrs.entry("class".into()).or_default();
                    let mut t: Vec<&str> = v.split_ascii_whitespace().collect();
                    if t.contains(&c.as_str()) {
                        cx.label("class taken away");
                        t.retain(|t| t != c);
                    } else {
                        t.push(c);
                    }
                    *v = t.join(" ");
                }
            }
            Act::Style(p, v) => {
                note("Style", vec![p.clone(), v.clone()]);
                for n in self.selection.clone() {
                    cx.label("style set");
                    let s = self.nodes[n].attrs.entry("style".into()).or_default();
                    *s += &format!(";{p}:{v}");
                }
            }
            Act::Op(o) => {
                note(["PathIntersect", "PathUnion", "PathSubtract", "PathXor"][*o as usize], vec![]);
                let paths: Vec<usize> = self
                    .selection
                    .iter()
                    .copied()
                    .filter(|n| self.nodes[*n].name == "path" && self.nodes[*n].kids.is_empty() && self.nodes[*n].attrs.contains_key("d"))
                    .collect();
                let Some(&last) = paths.last() else { return Step::Done };
                cx.label_if(paths.len() > 1, "paths merged");
                cx.label_if(paths.len() > 2, "several paths merged");
                let mut r = self.region(paths[0]);
                for &p in &paths[1..] {
                    for (a, b) in r.iter_mut().zip(self.region(p)) {
                        *a = match o {
                            0 => *a && b,
                            1 => *a || b,
                            2 => *a && !b,
                            _ => *a != b,
                        };
                    }
                }
                for &p in &paths[..paths.len() - 1] {
                    let up = self.nodes[p].parent.unwrap();
                    self.nodes[up].kids.retain(|k| *k != p);
                }
                self.nodes[last].region = Some(r);
                self.selection = vec![last];
            }
            Act::Matrix(m) => {
                note("Matrix", m.iter().map(|x| f(*x)).collect());
                return self.append(format!("matrix({})", m.map(f).join(" ")));
            }
            Act::Translate(x, y) => {
                note("Translate", std::iter::once(*x).chain(*y).map(f).collect());
                return self.append(format!("translate({x} {})", y.unwrap_or(0.0)));
            }
            Act::Scale(x, y) => {
                note("Scale", std::iter::once(*x).chain(*y).map(f).collect());
                return self.append(format!("scale({x} {})", y.unwrap_or(*x)));
            }
            Act::Rotate(a, o) => {
                note("Rotate", std::iter::once(*a).chain(o.iter().flat_map(|o| [o.0, o.1])).map(f).collect());
                let o = o.unwrap_or((0.0, 0.0));
                return self.append(format!("rotate({a} {} {})", o.0, o.1));
            }
            Act::SkewX(x) => {
                note("SkewX", vec![f(*x)]);
                return self.append(format!("skewX({x})"));
            }
            Act::SkewY(x) => {
                note("SkewY", vec![f(*x)]);
                return self.append(format!("skewY({x})"));
            }
            Act::Insert(name) => {
                note("Insert", vec![name.clone()]);
                let mut new = vec![];
                for n in self.selection.clone() {
                    match holds(&self.nodes[n].name, name) {
                        None => return Step::Unsure,
                        Some(false) => {
                            cx.label("insertion the parent does not take");
                            continue;
                        }
                        Some(true) => {}
                    }
                    cx.label("element inserted");
                    let k = self.add(&El { name: name.clone(), attrs: vec![], kids: vec![], text: String::new() }, Some(n));
                    self.nodes[n].kids.push(k);
                    new.push(k);
                }
                if !new.is_empty() {
                    self.selection = self.in_order(new);
                }
            }
            Act::Forget => {
                note("Forget", vec![]);
                self.selection = vec![];
            }
            Act::Select(q) => {
                note("Select", vec![q.clone()]);
                self.selection = self.query(q);
            }
            Act::SelectMore(q) => {
                note("SelectMore", vec![q.clone()]);
                let mut v = self.query(q);
                cx.label_if(v.iter().any(|n| self.selection.contains(n)), "selected again");
                v.extend(&self.selection);
                self.selection = self.in_order(v);
            }
            Act::Pick(v) | Act::PickMore(v) => {
                let order = self.order();
                let mut v: Vec<usize> = v.iter().map(|k| order[k % order.len()]).collect();
                if let Act::PickMore(_) = a {
                    v.extend(&self.selection);
                }
                self.selection = self.in_order(v);
            }
            Act::Deselect => {
                note("Deselect", vec![]);
                self.selection = vec![];
            }
        }
        Step::Done
    }
}

// ---- running ----

fn action<'a>(a: &Act, ids: &[usize]) -> Option<Action<'a>> {
    let s = |t: &str| t.to_string().into();
    let list = |v: &[usize]| v.iter().map(|k| ids[k % ids.len()].to_string()).collect::<Vec<_>>().join(" ");
    Some(match a {
        Act::Reload => return None,
        Act::Attr(k, v) => Action::Attr { name: s(k), value: s(v) },
        Act::Class(c) => Action::Class(s(c)),
        Act::Style(p, v) => Action::Style { property: s(p), value: s(v) },
        Act::Op(0) => Action::PathIntersect,
        Act::Op(1) => Action::PathUnion,
        Act::Op(2) => Action::PathSubtract,
        Act::Op(_) => Action::PathXor,
        Act::Matrix([a, b, c, d, e, f]) => Action::Matrix(*a, *b, *c, *d, *e, *f),
        Act::Translate(x, y) => Action::Translate(*x, *y),
        Act::Scale(x, y) => Action::Scale(*x, *y),
        Act::Rotate(x, o) => Action::Rotate(*x, *o),
        Act::SkewX(x) => Action::SkewX(*x),
        Act::SkewY(x) => Action::SkewY(*x),
        Act::Insert(n) => Action::Insert(s(n)),
        Act::Forget => Action::Forget,
        Act::Select(q) => Action::Select(s(q)),
        Act::SelectMore(q) => Action::SelectMore(s(q)),
        Act::Pick(v) => Action::Select(list(v).into()),
        Act::PickMore(v) => Action::SelectMore(list(v).into()),
        Act::Deselect => Action::Deselect,
    })
}

fn told(a: &Action) -> (String, Vec<String>) {
    let (n, v): (&str, Vec<String>) = match a {
        Action::Attr { name, value } => ("Attr", vec![name.to_string(), value.to_string()]),
        Action::Class(c) => ("Class", vec![c.to_string()]),
        Action::PathIntersect => ("PathIntersect", vec![]),
        Action::PathUnion => ("PathUnion", vec![]),
        Action::PathSubtract => ("PathSubtract", vec![]),
        Action::PathXor => ("PathXor", vec![]),
        Action::Style { property, value } => ("Style", vec![property.to_string(), value.to_string()]),
        Action::Matrix(a, b, c, d, e, g) => ("Matrix", [a, b, c, d, e, g].map(|x| f(*x)).to_vec()),
        Action::Translate(x, y) => ("Translate", std::iter::once(*x).chain(*y).map(f).collect()),
        Action::Scale(x, y) => ("Scale", std::iter::once(*x).chain(*y).map(f).collect()),
        Action::Rotate(x, o) => ("Rotate", std::iter::once(*x).chain(o.iter().flat_map(|o| [o.0, o.1])).map(f).collect()),
        Action::SkewX(x) => ("SkewX", vec![f(*x)]),
        Action::SkewY(x) => ("SkewY", vec![f(*x)]),
        Action::Insert(x) => ("Insert", vec![x.to_string()]),
        Action::Forget => ("Forget", vec![]),
        Action::Select(x) => ("Select", vec![x.to_string()]),
        Action::SelectMore(x) => ("SelectMore", vec![x.to_string()]),
        Action::Deselect => ("Deselect", vec![]),
    };
    (n.to_string(), v)
}

/// Compares the document with the model and takes over the data of merged paths.
fn compare(text: &str, m: &mut Model) -> Result<(), Fail> {
    let parsed = xml::parse(text).map_err(|e| Fail::new("unreadable result", format!("{e}\n{text}")))?;
    let mut roots = parsed.into_iter().filter_map(|n| if let xml::Node::El(e) = n { Some(e) } else { None });
    let Some(root) = roots.next() else { return Err(Fail::new("no root", text.to_string())) };
    compare_el(&root, 0, m, text)
}

fn compare_el(e: &xml::El, n: usize, m: &mut Model, text: &str) -> Result<(), Fail> {
    let name = m.nodes[n].name.clone();
    let at = |what: &str| Fail::new(what, format!("at <{name}> {:?}\n{text}", m.nodes[n].attrs));
    if e.name != name {
        return Err(Fail::new("different element", format!("expected <{name}>, got <{}>\n{text}", e.name)));
    }
    let mut have: BTreeMap<String, String> = e.attrs.iter().cloned().collect();
    have.remove("xmlns:oxvg");
    if n == 0 && have.remove("xmlns").as_deref() != Some(SVG) {
        return Err(at("namespace lost"));
    }
    let mut want = m.nodes[n].attrs.clone();
    if want.get("class").is_some_and(|c| c.trim().is_empty()) {
        want.remove("class");
    }
    if have.get("class").is_some_and(|c| c.trim().is_empty()) {
        have.remove("class");
    }
    if m.nodes[n].region.is_some() {
        // The data and the rule are judged by the region they give.
        want.remove("d");
        want.remove("fill-rule");
        for k in ["d", "fill-rule"] {
            match have.remove(k) {
                Some(v) => m.nodes[n].attrs.insert(k.into(), v),
                None => m.nodes[n].attrs.remove(k),
            };
        }
        let expected = m.nodes[n].region.take().unwrap();
        if m.region(n) != expected {
            return Err(Fail::new("different region", format!("path {:?}\n{text}", m.nodes[n].attrs)));
        }
    }
    let at = |what: &str| Fail::new(what, format!("at <{name}> expected {want:?}, got {have:?}\n{text}"));
    if want.keys().ne(have.keys()) {
        return Err(at("different attributes"));
    }
    for (k, v) in &want {
        let g = &have[k];
        let same = match k.as_str() {
            "class" => v.split_ascii_whitespace().eq(g.split_ascii_whitespace()),
            "font-family" => v.split_ascii_whitespace().eq(g.split_ascii_whitespace()),
            "style" => declared(v) == declared(g),
            "transform" => match (matrix(v), matrix(g)) {
                (Some(a), Some(b)) => a.iter().zip(b).all(|(a, b)| (a - b).abs() <= 1e-3 * (1.0 + a.abs().max(b.abs()))),
                _ => v == g,
            },
            "d" => v == g || region(v, false) == region(g, false) && region(v, true) == region(g, true),
            _ => v == g,
        };
        if !same {
            return Err(at(&format!("different {k}")));
        }
    }
    let mut words = String::new();
    let mut els = vec![];
    for k in &e.kids {
        match k {
            xml::Node::El(k) if k.name == "oxvg:state" && n == 0 => {}
            xml::Node::El(k) => els.push(k),
            xml::Node::Text(t) => words += t,
            _ => {}
        }
    }
    if words.trim() != m.nodes[n].text.trim() {
        return Err(Fail::new("different text", format!("expected {:?}, got {words:?}\n{text}", m.nodes[n].text)));
    }
    let kids = m.nodes[n].kids.clone();
    if kids.len() != els.len() {
        let want: Vec<_> = kids.iter().map(|k| m.nodes[*k].name.clone()).collect();
        return Err(Fail::new("different children", format!("of <{name}>: expected {want:?}, got {:?}\n{text}", els.iter().map(|e| &e.name).collect::<Vec<_>>())));
    }
    for (k, e) in kids.into_iter().zip(els) {
        compare_el(e, k, m, text)?;
    }
    Ok(())
}

/// Numbers the elements of the document in document order.
fn ids(actor: &Actor) -> Vec<usize> {
    let root = actor.root.find_element().unwrap();
    fn go(e: oxvg_ast::element::Element, out: &mut Vec<usize>) {
        if e.qual_name().to_string().starts_with("oxvg:") {
            return;
        }
        out.push(e.id());
        for k in e.children_iter() {
            go(k, out);
        }
    }
    let mut out = vec![];
    go(root, &mut out);
    out
}

/// Runs the session and compares what is seen after each step.
///
/// Returns whether the document was changed and whether it was read again with a history.
pub fn run(i: &Input, cx: &mut Cx) -> Result<(bool, bool), Fail> {
    let mut again = false;
    let mut m = Model::new(i);
    let before = format!("{:?}", m.nodes);
    let mut text = print(i);
    let mut acts: &[Act] = &i.acts;
    loop {
        // The part up to the next reload.
        let n = acts.iter().position(|a| matches!(a, Act::Reload)).unwrap_or(acts.len());
        let part = &acts[..n];
        let source = text.clone();
        let out = oxvg_ast::parse::roxmltree::parse(&source, |root, allocator| -> Result<Option<String>, Fail> {
            let bad = |what: &str, e: &dyn std::fmt::Display| Fail::new(what, format!("{e}\n{source}"));
            let mut actor = Actor::new(root, allocator).map_err(|e| bad("session not read", &e))?;
            watch(&mut actor, &mut m, &format!("after reading {source}"), false)?;
            for a in part {
                let ids = ids(&actor);
                if let Some(act) = action(a, &ids) {
                    if let Act::Pick(_) | Act::PickMore(_) = a {
                        m.history.push(told(&act));
                    }
                    actor.dispatch(act).map_err(|e| bad(&format!("action failed: {}", format!("{a:?}").split('(').next().unwrap()), &e))?;
                }
                if let Step::Unsure = m.apply(a, cx) {
                    cx.label("not certain");
                    return Ok(None);
                }
                cx.label_if(!m.selection.is_empty(), "something selected");
                watch(&mut actor, &mut m, &format!("{a:?}"), matches!(a, Act::Forget))?;
            }
            if let Some(Act::Forget) = part.last() {
                let text = actor.root.serialize().map_err(|e| bad("not written", &e))?;
                m.history.clear();
                cx.label("read after forgetting");
                return Ok(Some(text));
            }
            Ok(Some(actor.snapshot().map_err(|e| bad("not written", &e))?))
        })
        .map_err(|e| Fail::new("unreadable document", format!("{e}\n{text}")))??;
        let changed = format!("{:?}", m.nodes) != before;
        let Some(out) = out else { return Ok((changed, again)) };
        if n == acts.len() {
            return Ok((changed, again));
        }
        again |= m.history.len() > 1;
        cx.label("read again");
        cx.label_if(!m.selection.is_empty(), "read again with a selection");
        text = out;
        acts = &acts[n + 1..];
    }
}

fn watch(actor: &mut Actor, m: &mut Model, after: &str, forgot: bool) -> Result<(), Fail> {
    let bad = |what: &str, e: String| Fail::new(what, format!("{e}\n{after}"));
    let text = actor.root.serialize().map_err(|e| bad("not written", e.to_string()))?;
    if forgot && text.contains("oxvg") {
        return Err(bad("state left after forgetting", text));
    }
    compare(&text, m)?;
    let state = actor.derive_state().map_err(|e| bad("state not told", format!("{e}\n{text}")))?;
    let ids = ids(actor);
    let order = m.order();
    let mut have: Vec<usize> = vec![];
    for s in &state.selection {
        match ids.iter().position(|i| i == s) {
            Some(k) => have.push(order[k]),
            None => return Err(bad("selection of nothing", format!("{s} is not an element of {ids:?}\n{text}"))),
        }
    }
    if have != m.selection {
        return Err(bad("different selection", format!("expected {:?}, got {have:?}\n{text}", m.selection)));
    }
    let history: Vec<_> = state.history.iter().map(told).collect();
    if history != m.history {
        return Err(bad("different history", format!("expected {:?}, got {history:?}\n{text}", m.history)));
    }
    if !forgot {
        let text = actor.snapshot().map_err(|e| bad("not written", e.to_string()))?;
        compare(&text, m)?;
    }
    Ok(())
}
