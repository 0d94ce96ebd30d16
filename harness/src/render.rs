//! Reference interpreter of SVG documents: what is painted at a point of the viewport.
//! Written from the SVG 2 / CSS specifications for the subset the generators produce.
use crate::dom::{self, Child, Doc, Style};
use crate::geom::{self, P, Sub};
use crate::svgpath::{self, Cmd};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

// ---------------------------------------------------------------- values

pub type Rgba = [f64; 4];

pub fn number(s: &str) -> Option<f64> {
    let s = s.trim();
    if s.is_empty() || s.contains(['i', 'n', 'I', 'N']) {
        return None;
    }
    s.parse().ok()
}

/// A length in user units; `pct` is what 100% means, `em` the font size.
pub fn length(s: &str, pct: f64, em: f64) -> Option<f64> {
    let s = s.trim();
    let i = s
        .char_indices()
        .find(|(i, c)| !(c.is_ascii_digit() || "+-.".contains(*c) || (*c == 'e' || *c == 'E') && s[i + 1..].starts_with(|d: char| d.is_ascii_digit() || d == '-' || d == '+')))
        .map_or(s.len(), |(i, _)| i);
    let n = number(&s[..i])?;
    Some(match s[i..].to_ascii_lowercase().as_str() {
        "" | "px" => n,
        "pt" => n * 4.0 / 3.0,
        "pc" => n * 16.0,
        "in" => n * 96.0,
        "cm" => n * 96.0 / 2.54,
        "mm" => n * 9.6 / 2.54,
        "q" => n * 2.4 / 2.54,
        "em" => n * em,
        "rem" => n * 16.0,
        "ex" => n * em * 0.5,
        "%" => n * pct / 100.0,
        _ => return None,
    })
}

pub fn color(s: &str, current: Rgba) -> Option<Rgba> {
    let s = s.trim();
    let l = s.to_ascii_lowercase();
    if l == "currentcolor" {
        return Some(current);
    }
    if l == "transparent" {
        return Some([0.0; 4]);
    }
    if let Some((_, c)) = crate::colors::NAMES.iter().find(|n| n.0 == l) {
        return Some([c[0] as f64 / 255.0, c[1] as f64 / 255.0, c[2] as f64 / 255.0, 1.0]);
    }
    if let Some(h) = l.strip_prefix('#') {
        if !h.chars().all(|c| c.is_ascii_hexdigit()) {
            return None;
        }
        let d: Vec<f64> = h.chars().map(|c| c.to_digit(16).unwrap() as f64).collect();
        return Some(match d.len() {
            3 => [d[0] / 15.0, d[1] / 15.0, d[2] / 15.0, 1.0],
            4 => [d[0] / 15.0, d[1] / 15.0, d[2] / 15.0, d[3] / 15.0],
            6 | 8 => {
                let b = |i: usize| (d[i] * 16.0 + d[i + 1]) / 255.0;
                [b(0), b(2), b(4), if d.len() == 8 { b(6) } else { 1.0 }]
            }
            _ => return None,
        });
    }
    let (f, rest) = l.split_once('(')?;
    let body = rest.strip_suffix(')')?;
    let parts: Vec<&str> = body.split([',', ' ', '/', '\t', '\n']).filter(|x| !x.is_empty()).collect();
    if parts.len() < 3 || parts.len() > 4 {
        return None;
    }
    let alpha = match parts.get(3) {
        None => 1.0,
        Some(a) => match a.strip_suffix('%') {
            Some(p) => number(p)? / 100.0,
            None => number(a)?,
        },
    }
    .clamp(0.0, 1.0);
    match f.trim() {
        "rgb" | "rgba" => {
            let ch = |x: &str| -> Option<f64> {
                Some(match x.strip_suffix('%') {
                    Some(p) => number(p)? / 100.0,
                    None => number(x)? / 255.0,
                }
                .clamp(0.0, 1.0))
            };
            Some([ch(parts[0])?, ch(parts[1])?, ch(parts[2])?, alpha])
        }
        "hsl" | "hsla" => {
            let h = number(parts[0].trim_end_matches("deg"))?.rem_euclid(360.0) / 60.0;
            let s = (number(parts[1].strip_suffix('%')?)? / 100.0).clamp(0.0, 1.0);
            let l = (number(parts[2].strip_suffix('%')?)? / 100.0).clamp(0.0, 1.0);
            let c = (1.0 - (2.0 * l - 1.0).abs()) * s;
            let x = c * (1.0 - (h % 2.0 - 1.0).abs());
            let (r, g, b) = match h as i32 {
                0 => (c, x, 0.0),
                1 => (x, c, 0.0),
                2 => (0.0, c, x),
                3 => (0.0, x, c),
                4 => (x, 0.0, c),
                _ => (c, 0.0, x),
            };
            let m = l - c / 2.0;
            Some([r + m, g + m, b + m, alpha])
        }
        _ => None,
    }
}

// ---------------------------------------------------------------- transforms

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct M(pub [f64; 6]);
pub const ID: M = M([1.0, 0.0, 0.0, 1.0, 0.0, 0.0]);
impl M {
    /// self ∘ o: applies o first.
    pub fn mul(&self, o: &M) -> M {
        let (a, b) = (&self.0, &o.0);
        M([
            a[0] * b[0] + a[2] * b[1],
            a[1] * b[0] + a[3] * b[1],
            a[0] * b[2] + a[2] * b[3],
            a[1] * b[2] + a[3] * b[3],
            a[0] * b[4] + a[2] * b[5] + a[4],
            a[1] * b[4] + a[3] * b[5] + a[5],
        ])
    }
    pub fn apply(&self, p: P) -> P {
        let m = &self.0;
        (m[0] * p.0 + m[2] * p.1 + m[4], m[1] * p.0 + m[3] * p.1 + m[5])
    }
    pub fn det(&self) -> f64 {
        self.0[0] * self.0[3] - self.0[1] * self.0[2]
    }
    pub fn inverse(&self) -> Option<M> {
        let d = self.det();
        if d.abs() < 1e-12 || !d.is_finite() {
            return None;
        }
        let m = &self.0;
        Some(M([m[3] / d, -m[1] / d, -m[2] / d, m[0] / d, (m[2] * m[5] - m[3] * m[4]) / d, (m[1] * m[4] - m[0] * m[5]) / d]))
    }
    pub fn translate(x: f64, y: f64) -> M {
        M([1.0, 0.0, 0.0, 1.0, x, y])
    }
    pub fn scale(x: f64, y: f64) -> M {
        M([x, 0.0, 0.0, y, 0.0, 0.0])
    }
}

/// A transform list as in the attribute (or, with units, the CSS property).
pub fn transform(s: &str) -> Option<M> {
    let mut m = ID;
    let mut rest = s.trim();
    if rest == "none" {
        return Some(ID);
    }
    while !rest.is_empty() {
        let open = rest.find('(')?;
        let name = rest[..open].trim();
        let close = open + rest[open..].find(')')?;
        let body = &rest[open + 1..close];
        rest = rest[close + 1..].trim_start().trim_start_matches(',').trim_start();
        let a = numbers(body)?;
        let one = match (name, a.len()) {
            ("matrix", 6) => M([a[0], a[1], a[2], a[3], a[4], a[5]]),
            ("translate", 1) => M::translate(a[0], 0.0),
            ("translate", 2) => M::translate(a[0], a[1]),
            ("translateX", 1) => M::translate(a[0], 0.0),
            ("translateY", 1) => M::translate(0.0, a[0]),
            ("scale", 1) => M::scale(a[0], a[0]),
            ("scale", 2) => M::scale(a[0], a[1]),
            ("scaleX", 1) => M::scale(a[0], 1.0),
            ("scaleY", 1) => M::scale(1.0, a[0]),
            ("rotate", 1) | ("rotate", 3) => {
                let (s, c) = a[0].to_radians().sin_cos();
                let r = M([c, s, -s, c, 0.0, 0.0]);
                if a.len() == 3 { M::translate(a[1], a[2]).mul(&r).mul(&M::translate(-a[1], -a[2])) } else { r }
            }
            ("skewX", 1) => M([1.0, 0.0, a[0].to_radians().tan(), 1.0, 0.0, 0.0]),
            ("skewY", 1) => M([1.0, a[0].to_radians().tan(), 0.0, 1.0, 0.0, 0.0]),
            _ => return None,
        };
        m = m.mul(&one);
    }
    Some(m)
}

/// Numbers separated by whitespace and/or one comma, or by nothing where unambiguous.
pub fn numbers(s: &str) -> Option<Vec<f64>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let ws = |i: &mut usize| {
        while *i < b.len() && b[*i].is_ascii_whitespace() {
            *i += 1;
        }
    };
    ws(&mut i);
    while i < b.len() {
        let st = i;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        let ds = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i < b.len() && b[i] == b'.' && b.get(i + 1).is_some_and(|c| c.is_ascii_digit()) {
            i += 1;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
        }
        if i == ds {
            return None;
        }
        if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
            let mut j = i + 1;
            if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
                j += 1;
            }
            if j < b.len() && b[j].is_ascii_digit() {
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                i = j;
            }
        }
        out.push(s[st..i].parse().ok()?);
        // units of the CSS property
        for u in ["deg", "px"] {
            if s[i..].starts_with(u) {
                i += u.len();
            }
        }
        ws(&mut i);
        if i < b.len() && b[i] == b',' {
            i += 1;
            ws(&mut i);
            if i >= b.len() {
                return None;
            }
        }
    }
    Some(out)
}

// ---------------------------------------------------------------- scene

#[derive(Debug)]
pub enum Paint {
    Solid(Rgba),
    Linear { m: M, x1: f64, y1: f64, x2: f64, y2: f64, stops: Vec<(f64, Rgba)>, spread: u8 },
    Radial { m: M, c: P, r: f64, f: P, stops: Vec<(f64, Rgba)>, spread: u8 },
    Pattern { m: M, x: f64, y: f64, w: f64, h: f64, content: Rc<Node> },
}

#[derive(Debug)]
pub struct Stroke {
    width: f64,
    cap: u8,
    join: u8,
    miter: f64,
    /// Polylines (dashes already cut), and whether they are closed.
    lines: Vec<(Vec<P>, bool)>,
    /// Vertices of the path: only these have joins, other points lie on curves.
    verts: Vec<P>,
    paint: Paint,
    opacity: f64,
}

#[derive(Debug)]
pub struct Leaf {
    inv: M,
    subs: Vec<Sub>,
    evenodd: bool,
    fill: Option<(Paint, f64)>,
    stroke: Option<Stroke>,
    stroke_first: bool,
}

#[derive(Debug)]
pub enum Kind {
    Group(Vec<Node>),
    Leaf(Box<Leaf>),
}

#[derive(Debug)]
pub struct Node {
    opacity: f64,
    clips: Vec<Clip>,
    mask: Option<Box<(Node, bool, Option<(M, [f64; 4])>)>>,
    /// A filter is opaque to the interpreter: it recolours what it is applied to by its definition.
    filter: u64,
    /// Follows the coordinate system the filter works in.
    filter_scale: f64,
    blend: u64,
    kind: Kind,
    /// Identifies the painted element for messages.
    pub what: String,
}

/// A clipping region: the union of shapes, itself possibly clipped.
#[derive(Debug)]
pub struct Clip {
    shapes: Vec<(M, Vec<Sub>, bool, Vec<Clip>)>,
    own: Vec<Clip>,
}

#[derive(Default)]
struct TextState {
    /// A following space is dropped.
    collapse: bool,
    /// x, y, dx and dy for the next character.
    pending: [Option<f64>; 4],
    drawn: usize,
}

pub struct Scene {
    pub root: Node,
    pub size: (f64, f64),
    /// Points of interest in viewport coordinates.
    pub points: Vec<P>,
    pub leaves: usize,
    /// Too much content to paint all of it.
    pub truncated: bool,
}

struct Builder<'a> {
    d: &'a Doc,
    points: Vec<P>,
    leaves: usize,
    tol: f64,
    depth: usize,
    in_marker: bool,
    steps: usize,
    truncated: bool,
    /// Paint servers being painted.
    active: Vec<usize>,
}

#[derive(Clone)]
struct Env {
    ctm: M,
    style: Style,
    vw: f64,
    vh: f64,
}

fn hash_of(x: impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn recolor(c: Rgba, h: u64) -> Rgba {
    // premultiplied or opaque
    let f = |k: u32, x: f64| x * 0.3 + c[3] * 0.7 * ((h >> (k * 8)) & 0xff) as f64 / 255.0;
    [f(0, c[0]), f(1, c[1]), f(2, c[2]), c[3]]
}

pub fn get<'a>(st: &'a Style, k: &str) -> Option<&'a str> {
    st.get(k).map(|s| s.as_str())
}

fn opacity_value(s: Option<&str>) -> f64 {
    let Some(s) = s else { return 1.0 };
    match s.trim().strip_suffix('%') {
        Some(p) => number(p).unwrap_or(100.0) / 100.0,
        None => number(s).unwrap_or(1.0),
    }
    .clamp(0.0, 1.0)
}

pub fn url_ref(s: &str) -> Option<(String, String)> {
    let s = s.trim();
    let r = s.strip_prefix("url(")?;
    let e = r.find(')')?;
    let u = r[..e].trim().trim_matches(['"', '\'']).trim();
    Some((u.strip_prefix('#')?.to_string(), r[e + 1..].trim().to_string()))
}

fn font_size(st: &Style) -> f64 {
    get(st, "font-size")
        .and_then(|s| match s.trim() {
            "medium" => Some(16.0),
            "small" => Some(13.0),
            "large" => Some(18.0),
            s => length(s, 16.0, 16.0),
        })
        .unwrap_or(16.0)
}

pub fn scene(d: &Doc) -> Scene {
    let el = &d.els[0];
    let mut b = Builder { d, points: vec![], leaves: 0, tol: 0.01, depth: 0, in_marker: false, steps: 0, truncated: false, active: vec![] };
    let w = el.get("width").and_then(|s| length(s, 100.0, 16.0)).filter(|_| !el.get("width").unwrap_or("").contains('%'));
    let h = el.get("height").and_then(|s| length(s, 100.0, 16.0)).filter(|_| !el.get("height").unwrap_or("").contains('%'));
    let vb = el.get("viewBox").and_then(numbers).filter(|v| v.len() == 4);
    let (dw, dh) = match (&vb, w, h) {
        (Some(v), Some(w), None) => (w, if v[2] > 0.0 { w * v[3] / v[2] } else { 100.0 }),
        (Some(v), None, Some(h)) => (if v[3] > 0.0 { h * v[2] / v[3] } else { 100.0 }, h),
        (_, w, h) => (w.unwrap_or(100.0), h.unwrap_or(100.0)),
    };
    let (m, vw, vh) = viewbox(vb.as_deref(), el.get("preserveAspectRatio"), dw, dh);
    let st = dom::style(d, 0, &Style::new());
    let env = Env { ctm: m, style: st.clone(), vw, vh };
    let mut kids = vec![];
    if el.is("svg") && get(&st, "display") != Some("none") {
        for c in d.child_els(0) {
            b.node(c, &env, &mut kids);
        }
    }
    let mut root = group(kids, "svg");
    b.effects(&mut root, 0, &env, None);
    Scene { root, size: (dw, dh), points: b.points, leaves: b.leaves, truncated: b.truncated }
}

fn group(kids: Vec<Node>, what: &str) -> Node {
    Node { opacity: 1.0, clips: vec![], mask: None, filter: 0, filter_scale: 1.0, blend: 0, kind: Kind::Group(kids), what: what.into() }
}

/// Maps a viewBox to a viewport of the given size.
fn viewbox(vb: Option<&[f64]>, par: Option<&str>, w: f64, h: f64) -> (M, f64, f64) {
    let Some(v) = vb else { return (ID, w, h) };
    if v[2] <= 0.0 || v[3] <= 0.0 {
        return (ID, w, h);
    }
    let (mut sx, mut sy) = (w / v[2], h / v[3]);
    let par = par.unwrap_or("xMidYMid meet");
    let mut it = par.split_whitespace();
    let align = it.next().unwrap_or("xMidYMid");
    let slice = it.next() == Some("slice");
    if align != "none" {
        let s = if slice { sx.max(sy) } else { sx.min(sy) };
        sx = s;
        sy = s;
    }
    let fx = if align.starts_with("xMin") { 0.0 } else if align.starts_with("xMax") { 1.0 } else { 0.5 };
    let fy = if align.ends_with("YMin") { 0.0 } else if align.ends_with("YMax") { 1.0 } else { 0.5 };
    let (tx, ty) = if align == "none" { (0.0, 0.0) } else { ((w - v[2] * sx) * fx, (h - v[3] * sy) * fy) };
    (M([sx, 0.0, 0.0, sy, tx - v[0] * sx, ty - v[1] * sy]), v[2], v[3])
}

impl Builder<'_> {
    fn local_transform(&self, e: usize, st: &Style) -> Option<M> {
        // the CSS property wins over the attribute
        match st.get("transform") {
            Some(t) => transform(t),
            None => match self.d.els[e].get("transform") {
                // an attribute in error is ignored
                Some(t) => Some(transform(t).unwrap_or(ID)),
                None => Some(ID),
            },
        }
    }

    /// Adds what the element paints.
    fn node(&mut self, e: usize, env: &Env, out: &mut Vec<Node>) {
        self.steps += 1;
        if self.depth > 40 || self.steps > 4000 {
            self.truncated = true;
            return;
        }
        let el = &self.d.els[e];
        if el.ns != dom::SVG {
            return;
        }
        let st = dom::style(self.d, e, &env.style);
        if get(&st, "display") == Some("none") {
            return;
        }
        let Some(t) = self.local_transform(e, &st) else { return };
        let ctm = env.ctm.mul(&t);
        let mut env = Env { ctm, style: st, vw: env.vw, vh: env.vh };
        self.depth += 1;
        let mut bbox: Option<[f64; 4]> = None;
        let node = match el.name.as_str() {
            "g" | "a" | "switch" => {
                let mut kids = vec![];
                for c in self.d.child_els(e) {
                    self.node(c, &env, &mut kids);
                    if el.name == "switch" && !kids.is_empty() {
                        break;
                    }
                }
                Some(group(kids, &el.name))
            }
            "svg" => {
                let x = el.get("x").and_then(|s| length(s, env.vw, font_size(&env.style))).unwrap_or(0.0);
                let y = el.get("y").and_then(|s| length(s, env.vh, font_size(&env.style))).unwrap_or(0.0);
                let w = el.get("width").and_then(|s| length(s, env.vw, font_size(&env.style))).unwrap_or(env.vw);
                let h = el.get("height").and_then(|s| length(s, env.vh, font_size(&env.style))).unwrap_or(env.vh);
                self.viewport(e, &mut env, x, y, w, h)
            }
            "use" => self.use_element(e, &mut env),
            "path" | "rect" | "circle" | "ellipse" | "line" | "polyline" | "polygon" => {
                let r = self.shape(e, &env).and_then(|cmds| {
                    let (n, b) = self.leaf(&cmds, e, &env);
                    bbox = b;
                    n
                });
                r
            }
            "text" => {
                let mut kids = vec![];
                let mut pos = (0.0, 0.0);
                let mut state = TextState { collapse: true, ..TextState::default() };
                self.text(e, &env, &mut pos, &mut state, &mut kids);
                Some(group(kids, "text"))
            }
            "image" => {
                let l = |n: &str, p: f64| el.get(n).and_then(|s| length(s, p, font_size(&env.style))).unwrap_or(0.0);
                let (x, y, w, h) = (l("x", env.vw), l("y", env.vh), l("width", env.vw), l("height", env.vh));
                let vis = get(&env.style, "visibility").unwrap_or("visible") == "visible";
                if w > 0.0 && h > 0.0 && vis && el.href().is_some_and(|h| !h.is_empty()) {
                    let token = hash_of((el.href(), el.get("preserveAspectRatio").unwrap_or("")));
                    let (n, b) = self.solid_rect(&env, x, y, w, h, recolor([0.5, 0.5, 0.5, 1.0], token), "image");
                    bbox = b;
                    Some(n)
                } else {
                    None
                }
            }
            _ => None,
        };
        self.depth -= 1;
        if let Some(mut n) = node {
            let bb = bbox.or_else(|| self.group_bbox(e));
            let _ = bb;
            self.effects(&mut n, e, &env, bbox);
            out.push(n);
        }
    }

    fn group_bbox(&self, _e: usize) -> Option<[f64; 4]> {
        None
    }

    fn solid_rect(&mut self, env: &Env, x: f64, y: f64, w: f64, h: f64, c: Rgba, what: &str) -> (Node, Option<[f64; 4]>) {
        let subs = vec![Sub { pts: [(x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)].iter().map(|p| env.ctm.apply(*p)).collect(), closed: true, ..Sub::default() }];
        self.points.extend(subs[0].pts.iter());
        self.leaves += 1;
        let leaf = Leaf { inv: env.ctm.inverse().unwrap_or(ID), subs, evenodd: false, fill: Some((Paint::Solid(c), 1.0)), stroke: None, stroke_first: false };
        (Node { opacity: 1.0, clips: vec![], mask: None, filter: 0, filter_scale: 1.0, blend: 0, kind: Kind::Leaf(Box::new(leaf)), what: what.into() }, Some([x, y, w, h]))
    }

    fn viewport(&mut self, e: usize, env: &mut Env, x: f64, y: f64, w: f64, h: f64) -> Option<Node> {
        let el = &self.d.els[e];
        if w <= 0.0 || h <= 0.0 {
            return None;
        }
        let vb = el.get("viewBox").and_then(numbers).filter(|v| v.len() == 4);
        if vb.as_ref().is_some_and(|v| v[2] <= 0.0 || v[3] <= 0.0) {
            return None;
        }
        let (m, vw, vh) = viewbox(vb.as_deref(), el.get("preserveAspectRatio"), w, h);
        let outer = env.ctm;
        env.ctm = outer.mul(&M::translate(x, y)).mul(&m);
        env.vw = vw;
        env.vh = vh;
        let mut kids = vec![];
        for c in self.d.child_els(e) {
            self.node(c, env, &mut kids);
        }
        let mut n = group(kids, &el.name);
        if !matches!(get(&env.style, "overflow"), Some("visible" | "auto")) {
            let rect = vec![Sub { pts: vec![(x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)], closed: true, ..Sub::default() }];
            n.clips.push(Clip { shapes: vec![(outer.inverse()?, rect, false, vec![])], own: vec![] });
        }
        Some(n)
    }

    fn use_element(&mut self, e: usize, env: &mut Env) -> Option<Node> {
        let el = &self.d.els[e];
        let target = self.d.by_id(el.href()?.trim().strip_prefix('#')?)?;
        // a reference to an ancestor is an error
        let mut p = Some(e);
        while let Some(x) = p {
            if x == target {
                return None;
            }
            p = self.d.els[x].parent;
        }
        let fs = font_size(&env.style);
        let x = el.get("x").and_then(|s| length(s, env.vw, fs)).unwrap_or(0.0);
        let y = el.get("y").and_then(|s| length(s, env.vh, fs)).unwrap_or(0.0);
        env.ctm = env.ctm.mul(&M::translate(x, y));
        let t = &self.d.els[target];
        let mut kids = vec![];
        if t.is("symbol") || t.is("svg") {
            let st = dom::style(self.d, target, &env.style);
            if get(&st, "display") == Some("none") {
                return None;
            }
            let size = |n: &str, full: f64| el.get(n).or_else(|| t.get(n)).and_then(|s| length(s, full, fs)).unwrap_or(full);
            let (w, h) = (size("width", env.vw), size("height", env.vh));
            let m = self.local_transform(target, &st)?;
            let mut inner = Env { ctm: env.ctm.mul(&m), style: st, vw: env.vw, vh: env.vh };
            self.depth += 1;
            let mut n = self.viewport(target, &mut inner, 0.0, 0.0, w, h);
            if let Some(n) = &mut n {
                self.effects(n, target, &inner, None);
            }
            self.depth -= 1;
            kids.extend(n);
        } else {
            self.node(target, env, &mut kids);
        }
        Some(group(kids, "use"))
    }

    fn text(&mut self, e: usize, env: &Env, pos: &mut P, state: &mut TextState, out: &mut Vec<Node>) {
        let el = &self.d.els[e];
        let fs = font_size(&env.style);
        let list = |n: &str, p: f64| el.get(n).and_then(|s| length(s.split([' ', ',']).next().unwrap_or(""), p, fs));
        // positions apply to the first rendered character of the element, innermost first
        let (outer, drawn) = (state.pending, state.drawn);
        for (slot, (n, p)) in [("x", env.vw), ("y", env.vh), ("dx", env.vw), ("dy", env.vh)].into_iter().enumerate() {
            if let Some(v) = list(n, p) {
                state.pending[slot] = Some(v);
            }
        }
        let mut preserve = false;
        let mut p = Some(e);
        while let Some(x) = p {
            if let Some(v) = self.d.els[x].get_ns(dom::XML, "space") {
                preserve = v == "preserve";
                break;
            }
            p = self.d.els[x].parent;
        }
        for c in self.d.els[e].children.clone() {
            match c {
                Child::Text(t) => {
                    let mut s = String::new();
                    for ch in t.chars() {
                        let ch = if ch.is_ascii_whitespace() {
                            ' '
                        } else {
                            ch
                        };
                        if ch == ' ' && !preserve && state.collapse {
                            continue;
                        }
                        state.collapse = ch == ' ';
                        s.push(ch);
                    }
                    if !s.is_empty() {
                        let p = std::mem::take(&mut state.pending);
                        *pos = (p[0].unwrap_or(pos.0) + p[2].unwrap_or(0.0), p[1].unwrap_or(pos.1) + p[3].unwrap_or(0.0));
                        state.drawn += 1;
                    }
                    // a trailing space is only visible when more text follows
                    let visible = s.trim_end();
                    let paint = self.paint("fill", "fill-opacity", env, None);
                    if !visible.is_empty() && get(&env.style, "visibility").unwrap_or("visible") == "visible" {
                        if let Some((Paint::Solid(c), o)) = paint {
                            let fonts: Vec<String> = ["font-family", "font-weight", "font-style", "letter-spacing", "text-anchor", "text-decoration", "font-variant", "word-spacing"]
                                .iter()
                                .map(|k| get(&env.style, k).unwrap_or("").chars().filter(|c| !c.is_whitespace() && *c != '"' && *c != '\'').collect::<String>().to_ascii_lowercase())
                                .map(|v| match v.as_str() {
                                    "normal" | "start" | "none" => String::new(),
                                    "400" => String::new(),
                                    "bold" => "700".into(),
                                    _ => v,
                                })
                                .collect();
                            for (k, ch) in visible.chars().enumerate().filter(|c| c.1 != ' ') {
                                let tok = hash_of((ch, &fonts));
                                let (mut n, _) = self.solid_rect(env, pos.0 + 0.6 * fs * k as f64, pos.1 - fs, 0.6 * fs, fs, recolor(c, tok), "text");
                                n.opacity = o;
                                out.push(n);
                            }
                        }
                    }
                    pos.0 += 0.6 * fs * s.chars().count() as f64;
                }
                Child::El(i) => {
                    if !matches!(self.d.els[i].name.as_str(), "tspan" | "a" | "textPath") || self.d.els[i].ns != dom::SVG {
                        continue;
                    }
                    let st = dom::style(self.d, i, &env.style);
                    if get(&st, "display") == Some("none") {
                        continue;
                    }
                    let env2 = Env { style: st, ..env.clone() };
                    let mut kids = vec![];
                    self.text(i, &env2, pos, state, &mut kids);
                    let mut n = group(kids, "tspan");
                    n.opacity = opacity_value(get(&env2.style, "opacity"));
                    out.push(n);
                }
            }
        }
        if state.drawn == drawn {
            state.pending = outer;
        }
    }

    /// The outline of a basic shape or path.
    fn shape(&self, e: usize, env: &Env) -> Option<Vec<Cmd>> {
        let el = &self.d.els[e];
        let fs = font_size(&env.style);
        let diag = ((env.vw * env.vw + env.vh * env.vh) / 2.0).sqrt();
        let l = |n: &str, p: f64| el.get(n).and_then(|s| length(s, p, fs));
        let cmd = |c: char, a: &[f64]| Cmd { c, a: a.to_vec() };
        Some(match el.name.as_str() {
            "path" => svgpath::read(el.get("d")?).cmds,
            "rect" => {
                let (x, y) = (l("x", env.vw).unwrap_or(0.0), l("y", env.vh).unwrap_or(0.0));
                let (w, h) = (l("width", env.vw).unwrap_or(0.0), l("height", env.vh).unwrap_or(0.0));
                if w <= 0.0 || h <= 0.0 {
                    return None;
                }
                let (rx, ry) = (l("rx", env.vw).filter(|v| *v >= 0.0), l("ry", env.vh).filter(|v| *v >= 0.0));
                let (rx, ry) = (rx.or(ry).unwrap_or(0.0).min(w / 2.0), ry.or(rx).unwrap_or(0.0).min(h / 2.0));
                if rx == 0.0 || ry == 0.0 {
                    vec![cmd('M', &[x, y]), cmd('H', &[x + w]), cmd('V', &[y + h]), cmd('H', &[x]), cmd('Z', &[])]
                } else {
                    let arc = |px: f64, py: f64| cmd('A', &[rx, ry, 0.0, 0.0, 1.0, px, py]);
                    vec![
                        cmd('M', &[x + rx, y]),
                        cmd('H', &[x + w - rx]),
                        arc(x + w, y + ry),
                        cmd('V', &[y + h - ry]),
                        arc(x + w - rx, y + h),
                        cmd('H', &[x + rx]),
                        arc(x, y + h - ry),
                        cmd('V', &[y + ry]),
                        arc(x + rx, y),
                        cmd('Z', &[]),
                    ]
                }
            }
            "circle" | "ellipse" => {
                let (x, y) = (l("cx", env.vw).unwrap_or(0.0), l("cy", env.vh).unwrap_or(0.0));
                let (rx, ry) = if el.name == "circle" {
                    let r = l("r", diag).unwrap_or(0.0);
                    (r, r)
                } else {
                    let (a, b) = (l("rx", env.vw), l("ry", env.vh));
                    (a.or(b).unwrap_or(0.0), b.or(a).unwrap_or(0.0))
                };
                if rx <= 0.0 || ry <= 0.0 {
                    return None;
                }
                let arc = |px: f64, py: f64| cmd('A', &[rx, ry, 0.0, 0.0, 1.0, px, py]);
                vec![cmd('M', &[x + rx, y]), arc(x, y + ry), arc(x - rx, y), arc(x, y - ry), arc(x + rx, y), cmd('Z', &[])]
            }
            "line" => {
                let c = |n: &str, p: f64| l(n, p).unwrap_or(0.0);
                vec![cmd('M', &[c("x1", env.vw), c("y1", env.vh)]), cmd('L', &[c("x2", env.vw), c("y2", env.vh)])]
            }
            _ => {
                let pts = numbers(el.get("points")?)?;
                let mut v: Vec<Cmd> = pts.chunks_exact(2).enumerate().map(|(i, p)| cmd(if i == 0 { 'M' } else { 'L' }, p)).collect();
                if v.is_empty() {
                    return None;
                }
                if el.name == "polygon" {
                    v.push(cmd('Z', &[]));
                }
                v
            }
        })
    }

    fn leaf(&mut self, cmds: &[Cmd], e: usize, env: &Env) -> (Option<Node>, Option<[f64; 4]>) {
        let scale = env.ctm.det().abs().sqrt().max(1e-3);
        let tol = (self.tol / scale).min(1.0);
        let local = geom::flatten(cmds, tol);
        let bbox = bbox_of(&local);
        let Some(inv) = env.ctm.inverse() else { return (None, bbox) };
        let st = &env.style;
        let visible = get(st, "visibility").unwrap_or("visible") == "visible";
        let fill = if visible { self.paint("fill", "fill-opacity", env, bbox) } else { None };
        let stroke = if visible { self.stroke(&local, geom::vertices(cmds), env, bbox) } else { None };
        let mut kids = vec![];
        // SVG 2 draws markers on every basic shape, but not within a marker
        if visible && !self.in_marker {
            self.in_marker = true;
            self.markers(cmds, env, &mut kids);
            self.in_marker = false;
        }
        let subs: Vec<Sub> = local.iter().map(|s| Sub { pts: s.pts.iter().map(|p| env.ctm.apply(*p)).collect(), ..s.clone() }).collect();
        for s in &subs {
            let step = (s.pts.len() / 24).max(1);
            self.points.extend(s.pts.iter().step_by(step));
        }
        self.leaves += 1;
        let order = get(st, "paint-order").unwrap_or("normal");
        let leaf = Leaf {
            inv,
            subs,
            evenodd: get(st, "fill-rule") == Some("evenodd"),
            fill,
            stroke,
            stroke_first: order.trim_start().starts_with("stroke"),
        };
        let what = match self.d.els[e].get("id") {
            Some(i) => format!("{}#{i}", self.d.els[e].name),
            None => self.d.els[e].name.clone(),
        };
        let n = Node { opacity: 1.0, clips: vec![], mask: None, filter: 0, filter_scale: 1.0, blend: 0, kind: Kind::Leaf(Box::new(leaf)), what: what.clone() };
        if kids.is_empty() {
            (Some(n), bbox)
        } else {
            let mut all = vec![n];
            all.extend(kids);
            (Some(group(all, &what)), bbox)
        }
    }

    fn markers(&mut self, cmds: &[Cmd], env: &Env, out: &mut Vec<Node>) {
        let get_marker = |k: &str| get(&env.style, k).and_then(url_ref).and_then(|(id, _)| self.d.by_id(&id)).filter(|i| self.d.els[*i].is("marker"));
        let ms = [get_marker("marker-start"), get_marker("marker-mid"), get_marker("marker-end")];
        if ms.iter().all(|m| m.is_none()) || self.depth > 34 {
            return;
        }
        let verts = geom::vertices(cmds);
        let sw = get(&env.style, "stroke-width").and_then(|s| length(s, env.vw, font_size(&env.style))).unwrap_or(1.0);
        let n = verts.len();
        for (i, v) in verts.iter().enumerate() {
            let mut which = vec![];
            if i == 0 {
                which.push(ms[0]);
            }
            if i > 0 && i + 1 < n {
                which.push(ms[1]);
            }
            if i + 1 == n {
                which.push(ms[2]);
            }
            for m in which.into_iter().flatten() {
                let el = &self.d.els[m];
                let f = |k: &str, d: f64| el.get(k).and_then(|s| length(s, 100.0, 16.0)).unwrap_or(d);
                let (w, h) = (f("markerWidth", 3.0), f("markerHeight", 3.0));
                let units = if el.get("markerUnits") == Some("userSpaceOnUse") { 1.0 } else { sw };
                let vb = el.get("viewBox").and_then(numbers).filter(|v| v.len() == 4);
                let (vm, _, _) = viewbox(vb.as_deref(), el.get("preserveAspectRatio"), w, h);
                let r = vm.apply((f("refX", 0.0), f("refY", 0.0)));
                let angle = el.get("orient").and_then(number).unwrap_or(0.0);
                let (sn, cs) = angle.to_radians().sin_cos();
                let outer = env.ctm.mul(&M::translate(v.0, v.1)).mul(&M([cs, sn, -sn, cs, 0.0, 0.0])).mul(&M::scale(units, units)).mul(&M::translate(-r.0, -r.1));
                // properties are inherited from the marker's own ancestors
                let st = self.style_at(m);
                let e2 = Env { ctm: outer.mul(&vm), style: st.clone(), vw: env.vw, vh: env.vh };
                let mut kids = vec![];
                self.depth += 1;
                for c in self.d.child_els(m) {
                    self.node(c, &e2, &mut kids);
                }
                self.depth -= 1;
                let mut g = group(kids, "marker");
                if !matches!(get(&st, "overflow"), Some("visible" | "auto")) {
                    if let Some(inv) = outer.inverse() {
                        let rect = vec![Sub { pts: vec![(0.0, 0.0), (w, 0.0), (w, h), (0.0, h), (0.0, 0.0)], closed: true, ..Sub::default() }];
                        g.clips.push(Clip { shapes: vec![(inv, rect, false, vec![])], own: vec![] });
                    }
                }
                g.opacity = opacity_value(get(&st, "opacity"));
                out.push(g);
            }
        }
    }

    /// Computed style of an element at its place in the document.
    pub fn style_at(&self, e: usize) -> Style {
        let parent = match self.d.els[e].parent {
            Some(p) => self.style_at(p),
            None => Style::new(),
        };
        dom::style(self.d, e, &parent)
    }

    fn current(&self, st: &Style) -> Rgba {
        get(st, "color").and_then(|c| color(c, [0.0, 0.0, 0.0, 1.0])).unwrap_or([0.0, 0.0, 0.0, 1.0])
    }

    fn paint(&mut self, prop: &str, op: &str, env: &Env, bbox: Option<[f64; 4]>) -> Option<(Paint, f64)> {
        let st = &env.style;
        let o = opacity_value(get(st, op));
        let v = get(st, prop).unwrap_or(if prop == "fill" { "black" } else { "none" }).trim().to_string();
        if v == "none" {
            return None;
        }
        let cur = self.current(st);
        if let Some((id, fallback)) = url_ref(&v) {
            let t = self.d.by_id(&id);
            if let Some(t) = t {
                match self.d.els[t].name.as_str() {
                    "linearGradient" | "radialGradient" if self.d.els[t].ns == dom::SVG => return self.gradient(t, env, bbox).map(|p| (p, o)),
                    "pattern" if self.d.els[t].ns == dom::SVG => return self.pattern(t, env, bbox).map(|p| (p, o)),
                    _ => {}
                }
            }
            if fallback.is_empty() || fallback == "none" {
                return None;
            }
            return color(&fallback, cur).map(|c| (Paint::Solid(c), o));
        }
        match color(&v, cur) {
            Some(c) => Some((Paint::Solid(c), o)),
            None => None,
        }
    }

    fn href_chain(&self, t: usize) -> Vec<usize> {
        let mut out = vec![t];
        while let Some(n) = self.d.els[*out.last().unwrap()].href().and_then(|h| h.trim().strip_prefix('#').map(str::to_string)).and_then(|h| self.d.by_id(&h)) {
            if out.contains(&n) {
                break;
            }
            out.push(n);
        }
        out
    }

    fn gradient(&mut self, t: usize, env: &Env, bbox: Option<[f64; 4]>) -> Option<Paint> {
        let chain = self.href_chain(t);
        let d = self.d;
        let attr = |n: &str| chain.iter().find_map(|i| d.els[*i].get(n));
        let same = |n: &str| chain.iter().filter(|i| d.els[**i].name == d.els[t].name).find_map(|i| d.els[*i].get(n));
        let mut stops: Vec<(f64, Rgba)> = vec![];
        for i in &chain {
            let kids: Vec<usize> = d.child_els(*i).into_iter().filter(|c| d.els[*c].is("stop")).collect();
            if kids.is_empty() {
                continue;
            }
            for c in kids {
                let st = self.style_at(c);
                let mut col = get(&st, "stop-color").and_then(|s| color(s, self.current(&st))).unwrap_or([0.0, 0.0, 0.0, 1.0]);
                col[3] *= opacity_value(get(&st, "stop-opacity"));
                let o = d.els[c].get("offset").unwrap_or("0");
                let o = match o.trim().strip_suffix('%') {
                    Some(p) => number(p).unwrap_or(0.0) / 100.0,
                    None => number(o).unwrap_or(0.0),
                }
                .clamp(0.0, 1.0);
                let o = stops.last().map_or(o, |l| o.max(l.0));
                stops.push((o, col));
            }
            break;
        }
        if stops.is_empty() {
            return None;
        }
        if stops.len() == 1 {
            return Some(Paint::Solid(stops[0].1));
        }
        let obb = attr("gradientUnits").unwrap_or("objectBoundingBox") != "userSpaceOnUse";
        let mut m = attr("gradientTransform").and_then(transform).unwrap_or(ID);
        if obb {
            let b = bbox?;
            if b[2] <= 0.0 || b[3] <= 0.0 {
                return None;
            }
            m = M([b[2], 0.0, 0.0, b[3], b[0], b[1]]).mul(&m);
        }
        let (pw, ph) = if obb { (1.0, 1.0) } else { (env.vw, env.vh) };
        let pd = if obb { 1.0 } else { ((env.vw * env.vw + env.vh * env.vh) / 2.0).sqrt() };
        let spread = match attr("spreadMethod") {
            Some("reflect") => 1,
            Some("repeat") => 2,
            _ => 0,
        };
        let len = |n: &str, p: f64, dflt: f64| same(n).and_then(|s| length(s, p, 16.0)).unwrap_or(dflt);
        let inv = env.ctm.mul(&m).inverse()?;
        Some(if d.els[t].name == "linearGradient" {
            Paint::Linear { m: inv, x1: len("x1", pw, 0.0), y1: len("y1", ph, 0.0), x2: len("x2", pw, pw), y2: len("y2", ph, 0.0), stops, spread }
        } else {
            let (cx, cy) = (len("cx", pw, 0.5 * pw), len("cy", ph, 0.5 * ph));
            Paint::Radial { m: inv, c: (cx, cy), r: len("r", pd, 0.5 * pd), f: (len("fx", pw, cx), len("fy", ph, cy)), stops, spread }
        })
    }

    fn pattern(&mut self, t: usize, env: &Env, bbox: Option<[f64; 4]>) -> Option<Paint> {
        // a pattern within itself is an error
        if self.active.contains(&t) {
            return None;
        }
        let chain = self.href_chain(t);
        let d = self.d;
        let attr = |n: &str| chain.iter().find_map(|i| d.els[*i].get(n));
        let obb = attr("patternUnits").unwrap_or("objectBoundingBox") != "userSpaceOnUse";
        let (pw, ph) = if obb { (1.0, 1.0) } else { (env.vw, env.vh) };
        let len = |n: &str, p: f64| attr(n).and_then(|s| length(s, p, 16.0)).unwrap_or(0.0);
        let (mut x, mut y, mut w, mut h) = (len("x", pw), len("y", ph), len("width", pw), len("height", ph));
        if obb {
            let b = bbox?;
            (x, y, w, h) = (b[0] + x * b[2], b[1] + y * b[3], w * b[2], h * b[3]);
        }
        if w <= 0.0 || h <= 0.0 {
            return None;
        }
        let m = attr("patternTransform").and_then(transform).unwrap_or(ID);
        let mut content = ID;
        if let Some(vb) = attr("viewBox").and_then(numbers).filter(|v| v.len() == 4) {
            let (vm, _, _) = viewbox(Some(&vb), attr("preserveAspectRatio"), w, h);
            content = vm;
        } else if attr("patternContentUnits") == Some("objectBoundingBox") {
            let b = bbox?;
            content = M::scale(b[2], b[3]);
        }
        let src = *chain.iter().find(|i| !d.child_els(**i).is_empty())?;
        let st = self.style_at(src);
        // the tile's own coordinates: origin at the tile's corner
        let vb = attr("viewBox").is_some();
        let e2 = Env { ctm: if vb { content } else { M::translate(-x, -y).mul(&content) }, style: st, vw: env.vw, vh: env.vh };
        let mut kids = vec![];
        let (pts, leaves) = (std::mem::take(&mut self.points), self.leaves);
        self.depth += 1;
        self.active.push(t);
        for c in d.child_els(src) {
            self.node(c, &e2, &mut kids);
        }
        self.active.pop();
        self.depth -= 1;
        self.points = pts;
        self.leaves = leaves;
        Some(Paint::Pattern { m: env.ctm.mul(&m).inverse()?, x, y, w, h, content: Rc::new(group(kids, "pattern")) })
    }

    fn stroke(&mut self, local: &[Sub], verts: Vec<P>, env: &Env, bbox: Option<[f64; 4]>) -> Option<Stroke> {
        let st = env.style.clone();
        let (paint, opacity) = self.paint("stroke", "stroke-opacity", env, bbox)?;
        let diag = ((env.vw * env.vw + env.vh * env.vh) / 2.0).sqrt();
        let width = get(&st, "stroke-width").and_then(|s| length(s, diag, font_size(&st))).unwrap_or(1.0);
        if width <= 0.0 {
            return None;
        }
        let mut dash: Vec<f64> = get(&st, "stroke-dasharray")
            .filter(|s| s.trim() != "none")
            .map(|s| s.split([' ', ',']).filter(|x| !x.is_empty()).filter_map(|x| length(x, diag, font_size(&st))).collect())
            .unwrap_or_default();
        if dash.iter().any(|d| *d < 0.0) || dash.iter().sum::<f64>() <= 1e-9 {
            dash.clear();
        }
        if dash.len() % 2 == 1 {
            dash = dash.iter().chain(&dash).copied().collect();
        }
        let off = get(&st, "stroke-dashoffset").and_then(|s| length(s, diag, font_size(&st))).unwrap_or(0.0);
        let mut lines = vec![];
        for s in local {
            // a move alone paints nothing
            if s.n == 0 && !s.closed {
                continue;
            }
            let mut pts = s.pts.clone();
            if s.closed && pts.last() != pts.first() {
                pts.push(pts[0]);
            }
            pts.dedup_by(|a, b| geom::dist(*a, *b) < 1e-9);
            if dash.is_empty() {
                lines.push((pts, s.closed));
                continue;
            }
            let total: f64 = dash.iter().sum();
            let mut pos = off.rem_euclid(total);
            let mut k = 0;
            while pos >= dash[k] {
                pos -= dash[k];
                k = (k + 1) % dash.len();
            }
            let mut left = dash[k] - pos;
            let mut cur: Vec<P> = if k % 2 == 0 { vec![pts[0]] } else { vec![] };
            let mut n = 0;
            for w in pts.windows(2) {
                let len = geom::dist(w[0], w[1]);
                let mut at = 0.0;
                while at + left < len && n < 5000 {
                    at += left;
                    let q = (w[0].0 + (w[1].0 - w[0].0) * at / len, w[0].1 + (w[1].1 - w[0].1) * at / len);
                    if k % 2 == 0 {
                        cur.push(q);
                        lines.push((std::mem::take(&mut cur), false));
                    } else {
                        cur = vec![q];
                    }
                    k = (k + 1) % dash.len();
                    left = dash[k];
                    n += 1;
                }
                left -= len - at;
                if k % 2 == 0 {
                    cur.push(w[1]);
                }
            }
            if cur.len() > 1 {
                lines.push((cur, false));
            }
        }
        let cap = match get(&st, "stroke-linecap") {
            Some("round") => 1,
            Some("square") => 2,
            _ => 0,
        };
        let join = match get(&st, "stroke-linejoin") {
            Some("round") => 1,
            Some("bevel") => 2,
            _ => 0,
        };
        let miter = get(&st, "stroke-miterlimit").and_then(number).unwrap_or(4.0);
        Some(Stroke { width, cap, join, miter, lines, verts, paint, opacity })
    }

    fn clip(&mut self, id: &str, env: &Env, bbox: Option<[f64; 4]>, depth: usize) -> Option<Clip> {
        let t = self.d.by_id(id)?;
        let el = &self.d.els[t];
        if !el.is("clipPath") || depth > 4 {
            return None;
        }
        let st = self.style_at(t);
        let m = self.local_transform(t, &st)?;
        let mut ctm = env.ctm.mul(&m);
        if el.get("clipPathUnits") == Some("objectBoundingBox") {
            let b = bbox?;
            ctm = ctm.mul(&M([b[2], 0.0, 0.0, b[3], b[0], b[1]]));
        }
        let e2 = Env { ctm, style: st.clone(), vw: env.vw, vh: env.vh };
        let mut out = Clip { shapes: vec![], own: vec![] };
        if let Some((id, _)) = get(&st, "clip-path").and_then(url_ref) {
            out.own.extend(self.clip(&id, &e2, bbox, depth + 1));
        }
        for c in self.d.child_els(t) {
            self.clip_child(c, &e2, &mut out, depth);
        }
        Some(out)
    }
    fn clip_child(&mut self, c: usize, env: &Env, out: &mut Clip, depth: usize) {
        let el = &self.d.els[c];
        let st = dom::style(self.d, c, &env.style);
        if el.ns != dom::SVG || get(&st, "display") == Some("none") || get(&st, "visibility").unwrap_or("visible") != "visible" {
            return;
        }
        let Some(m) = self.local_transform(c, &st) else { return };
        let mut e2 = Env { ctm: env.ctm.mul(&m), style: st, vw: env.vw, vh: env.vh };
        match el.name.as_str() {
            "path" | "rect" | "circle" | "ellipse" | "line" | "polyline" | "polygon" => {
                if let Some(cmds) = self.shape(c, &e2) {
                    let scale = e2.ctm.det().abs().sqrt().max(1e-3);
                    let subs = geom::flatten(&cmds, (self.tol / scale).min(1.0));
                    let own = match get(&e2.style, "clip-path").and_then(url_ref) {
                        Some((id, _)) => self.clip(&id, &e2, bbox_of(&subs), depth + 1).into_iter().collect(),
                        None => vec![],
                    };
                    if let Some(inv) = e2.ctm.inverse() {
                        for s in &subs {
                            self.points.extend(s.pts.iter().step_by((s.pts.len() / 12).max(1)).map(|p| e2.ctm.apply(*p)));
                        }
                        out.shapes.push((inv, subs, get(&e2.style, "clip-rule") == Some("evenodd"), own));
                    }
                }
            }
            "use" if depth < 4 => {
                let Some(t) = el.href().and_then(|h| h.trim().strip_prefix('#')).and_then(|h| self.d.by_id(h)) else { return };
                let x = el.get("x").and_then(|s| length(s, env.vw, 16.0)).unwrap_or(0.0);
                let y = el.get("y").and_then(|s| length(s, env.vh, 16.0)).unwrap_or(0.0);
                e2.ctm = e2.ctm.mul(&M::translate(x, y));
                if !matches!(self.d.els[t].name.as_str(), "use" | "g") {
                    self.clip_child(t, &e2, out, depth + 1);
                }
            }
            _ => {}
        }
    }

    fn effects(&mut self, n: &mut Node, e: usize, env: &Env, bbox: Option<[f64; 4]>) {
        let st = env.style.clone();
        n.opacity *= opacity_value(get(&st, "opacity"));
        if let Some((id, _)) = get(&st, "clip-path").and_then(url_ref) {
            if let Some(c) = self.clip(&id, env, bbox, 0) {
                n.clips.push(c);
            }
        }
        if let Some((id, _)) = get(&st, "filter").and_then(url_ref) {
            if let Some(t) = self.d.by_id(&id).filter(|t| self.d.els[*t].is("filter")) {
                let mut text = String::new();
                self.canonical(t, &mut text);
                n.filter = hash_of(text) | 1;
                let m = &env.ctm.0;
                n.filter_scale = 0.75 + 0.25 * (m[0] + 0.7 * m[1] - 0.5 * m[2] + 0.3 * m[3]).sin();
            }
        }
        if let Some(b) = get(&st, "mix-blend-mode").filter(|b| *b != "normal") {
            n.blend = hash_of(b) | 1;
        }
        if let Some((id, _)) = get(&st, "mask").and_then(url_ref) {
            if let Some(t) = self.d.by_id(&id).filter(|t| self.d.els[*t].is("mask")) {
                // a mask within itself is an error
                if !self.active.contains(&t) {
                    self.active.push(t);
                    let mst = self.style_at(t);
                    let mut ctm = env.ctm;
                    let obb = self.d.els[t].get("maskContentUnits") == Some("objectBoundingBox");
                    if obb {
                        match bbox {
                            Some(b) => ctm = ctm.mul(&M([b[2], 0.0, 0.0, b[3], b[0], b[1]])),
                            None => {
                                self.active.pop();
                                return;
                            }
                        }
                    }
                    let e2 = Env { ctm, style: mst.clone(), vw: env.vw, vh: env.vh };
                    let mut kids = vec![];
                    self.depth += 1;
                    for c in self.d.child_els(t) {
                        self.node(c, &e2, &mut kids);
                    }
                    self.active.pop();
                    self.depth -= 1;
                    let el = &self.d.els[t];
                    let user = el.get("maskUnits") == Some("userSpaceOnUse");
                    let f = |k: &str, p: f64, d: f64| el.get(k).and_then(|s| length(s, p, 16.0)).unwrap_or(d);
                    let region = if user {
                        Some([f("x", env.vw, -0.1 * env.vw), f("y", env.vh, -0.1 * env.vh), f("width", env.vw, 1.2 * env.vw), f("height", env.vh, 1.2 * env.vh)])
                    } else {
                        bbox.map(|b| [b[0] + b[2] * f("x", 1.0, -0.1), b[1] + b[3] * f("y", 1.0, -0.1), b[2] * f("width", 1.0, 1.2), b[3] * f("height", 1.0, 1.2)])
                    };
                    let alpha = get(&mst, "mask-type") == Some("alpha");
                    let region = region.and_then(|r| env.ctm.inverse().map(|i| (i, r)));
                    n.mask = Some(Box::new((group(kids, "mask"), alpha, region)));
                }
            }
        }
        let _ = e;
    }

    /// A spelling-independent rendition of a filter's definition.
    fn canonical(&self, e: usize, out: &mut String) {
        let el = &self.d.els[e];
        out.push_str(&el.name);
        let st = self.style_at(e);
        let mut at: Vec<(String, String)> = el
            .attrs
            .iter()
            .filter(|a| a.ns.is_empty() && a.name != "id" && a.name != "style" && a.name != "class" && !dom::is_property(&a.name))
            .map(|a| {
                let v = match numbers(&a.value) {
                    Some(n) => n.iter().map(|x| format!("{:.2} ", x)).collect(),
                    None => a.value.clone(),
                };
                (a.name.clone(), v)
            })
            .collect();
        for k in ["flood-color", "flood-opacity", "color-interpolation-filters"] {
            if let Some(v) = st.get(k) {
                let v = match color(v, [0.0; 4]) {
                    Some(c) => format!("{c:?}"),
                    None => v.clone(),
                };
                at.push((k.into(), v));
            }
        }
        at.sort();
        out.push_str(&format!("{at:?}"));
        for c in self.d.child_els(e) {
            out.push('(');
            self.canonical(c, out);
            out.push(')');
        }
    }
}

fn bbox_of(subs: &[Sub]) -> Option<[f64; 4]> {
    let (mut lo, mut hi) = ((f64::MAX, f64::MAX), (f64::MIN, f64::MIN));
    for p in subs.iter().filter(|s| s.n > 0 || s.closed).flat_map(|s| &s.pts) {
        lo = (lo.0.min(p.0), lo.1.min(p.1));
        hi = (hi.0.max(p.0), hi.1.max(p.1));
    }
    if lo.0 > hi.0 { None } else { Some([lo.0, lo.1, hi.0 - lo.0, hi.1 - lo.1]) }
}

// ---------------------------------------------------------------- evaluation

thread_local! {
    /// Set when a colour hangs on a detail that rounding may change.
    static UNSURE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn unsure() {
    UNSURE.with(|u| u.set(true));
}

fn over(dst: Rgba, src: Rgba) -> Rgba {
    let k = 1.0 - src[3];
    [src[0] + dst[0] * k, src[1] + dst[1] * k, src[2] + dst[2] * k, src[3] + dst[3] * k]
}

fn stop_color(stops: &[(f64, Rgba)], t: f64, spread: u8) -> Rgba {
    let t = match spread {
        1 => {
            let x = t.rem_euclid(2.0);
            if x > 1.0 { 2.0 - x } else { x }
        }
        2 => t.rem_euclid(1.0),
        _ => t.clamp(0.0, 1.0),
    };
    if t <= stops[0].0 {
        return stops[0].1;
    }
    for w in stops.windows(2) {
        if t <= w[1].0 {
            let k = if w[1].0 > w[0].0 { (t - w[0].0) / (w[1].0 - w[0].0) } else { 1.0 };
            let mut c = [0.0; 4];
            for i in 0..4 {
                c[i] = w[0].1[i] + (w[1].1[i] - w[0].1[i]) * k;
            }
            return c;
        }
    }
    stops.last().unwrap().1
}

impl Paint {
    /// Not premultiplied.
    fn at(&self, p: P) -> Rgba {
        match self {
            Paint::Solid(c) => *c,
            Paint::Linear { m, x1, y1, x2, y2, stops, spread } => {
                let q = m.apply(p);
                let (dx, dy) = (x2 - x1, y2 - y1);
                let l = dx * dx + dy * dy;
                if l == 0.0 {
                    return stops.last().unwrap().1;
                }
                stop_color(stops, ((q.0 - x1) * dx + (q.1 - y1) * dy) / l, *spread)
            }
            Paint::Radial { m, c, r, f, stops, spread } => {
                if *r <= 0.0 {
                    return stops.last().unwrap().1;
                }
                let q = m.apply(p);
                let (mut fx, mut fy) = *f;
                let d = geom::dist(*f, *c);
                if d >= *r {
                    fx = c.0 + (fx - c.0) * r * 0.999 / d;
                    fy = c.1 + (fy - c.1) * r * 0.999 / d;
                }
                // largest t with |q - (f + t (c - f))| = t r
                let (px, py) = (q.0 - fx, q.1 - fy);
                let (cx, cy) = (c.0 - fx, c.1 - fy);
                let a = cx * cx + cy * cy - r * r;
                let b = px * cx + py * cy;
                let cc = px * px + py * py;
                let t = (b - (b * b - a * cc).max(0.0).sqrt()) / a;
                stop_color(stops, t, *spread)
            }
            Paint::Pattern { m, x, y, w, h, content } => {
                let q = m.apply(p);
                let t = ((q.0 - x).rem_euclid(*w), (q.1 - y).rem_euclid(*h));
                let c = content.at(t);
                if c[3] <= 0.0 { [0.0; 4] } else { [c[0] / c[3], c[1] / c[3], c[2] / c[3], c[3]] }
            }
        }
    }
}

impl Stroke {
    fn covers(&self, q: P) -> bool {
        let h = self.width / 2.0;
        for (pts, closed) in &self.lines {
            if pts.len() < 2 {
                match self.cap {
                    1 if geom::dist(q, pts[0]) <= h => return true,
                    2 if (q.0 - pts[0].0).abs() <= h && (q.1 - pts[0].1).abs() <= h => return true,
                    _ => {}
                }
                continue;
            }
            let n = pts.len();
            for (i, w) in pts.windows(2).enumerate() {
                let (a, b) = (w[0], w[1]);
                let len = geom::dist(a, b);
                if len == 0.0 {
                    continue;
                }
                let (ux, uy) = ((b.0 - a.0) / len, (b.1 - a.1) / len);
                let t = (q.0 - a.0) * ux + (q.1 - a.1) * uy;
                let d = ((q.0 - a.0) * uy - (q.1 - a.1) * ux).abs();
                let first = i == 0 && !closed;
                let last = i + 2 == n && !closed;
                let lo = if first && self.cap == 2 { -h } else { 0.0 };
                let hi = if last && self.cap == 2 { len + h } else { len };
                if d <= h && t >= lo && t <= hi {
                    return true;
                }
                if self.cap == 1 && (first && geom::dist(q, a) <= h || last && geom::dist(q, b) <= h) {
                    return true;
                }
                // the join at b
                let c = if i + 2 < n {
                    pts[i + 2]
                } else if *closed && n > 2 {
                    pts[1]
                } else {
                    continue;
                };
                if geom::dist(q, b) > h * self.miter.max(1.0) {
                    continue;
                }
                let l2 = geom::dist(b, c);
                if l2 == 0.0 {
                    continue;
                }
                let (vx, vy) = ((c.0 - b.0) / l2, (c.1 - b.1) / l2);
                let cross = ux * vy - uy * vx;
                let dot = ux * vx + uy * vy;
                let smooth = cross.abs() < 0.3 && dot > 0.0;
                let vertex = self.verts.iter().any(|v| geom::dist(*v, b) < 1e-6);
                if smooth && !(self.join == 1 && vertex) {
                    // only the gap between the ends of the two pieces
                    let r = (q.0 - b.0, q.1 - b.1);
                    if geom::dist(q, b) <= h && r.0 * ux + r.1 * uy >= 0.0 && r.0 * vx + r.1 * vy <= 0.0 {
                        return true;
                    }
                    continue;
                }
                if self.join == 1 {
                    if geom::dist(q, b) <= h {
                        return true;
                    }
                    continue;
                }
                if !vertex {
                    // a tight bend of a curve: drawn round, but the detail is not settled
                    if geom::dist(q, b) <= h {
                        unsure();
                        return true;
                    }
                    continue;
                }
                let s = if cross > 0.0 { 1.0 } else { -1.0 };
                // outer side: normals pointing away from the turn
                let p0 = (b.0 + s * h * uy, b.1 - s * h * ux);
                let p1 = (b.0 + s * h * vy, b.1 - s * h * vx);
                let mut poly = vec![b, p0];
                // miter length / width = 1 / sin(theta/2), cos(theta) = -dot
                let half = ((1.0 + dot) / 2.0).max(0.0).sqrt();
                if self.join == 0 && (half < 0.02 || (1.0 / half - self.miter).abs() < 0.1 * self.miter) || cross.abs() < 0.02 {
                    unsure();
                }
                if self.join == 0 && half > 0.0 && 1.0 / half <= self.miter {
                    let k = h / half;
                    let (mx, my) = (p0.0 + p1.0 - 2.0 * b.0, p0.1 + p1.1 - 2.0 * b.1);
                    let ml = (mx * mx + my * my).sqrt();
                    if ml > 1e-12 {
                        poly.push((b.0 + mx / ml * k, b.1 + my / ml * k));
                    }
                }
                poly.push(p1);
                poly.push(b);
                if geom::winding(&[Sub { pts: poly, closed: true, ..Sub::default() }], q) != 0 {
                    return true;
                }
            }
        }
        false
    }
}

impl Clip {
    fn contains(&self, p: P) -> bool {
        self.own.iter().all(|c| c.contains(p))
            && self.shapes.iter().any(|(inv, subs, evenodd, own)| {
                let w = geom::winding(subs, inv.apply(p));
                (if *evenodd { w % 2 != 0 } else { w != 0 }) && own.iter().all(|c| c.contains(p))
            })
    }
}

impl Node {
    /// Premultiplied colour at a point of the viewport.
    pub fn at(&self, p: P) -> Rgba {
        if self.opacity == 0.0 || !self.clips.iter().all(|c| c.contains(p)) {
            return [0.0; 4];
        }
        let mut k = self.opacity;
        if let Some(m) = &self.mask {
            if let Some((inv, r)) = &m.2 {
                let q = inv.apply(p);
                if q.0 < r[0] || q.1 < r[1] || q.0 > r[0] + r[2] || q.1 > r[1] + r[3] {
                    return [0.0; 4];
                }
            }
            let c = m.0.at(p);
            k *= if m.1 { c[3] } else { 0.2125 * c[0] + 0.7154 * c[1] + 0.0721 * c[2] };
        }
        let mut c = match &self.kind {
            Kind::Group(kids) => kids.iter().fold([0.0; 4], |acc, n| over(acc, n.at(p))),
            Kind::Leaf(l) => l.at(p),
        };
        if self.filter != 0 && c[3] > 0.0 {
            c = recolor(c, self.filter);
            c = [c[0] * self.filter_scale, c[1], c[2] * self.filter_scale, c[3]];
        }
        if self.blend != 0 && c[3] > 0.0 {
            c = recolor(c, self.blend);
        }
        [c[0] * k, c[1] * k, c[2] * k, c[3] * k]
    }
    /// The deepest painted elements covering the point, for messages.
    pub fn trace(&self, p: P, out: &mut Vec<String>) {
        match &self.kind {
            Kind::Group(kids) => kids.iter().for_each(|n| n.trace(p, out)),
            Kind::Leaf(l) => {
                let c = l.at(p);
                if c[3] > 0.0 {
                    out.push(format!("{} {}", self.what, rgba(c)));
                }
            }
        }
    }
}

pub fn rgba(c: Rgba) -> String {
    format!("rgba({:.2} {:.2} {:.2} {:.2})", c[0], c[1], c[2], c[3])
}

impl Leaf {
    fn at(&self, p: P) -> Rgba {
        let mut out = [0.0; 4];
        let paint = |out: Rgba, paint: &Paint, o: f64| {
            let c = paint.at(p);
            let a = c[3] * o;
            over(out, [c[0] * a, c[1] * a, c[2] * a, a])
        };
        let fill = |out: Rgba| match &self.fill {
            Some((f, o)) => {
                let w = geom::winding(&self.subs, p);
                if if self.evenodd { w % 2 != 0 } else { w != 0 } { paint(out, f, *o) } else { out }
            }
            None => out,
        };
        if !self.stroke_first {
            out = fill(out);
        }
        if let Some(s) = &self.stroke {
            if s.covers(self.inv.apply(p)) {
                out = paint(out, &s.paint, s.opacity);
            }
        }
        if self.stroke_first {
            out = fill(out);
        }
        out
    }
}

impl Scene {
    pub fn at(&self, p: P) -> Rgba {
        self.root.at(p)
    }
    /// The colour at a point if it is the same all around the point, within `eps`.
    pub fn stable_at(&self, p: P, eps: f64, tol: f64) -> Option<Rgba> {
        UNSURE.with(|u| u.set(false));
        let c = self.at(p);
        // 64 directions, so that the tip of a thin wedge does not fall between them
        for k in 0..64 {
            let a = k as f64 * std::f64::consts::PI / 32.0;
            for r in [eps, eps * 0.75, eps * 0.5, eps * 0.25, eps * 0.1] {
                let q = (p.0 + r * a.cos(), p.1 + r * a.sin());
                if !near(self.at(q), c, tol) {
                    return None;
                }
            }
        }
        if UNSURE.with(|u| u.get()) { None } else { Some(c) }
    }
}

pub fn near(a: Rgba, b: Rgba, tol: f64) -> bool {
    (0..4).all(|i| (a[i] - b[i]).abs() <= tol)
}
