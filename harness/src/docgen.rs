//! Generator of whole SVG documents. Each document draws its own subset of features, so that
//! every pair of features is met often although documents stay small.
use crate::engine::Src;
use std::collections::BTreeSet;

pub const FEATURES: &[&str] = &[
    "css", "css-conflict", "css-combinators", "css-siblings", "css-type", "css-important", "css-media", "classes", "inline", "attrs", "transform", "stroke", "dash", "gradient", "gradient-href", "pattern", "clip", "mask",
    "filter", "marker", "use", "symbol", "nested-svg", "text", "image", "hidden", "editor", "comment", "meta", "link", "defaults", "unknown", "space", "percent",
    "viewbox", "group-heavy", "same-style", "opacity", "empty", "pseudo", "two-styles", "inherit-kw", "current-color", "curves", "units", "xlink",
];

pub struct E {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<K>,
}
pub enum K {
    E(E),
    T(String),
    C(String),
    /// Printed as is.
    Raw(String),
}

pub struct Gen {
    pub on: BTreeSet<&'static str>,
    pub banned: Vec<&'static str>,
    ids: Vec<(String, &'static str)>,
    next: usize,
    budget: i32,
    scale: f64,
    in_def: bool,
    /// Properties given by a style rule.
    used: std::cell::RefCell<BTreeSet<&'static str>>,
}

pub const CLASSES: &[&str] = &["a", "b", "c", "st0"];
const COLORS: &[&str] = &["red", "#00f", "#00ff00", "#ff8000", "rgb(0,128,255)", "rgb(100%,0%,50%)", "purple", "#ABCDEF", "hsl(120,100%,25%)", "rgba(255,0,0,.5)", "white", "Black", "lightgoldenrodyellow"];

fn num(v: f64) -> String {
    format!("{}", (v * 1000.0).round() / 1000.0)
}

impl E {
    pub fn new(name: &str) -> E {
        E { name: name.into(), attrs: vec![], kids: vec![] }
    }
    pub fn set(&mut self, k: &str, v: impl Into<String>) {
        let v = v.into();
        match self.attrs.iter_mut().find(|a| a.0 == k) {
            Some(a) => a.1 = v,
            None => self.attrs.push((k.into(), v)),
        }
    }
    pub fn print(&self, out: &mut String) {
        out.push('<');
        out.push_str(&self.name);
        for (k, v) in &self.attrs {
            out.push_str(&format!(" {k}=\"{}\"", v.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;")));
        }
        if self.kids.is_empty() {
            out.push_str("/>");
            return;
        }
        out.push('>');
        for k in &self.kids {
            match k {
                K::E(e) => e.print(out),
                K::T(t) => out.push_str(&t.replace('&', "&amp;").replace('<', "&lt;").replace("]]>", "]]&gt;")),
                K::C(t) => out.push_str(&format!("<!--{t}-->")),
                K::Raw(t) => out.push_str(t),
            }
        }
        out.push_str(&format!("</{}>", self.name));
    }
}

impl Gen {
    pub fn new(s: &mut Src, banned: &[&'static str]) -> Gen {
        let mut on = BTreeSet::new();
        let density = 2 + s.n(5);
        for f in FEATURES {
            if !banned.contains(f) && s.chance(density, 12) {
                on.insert(*f);
            }
        }
        Gen { on, banned: banned.to_vec(), ids: vec![], next: 0, budget: 0, scale: 1.0, in_def: false, used: Default::default() }
    }
    pub fn has(&self, f: &str) -> bool {
        self.on.contains(f)
    }
    fn coord(&self, s: &mut Src) -> f64 {
        match s.weighted(&[6, 3, 1, 1]) {
            0 => s.int(0, 100) as f64,
            1 => s.int(0, 1000) as f64 / 10.0,
            2 => s.int(0, 100_000) as f64 / 1000.0,
            _ => s.int(-20, 120) as f64,
        }
    }
    fn size(&self, s: &mut Src) -> f64 {
        match s.weighted(&[6, 3]) {
            0 => s.int(5, 60) as f64,
            _ => s.int(50, 600) as f64 / 10.0,
        }
    }
    fn len(&self, s: &mut Src, v: f64) -> String {
        if self.has("units") && s.chance(1, 5) {
            return match s.us(3) {
                0 => format!("{}px", num(v)),
                1 => format!("{:.3}pt", v * 0.75),
                _ => format!("{:.4}mm", v * 25.4 / 96.0),
            };
        }
        if self.has("percent") && s.chance(1, 6) {
            return format!("{}%", num(v));
        }
        match s.weighted(&[8, 1, 1]) {
            0 => num(v),
            1 => format!("{v:.2}"),
            _ => num(v).strip_prefix("0.").map_or(num(v), |r| format!(".{r}")),
        }
    }
    fn fresh(&mut self, s: &mut Src, kind: &'static str) -> String {
        self.next += 1;
        let base = match s.weighted(&[6, 2, 1, 1]) {
            0 => "i",
            1 => "Layer_",
            2 => "grad-",
            _ => "x.",
        };
        let id = format!("{base}{}", self.next);
        self.ids.push((id.clone(), kind));
        id
    }
    fn of(&self, s: &mut Src, kinds: &[&str]) -> Option<String> {
        let v: Vec<&String> = self.ids.iter().filter(|i| kinds.contains(&i.1)).map(|i| &i.0).collect();
        if v.is_empty() { None } else { Some(v[s.us(v.len())].clone()) }
    }
    fn color(&self, s: &mut Src) -> String {
        if self.has("current-color") && s.chance(1, 4) {
            return "currentColor".into();
        }
        s.pick(COLORS).to_string()
    }
    fn paint(&self, s: &mut Src) -> String {
        match s.weighted(&[6, 1, 3]) {
            0 => self.color(s),
            1 => "none".into(),
            _ => match self.of(s, &["gradient", "pattern"]) {
                Some(i) if s.chance(1, 8) => format!("url(#{i}) {}", self.color(s)),
                Some(i) => format!("url(#{i})"),
                None => self.color(s),
            },
        }
    }

    /// A property with a value, of those that matter for painting.
    pub fn property(&self, s: &mut Src, css: bool) -> (&'static str, String) {
        let mut opts: Vec<u8> = vec![0, 0, 0];
        if self.has("stroke") {
            opts.extend([1, 1, 2, 2, 3, 4, 5]);
        }
        if self.has("dash") {
            opts.extend([6, 6, 7]);
        }
        if self.has("opacity") {
            opts.extend([8, 8, 9, 10]);
        }
        if self.has("current-color") {
            opts.extend([11, 11]);
        }
        if self.has("clip") {
            opts.extend([12, 12]);
        }
        if self.has("mask") {
            opts.extend([13, 13]);
        }
        if self.has("filter") {
            opts.extend([14, 14]);
        }
        if self.has("marker") {
            opts.extend([15, 15]);
        }
        if self.has("hidden") {
            opts.extend([16, 17, 17]);
        }
        opts.extend([18]);
        if self.has("text") {
            opts.extend([19, 20, 21, 22]);
        }
        if self.has("defaults") {
            opts.extend([23, 23]);
        }
        let k = *s.pick(&opts);
        let url = |s: &mut Src, k: &[&str]| self.of(s, k).map_or("none".to_string(), |i| format!("url(#{i})"));
        let mut r = match k {
            0 => ("fill", self.paint(s)),
            1 => ("stroke", self.paint(s)),
            2 => ("stroke-width", if !self.has("marker") && s.chance(1, 8) { "0".into() } else { { let v = s_int(s, 5, 120) / 10.0; self.len(s, v) } }),
            3 => ("stroke-linecap", s.pick(&["butt", "round", "square"]).to_string()),
            4 => ("stroke-linejoin", s.pick(&["miter", "round", "bevel"]).to_string()),
            5 => ("stroke-miterlimit", s.pick(&["1", "2", "4", "10"]).to_string()),
            6 => ("stroke-dasharray", s.pick(&["none", "5", "8 4", "10,5,3", "12 0", "0"]).to_string()),
            7 => ("stroke-dashoffset", s.pick(&["0", "3", "-2.5", "4px"]).to_string()),
            8 => ("opacity", s.pick(&["1", ".5", "0.8", "0", "50%"]).to_string()),
            9 => ("fill-opacity", s.pick(&["1", ".5", "0.25", "0"]).to_string()),
            10 => ("stroke-opacity", s.pick(&["1", ".5", "0.25", "0"]).to_string()),
            11 => ("color", s.pick(COLORS).to_string()),
            12 => ("clip-path", url(s, &["clip"])),
            13 => ("mask", url(s, &["mask"])),
            14 => ("filter", url(s, &["filter"])),
            15 => (*s.pick(&["marker-start", "marker-mid", "marker-end"]), url(s, &["marker"])),
            16 => ("display", s.pick(&["none", "inline", "block"]).to_string()),
            17 => ("visibility", s.pick(&["hidden", "visible", "collapse"]).to_string()),
            18 => ("fill-rule", s.pick(&["evenodd", "nonzero"]).to_string()),
            19 => ("font-size", s.pick(&["10", "12px", "20", "16"]).to_string()),
            20 => ("font-family", s.pick(&["Arial", "'Times New Roman', serif", "monospace"]).to_string()),
            21 => ("font-weight", s.pick(&["bold", "normal", "400", "700"]).to_string()),
            22 => ("text-anchor", s.pick(&["start", "middle", "end"]).to_string()),
            _ => {
                let d: &[(&str, &str)] = &[("fill", "#000"), ("stroke", "none"), ("stroke-width", "1"), ("opacity", "1"), ("fill-opacity", "1"), ("stroke-opacity", "1"), ("stroke-miterlimit", "4"), ("fill-rule", "nonzero"), ("display", "inline"), ("visibility", "visible"), ("stroke-linecap", "butt")];
                let (a, b) = *s.pick(d);
                (a, b.to_string())
            }
        };
        if self.has("inherit-kw") && !css && !matches!(r.0, "fill" | "stroke" | "marker-start" | "marker-mid" | "marker-end" | "opacity" | "clip-path" | "mask" | "filter" | "display") && s.chance(1, 8) {
            r.1 = s.pick(&["inherit", "initial"]).to_string();
        }
        r
    }

    fn styling(&mut self, s: &mut Src, e: &mut E, mean: usize) {
        let n = if mean == 0 { 0 } else { s.us(mean * 2 + 1) };
        let mut inline: Vec<String> = vec![];
        for _ in 0..n {
            s.span(|s| {
                let css = self.has("inline") && s.chance(1, 3);
                let (k, mut v) = self.property(s, css);
                if css {
                    if self.has("css-important") && s.chance(1, 6) {
                        v += s.pick(&["!important", " !important"]);
                    }
                    inline.push(format!("{k}{}{v}", s.pick(&[":", ": "])));
                } else {
                    e.set(k, v);
                }
            });
        }
        if !inline.is_empty() {
            let sep = s.pick(&[";", "; "]);
            let mut t = inline.join(sep);
            if s.chance(1, 3) {
                t.push(';');
            }
            e.set("style", t);
        }
        if self.has("classes") && s.chance(1, 2) {
            let mut c = s.pick(CLASSES).to_string();
            if s.chance(1, 4) {
                c = format!("{c} {}", s.pick(CLASSES));
            }
            e.set("class", c);
        }
        if s.chance(1, 6) && !e.attrs.iter().any(|a| a.0 == "id") {
            let id = self.fresh(s, "plain");
            e.set("id", id);
        }
        if self.has("editor") && s.chance(1, 4) {
            e.set(*s.pick(&["inkscape:label", "sodipodi:nodetypes", "inkscape:connector-curvature"]), "x");
        }
        if self.has("unknown") && s.chance(1, 4) {
            let (k, v) = *s.pick(&[("data-name", "n"), ("foo", "1"), ("aria-label", "l"), ("focusable", "false"), ("version", "1.1"), ("role", "img"), ("gradientUnits", "userSpaceOnUse")]);
            if !e.attrs.iter().any(|a| a.0 == k) {
                e.set(k, v);
            }
        }
    }

    /// A transform list; the total scale along any branch stays within bounds.
    pub fn transform_text(&self, s: &mut Src, room: &mut f64) -> String {
        let n = 1 + s.weighted(&[6, 2, 1]);
        let mut out = vec![];
        for _ in 0..n {
            let sep = s.pick(&[" ", ",", ", "]);
            out.push(match s.weighted(&[5, 3, 3, 1, 1, 2]) {
                0 => match s.us(3) {
                    0 => format!("translate({})", num(s_int(s, -30, 30))),
                    _ => format!("translate({}{sep}{})", num(s_int(s, -300, 300) / 10.0), num(s_int(s, -30, 30))),
                },
                1 => {
                    let k: f64 = *s.pick(&[0.5, 0.8, 1.5, 2.0, -1.0, 1.0]);
                    if k.abs() > 1.0 {
                        if *room < k.abs() {
                            continue;
                        }
                        *room /= k.abs();
                    }
                    match s.us(3) {
                        0 => format!("scale({})", num(k)),
                        1 => format!("scale({}{sep}{})", num(k), num(if k.abs() > 1.0 { 1.0 } else { k.abs() })),
                        _ => format!("scale(1{sep}{})", num(k)),
                    }
                }
                2 => match s.us(3) {
                    0 => format!("rotate({})", s.pick(&["90", "45", "-30", "180", "0", "12.5", "360"])),
                    _ => format!("rotate({}{sep}{}{sep}{})", s.pick(&["90", "45", "-30", "180", "0"]), num(s_int(s, 0, 100)), num(s_int(s, 0, 100))),
                },
                3 => format!("skewX({})", s.pick(&["10", "-20", "0"])),
                4 => format!("skewY({})", s.pick(&["10", "-20"])),
                _ => {
                    let m = *s.pick(&["matrix(1 0 0 1 10 20)", "matrix(0 1 -1 0 50 0)", "matrix(1,0,0,-1,0,100)", "matrix(.8 .6 -.6 .8 5 5)", "matrix(1 .2 .1 .9 0 0)", "matrix(1 0 0 1 0 0)"]);
                    m.to_string()
                }
            });
        }
        let sep = s.pick(&[" ", "", ","]);
        out.join(sep)
    }
    fn transform(&mut self, s: &mut Src, e: &mut E, num: u64, den: u64) {
        if self.has("transform") && s.chance(num, den) {
            let mut room = self.scale;
            let t = self.transform_text(s, &mut room);
            self.scale = room;
            if !t.is_empty() {
                e.set("transform", t);
            }
        }
    }

    pub fn path_data(&self, s: &mut Src) -> String {
        let mut out = format!("M{} {}", num(self.coord(s)), num(self.coord(s)));
        let n = s.list(1, 4, 8, |s| {
            let rel = s.chance(1, 2);
            let c = |s: &mut Src| if rel { num(s_int(s, -300, 300) / 10.0) } else { num(self.coord(s)) };
            let l = |s: &mut Src, k: usize| (0..k).map(|_| c(s)).collect::<Vec<_>>().join(" ");
            let kinds: &[u32] = if self.has("curves") { &[5, 2, 2, 3, 2, 2, 1, 2, 2, 1] } else { &[5, 2, 2, 0, 0, 0, 0, 0, 3, 1] };
            let (ch, a) = match s.weighted(kinds) {
                0 => ('L', l(s, 2)),
                1 => ('H', l(s, 1)),
                2 => ('V', l(s, 1)),
                3 => ('C', l(s, 6)),
                4 => ('S', l(s, 4)),
                5 => ('Q', l(s, 4)),
                6 => ('T', l(s, 2)),
                7 => {
                    let r = num(self.size(s));
                    let r2 = if s.chance(1, 2) { r.clone() } else { num(self.size(s)) };
                    ('A', format!("{r} {r2} {} {} {} {}", s.pick(&["0", "30", "-45"]), s.us(2), s.us(2), l(s, 2)))
                }
                8 => ('Z', String::new()),
                _ => ('M', l(s, 2)),
            };
            format!("{}{a}", if rel { ch.to_ascii_lowercase() } else { ch })
        });
        // repeated points are left out where markers may be drawn, and everywhere a lone point that is closed
        let (mut repeats, mut closed, mut end, marker) = (true, false, out.len(), self.has("marker"));
        for x in n {
            let c = x.as_bytes()[0].to_ascii_uppercase();
            if marker && closed && c != b'M' {
                break;
            }
            closed = c == b'Z';
            if repeats && (c == b'Z' || marker && c == b'M') {
                continue;
            }
            repeats = c == b'Z' || c == b'M';
            out.push_str(&x);
            end = if c == b'M' { end } else { out.len() };
        }
        if marker {
            // a last moveto is a finding of its own
            out.truncate(end);
        }
        if marker && out.matches(|c: char| c.is_ascii_alphabetic()).count() < 2 {
            out.push_str("h9");
        }
        // an open subpath that ends where it starts gets closed (documented, but not for strokes)
        for _ in 0..3 {
            let subs = crate::geom::flatten(&crate::svgpath::read(&out).cmds, 1.0);
            match subs.last() {
                Some(l) if returns(l) => out.push_str("h9v4"),
                _ => {}
            }
            if subs[..subs.len().saturating_sub(1)].iter().any(returns) {
                out = "M7 5L40 60l20 -30".to_string();
            }
        }
        out
    }

    fn shape(&mut self, s: &mut Src) -> E {
        let kind = s.weighted(&[6, 5, 2, 2, 1, 1, 2]);
        let mut e = E::new(["path", "rect", "circle", "ellipse", "line", "polyline", "polygon"][kind]);
        let put = |g: &Gen, s: &mut Src, e: &mut E, k: &str, v: f64| {
            let t = g.len(s, v);
            e.set(k, t);
        };
        match kind {
            0 => {
                let d = if self.has("empty") && !self.has("marker") && s.chance(1, 8) { s.pick(&["", "M1 1", "none"]).to_string() } else { self.path_data(s) };
                e.set("d", d);
            }
            1 => {
                for k in ["x", "y"] {
                    if s.chance(5, 6) {
                        let v = self.coord(s);
                        put(self, s, &mut e, k, v);
                    }
                }
                for k in ["width", "height"] {
                    let v = if self.has("empty") && s.chance(1, 10) { 0.0 } else { self.size(s) };
                    put(self, s, &mut e, k, v);
                }
                if s.chance(1, 5) {
                    e.set("rx", num(s_int(s, 1, 12)));
                }
                if s.chance(1, 8) {
                    e.set("ry", num(s_int(s, 0, 12)));
                }
            }
            2 | 3 => {
                for k in ["cx", "cy"] {
                    if s.chance(5, 6) {
                        let v = self.coord(s);
                        put(self, s, &mut e, k, v);
                    }
                }
                let v = if self.has("empty") && s.chance(1, 10) { 0.0 } else { self.size(s) };
                if kind == 2 {
                    put(self, s, &mut e, "r", v);
                } else {
                    put(self, s, &mut e, "rx", v);
                    let w = if s.chance(1, 3) { v } else { self.size(s) };
                    put(self, s, &mut e, "ry", w);
                }
            }
            4 => {
                for k in ["x1", "y1", "x2", "y2"] {
                    if s.chance(5, 6) {
                        let v = self.coord(s);
                        put(self, s, &mut e, k, v);
                    }
                }
                let at = |k: &str| e.attrs.iter().find(|a| a.0 == k).map_or("0".to_string(), |a| a.1.clone());
                if at("x1") == at("x2") && at("y1") == at("y2") {
                    e.set("x2", "31");
                }
            }
            _ => {
                let n = s.list(2, 3, 6, |s| format!("{}{}{}", num(self.coord(s)), s.pick(&[",", " "]), num(self.coord(s))));
                let same = n.len() > 1 && n[0].replace(',', " ") == n[n.len() - 1].replace(',', " ");
                e.set("points", n.join(" ") + if same { " 3,8" } else { "" });
            }
        }
        e
    }

    fn text(&mut self, s: &mut Src) -> E {
        let mut e = E::new("text");
        for k in ["x", "y"] {
            if s.chance(4, 5) {
                e.set(k, num(s_int(s, 0, 80)));
            }
        }
        let words = ["hi", " a b ", "  ", "x & y", "\n", "Z"];
        for _ in 0..1 + s.us(3) {
            if s.chance(1, 3) {
                let mut t = E::new("tspan");
                if s.chance(1, 2) {
                    t.set("dy", num(s_int(s, 1, 12)));
                }
                self.styling(s, &mut t, 1);
                if !(self.has("empty") && s.chance(1, 5)) {
                    t.kids.push(K::T(s.pick(&words).to_string()));
                }
                e.kids.push(K::E(t));
            } else if !matches!(e.kids.last(), Some(K::T(_))) {
                e.kids.push(K::T(s.pick(&words).to_string()));
            }
        }
        if self.has("empty") && s.chance(1, 6) {
            e.kids.clear();
        }
        if self.has("space") && s.chance(1, 5) {
            e.set("xml:space", "preserve");
        }
        e
    }

    /// An element painted in place.
    pub fn item(&mut self, s: &mut Src, depth: usize) -> E {
        self.budget -= 1;
        let saved = self.scale;
        let deep = depth < 4 && self.budget > 0;
        let w = [
            10,
            if deep { if self.has("group-heavy") { 12 } else { 4 } } else { 0 },
            if self.has("use") { 4 } else { 0 },
            if self.has("text") { 3 } else { 0 },
            if self.has("image") { 2 } else { 0 },
            if self.has("link") && deep { 2 } else { 0 },
            if self.has("nested-svg") && deep { 2 } else { 0 },
        ];
        let k = s.weighted(&w);
        let mut e = match k {
            0 => self.shape(s),
            1 => E::new("g"),
            2 => {
                let mut e = E::new("use");
                if let Some(i) = self.of(s, &["shape", "symbol", "group"]) {
                    let k = if self.has("xlink") && s.chance(1, 2) { "xlink:href" } else { "href" };
                    e.set(k, format!("#{i}"));
                }
                for k in ["x", "y"] {
                    if s.chance(1, 2) {
                        e.set(k, num(s_int(s, -20, 40)));
                    }
                }
                for k in ["width", "height"] {
                    if self.has("symbol") && s.chance(1, 3) {
                        e.set(k, num(s_int(s, 20, 60)));
                    }
                }
                e
            }
            3 => self.text(s),
            4 => {
                let mut e = E::new("image");
                for k in ["x", "y", "width", "height"] {
                    e.set(k, num(self.size(s)));
                }
                e.set(if self.has("xlink") { "xlink:href" } else { "href" }, *s.pick(&["a.png", "b.svg", "data:image/png;base64,AAAA"]));
                e
            }
            5 => {
                let mut e = E::new("a");
                e.set("href", "https://example.com/");
                e
            }
            _ => {
                let mut e = E::new("svg");
                for (k, lo, hi) in [("x", 0, 30), ("y", 0, 30), ("width", 20, 90), ("height", 20, 90)] {
                    if s.chance(3, 4) {
                        e.set(k, num(s_int(s, lo, hi)));
                    }
                }
                if s.chance(1, 2) {
                    e.set("viewBox", *s.pick(&["0 0 100 100", "0 0 60 30", "10 10 50 50"]));
                }
                if s.chance(1, 4) {
                    e.set("overflow", *s.pick(&["visible", "hidden"]));
                }
                e
            }
        };
        if k != 6 {
            self.transform(s, &mut e, 1, 3);
        }
        self.styling(s, &mut e, if k == 1 { 1 } else { 2 });
        if matches!(k, 1 | 5 | 6) {
            let same = self.has("same-style") && s.chance(1, 2);
            let shared = self.property(s, false);
            let n = if self.has("empty") && s.chance(1, 6) { 0 } else { 1 };
            let kids = s.list(n, 2, 4, |s| {
                let mut c = self.item(s, depth + 1);
                if same {
                    c.set(shared.0, shared.1.clone());
                    if s.chance(1, 2) {
                        c.set("transform", "translate(5 5)");
                    }
                }
                c
            });
            self.fill(s, &mut e, kids);
        }
        self.scale = saved;
        e
    }

    fn fill(&mut self, s: &mut Src, e: &mut E, kids: Vec<E>) {
        for k in kids {
            if self.has("space") && s.chance(1, 3) {
                e.kids.push(K::T("\n  ".into()));
            }
            if self.has("comment") && s.chance(1, 5) {
                e.kids.push(K::C(s.pick(&["c", "! keep", " a <b> "]).to_string()));
            }
            if self.has("meta") && s.chance(1, 6) {
                let mut t = E::new(*s.pick(&["title", "desc"]));
                t.kids.push(K::T("Created with X".into()));
                e.kids.push(K::E(t));
            }
            e.kids.push(K::E(k));
        }
    }

    fn stops(&mut self, s: &mut Src, e: &mut E) {
        let n = 1 + s.weighted(&[1, 5, 2]);
        for i in 0..n {
            let mut st = E::new("stop");
            let o = if n == 1 { 0.0 } else { i as f64 / (n - 1) as f64 };
            st.set("offset", if s.chance(1, 2) { num(o) } else { format!("{}%", num(o * 100.0)) });
            let c = s.pick(COLORS).to_string();
            let op = if self.has("opacity") && s.chance(1, 3) { Some(*s.pick(&["0", ".5", "1"])) } else { None };
            if s.chance(1, 3) {
                st.set("style", format!("stop-color:{c}{}", op.map_or(String::new(), |o| format!(";stop-opacity:{o}"))));
            } else {
                st.set("stop-color", c);
                if let Some(o) = op {
                    st.set("stop-opacity", o);
                }
            }
            e.kids.push(K::E(st));
        }
    }

    fn definition(&mut self, s: &mut Src) -> E {
        self.in_def = true;
        self.scale = 2.0;
        let mut kinds: Vec<&str> = vec!["shape"];
        for (f, k) in [("gradient", "gradient"), ("pattern", "pattern"), ("clip", "clip"), ("mask", "mask"), ("filter", "filter"), ("marker", "marker"), ("symbol", "symbol"), ("use", "group")] {
            if self.has(f) {
                kinds.push(k);
                kinds.push(k);
            }
        }
        let kind = *s.pick(&kinds);
        let mut e = match kind {
            "gradient" => {
                let lin = s.chance(2, 3);
                let mut e = E::new(if lin { "linearGradient" } else { "radialGradient" });
                let user = s.chance(1, 3);
                let k = if user { 100.0 } else { 1.0 };
                if user {
                    e.set("gradientUnits", "userSpaceOnUse");
                }
                let at: &[&str] = if lin { &["x1", "y1", "x2", "y2"] } else { &["cx", "cy", "r", "fx"] };
                for a in at {
                    if s.chance(1, 3) {
                        let v = if *a == "r" { s_int(s, 3, 9) / 10.0 } else { s_int(s, 0, 10) / 10.0 };
                        e.set(a, if s.chance(1, 4) { format!("{}%", num(v * 100.0)) } else { num(v * k) });
                    }
                }
                if s.chance(1, 4) {
                    e.set("spreadMethod", *s.pick(&["pad", "reflect"]));
                }
                if self.has("transform") && s.chance(1, 3) {
                    let mut r = 1.0;
                    let t = if user { self.transform_text(s, &mut r) } else { "rotate(45 .5 .5)".into() };
                    if !t.is_empty() {
                        e.set("gradientTransform", t);
                    }
                }
                let base = if self.has("gradient-href") { self.of(s, &["gradient"]) } else { None };
                match base {
                    Some(b) if s.chance(1, 2) => e.set(if self.has("xlink") { "xlink:href" } else { "href" }, format!("#{b}")),
                    _ => self.stops(s, &mut e),
                }
                e
            }
            "pattern" => {
                let mut e = E::new("pattern");
                e.set("patternUnits", "userSpaceOnUse");
                e.set("width", num(s_int(s, 8, 30)));
                e.set("height", num(s_int(s, 8, 30)));
                if s.chance(1, 4) {
                    e.set("x", num(s_int(s, 1, 8)));
                }
                if self.has("transform") && s.chance(1, 4) {
                    e.set("patternTransform", *s.pick(&["rotate(45)", "translate(3 4)", "scale(1.5)"]));
                }
                for _ in 0..1 + s.us(2) {
                    let mut r = E::new("rect");
                    for k in ["x", "y", "width", "height"] {
                        r.set(k, num(s_int(s, 1, 12)));
                    }
                    r.set("fill", self.color(s));
                    e.kids.push(K::E(r));
                }
                e
            }
            "clip" => {
                let mut e = E::new("clipPath");
                if s.chance(1, 6) {
                    self.transform(s, &mut e, 1, 1);
                }
                for _ in 0..s.weighted(&[1, 6, 2]) {
                    let mut k = if self.has("use") && s.chance(1, 5) && self.of(s, &["shape"]).is_some() {
                        let mut u = E::new("use");
                        let i = self.of(s, &["shape"]).unwrap();
                        u.set("href", format!("#{i}"));
                        u
                    } else {
                        self.shape(s)
                    };
                    self.transform(s, &mut k, 1, 5);
                    if s.chance(1, 5) {
                        k.set("clip-rule", "evenodd");
                    }
                    e.kids.push(K::E(k));
                }
                e
            }
            "mask" => {
                let mut e = E::new("mask");
                e.set("maskUnits", "userSpaceOnUse");
                for (k, v) in [("x", "-100"), ("y", "-100"), ("width", "400"), ("height", "400")] {
                    e.set(k, v);
                }
                if s.chance(1, 5) {
                    e.set("style", "mask-type:alpha");
                }
                for _ in 0..1 + s.us(2) {
                    let mut k = self.shape(s);
                    k.set("fill", *s.pick(&["white", "#fff", "#888", "#fff8e0"]));
                    e.kids.push(K::E(k));
                }
                e
            }
            "filter" => {
                let mut e = E::new("filter");
                let mut p = E::new(*s.pick(&["feGaussianBlur", "feOffset", "feFlood"]));
                match p.name.as_str() {
                    "feGaussianBlur" => p.set("stdDeviation", *s.pick(&["2", "3 1", "0.5"])),
                    "feOffset" => p.set("dx", *s.pick(&["2", "5"])),
                    _ => p.set("flood-color", *s.pick(&["red", "#0f0"])),
                }
                e.kids.push(K::E(p));
                e
            }
            "marker" => {
                let mut e = E::new("marker");
                e.set("markerWidth", num(s_int(s, 3, 10)));
                e.set("markerHeight", num(s_int(s, 3, 10)));
                if s.chance(1, 2) {
                    e.set("refX", num(s_int(s, 0, 5)));
                }
                if s.chance(1, 3) {
                    e.set("markerUnits", *s.pick(&["userSpaceOnUse", "strokeWidth"]));
                }
                if s.chance(1, 3) {
                    e.set("orient", *s.pick(&["45", "90"]));
                }
                let mut r = E::new("rect");
                r.set("width", num(s_int(s, 2, 6)));
                r.set("height", num(s_int(s, 2, 6)));
                self.styling(s, &mut r, 1);
                e.kids.push(K::E(r));
                e
            }
            "symbol" => {
                let mut e = E::new("symbol");
                if s.chance(1, 2) {
                    e.set("viewBox", *s.pick(&["0 0 100 100", "0 0 50 50"]));
                }
                for _ in 0..1 + s.us(2) {
                    let mut k = self.shape(s);
                    self.styling(s, &mut k, 1);
                    e.kids.push(K::E(k));
                }
                e
            }
            "group" => {
                let mut e = E::new("g");
                self.styling(s, &mut e, 1);
                for _ in 0..1 + s.us(2) {
                    let mut k = self.shape(s);
                    self.styling(s, &mut k, 1);
                    e.kids.push(K::E(k));
                }
                e
            }
            _ => {
                let mut k = self.shape(s);
                self.styling(s, &mut k, 1);
                self.transform(s, &mut k, 1, 5);
                k
            }
        };
        if matches!(kind, "gradient" | "clip" | "mask" | "pattern") && s.chance(1, 12) {
            self.styling(s, &mut e, 1);
        }
        e.attrs.retain(|a| a.0 != "id");
        let id = self.fresh(s, kind);
        e.attrs.insert(0, ("id".into(), id));
        self.scale = 3.0;
        self.in_def = false;
        e
    }

    pub fn selector(&self, s: &mut Src) -> String {
        let t = if self.has("css-type") { 3 } else { 0 };
        let one = |s: &mut Src| match s.weighted(&[6, t, 3, 1, t / 3]) {
            0 => format!(".{}", s.pick(CLASSES)),
            1 => s.pick(&["path", "rect", "g", "circle", "text", "svg", "stop", "use"]).to_string(),
            2 => match self.ids.is_empty() {
                false => format!("#{}", self.ids[s.us(self.ids.len())].0.replace('.', "\\.")),
                true => ".a".into(),
            },
            3 => "*".into(),
            _ => format!("{}.{}", s.pick(&["path", "rect", "g"]), s.pick(CLASSES)),
        };
        let mut t = one(s);
        if self.has("pseudo") && s.chance(1, 3) {
            t += if self.has("css-siblings") { s.pick(&[":first-child", ":last-child", ":nth-child(2)", ":empty"]) } else { s.pick(&[":hover", ":not(.b)"]) };
        }
        if self.has("css-combinators") && s.chance(1, 2) {
            t = format!("{}{}{t}", one(s), if self.has("css-siblings") { s.pick(&[" ", ">", " + ", "~"]) } else { s.pick(&[" ", ">"]) });
        }
        if s.chance(1, 6) {
            t = format!("{t},{}", one(s));
        }
        t
    }
    pub fn rule(&self, s: &mut Src) -> String {
        let sel = self.selector(s);
        let n = s.weighted(&[1, 6, 3]);
        let mut d = vec![];
        for _ in 0..n {
            let (k, v) = self.property(s, true);
            // without conflicts no two rules give the same property
            if !self.used.borrow_mut().insert(k) && !self.has("css-conflict") {
                continue;
            }
            let imp = if self.has("css-important") && s.chance(1, 5) { "!important" } else { "" };
            d.push(format!("{k}:{v}{imp}"));
        }
        format!("{sel}{{{}}}", d.join(";"))
    }
    fn sheet(&mut self, s: &mut Src) -> E {
        let mut e = E::new("style");
        if s.chance(1, 4) {
            e.set("type", "text/css");
        }
        let mut t = String::new();
        for r in s.list(1, 2, 4, |s| self.rule(s)) {
            if self.has("css-media") && s.chance(1, 4) {
                t += &format!("@media {}{{{r}}}", s.pick(&["screen", "print", "all"]));
            } else {
                t += &r;
            }
            if s.chance(1, 4) {
                t += "\n /* c */ ";
            }
        }
        e.kids.push(K::T(t));
        e
    }

    pub fn document(&mut self, s: &mut Src) -> E {
        let mut root = E::new("svg");
        root.set("xmlns", "http://www.w3.org/2000/svg");
        if self.has("xlink") {
            root.set("xmlns:xlink", "http://www.w3.org/1999/xlink");
        }
        if self.has("editor") {
            root.set("xmlns:inkscape", "http://www.inkscape.org/namespaces/inkscape");
            root.set("xmlns:sodipodi", "http://sodipodi.sourceforge.net/DTD/sodipodi-0.dtd");
        }
        self.scale = 3.0;
        if self.has("viewbox") {
            match s.us(5) {
                0 => root.set("viewBox", "0 0 100 100"),
                1 => {
                    root.set("width", "100");
                    root.set("height", "100");
                    root.set("viewBox", "0 0 100 100");
                }
                2 => {
                    root.set("width", "150");
                    root.set("height", "100");
                    root.set("viewBox", "0 0 100 100");
                    if s.chance(1, 2) {
                        root.set("preserveAspectRatio", *s.pick(&["none", "xMinYMin meet", "xMidYMid slice"]));
                    }
                    self.scale = 2.0;
                }
                3 => {
                    root.set("width", "100px");
                    root.set("viewBox", "-10 -10 120 120");
                }
                _ => {
                    root.set("width", "100");
                    root.set("height", "100");
                }
            }
        }
        self.budget = 3 + s.us(6) as i32;
        let mut kids = vec![];
        let styled = self.has("css");
        let needs_defs = ["gradient", "pattern", "clip", "mask", "filter", "marker", "symbol", "use"].iter().any(|f| self.has(f));
        if needs_defs {
            let d: Vec<E> = s.list(1, 2, 5, |s| self.definition(s));
            if s.chance(1, 8) {
                kids.extend(d.into_iter().filter(|e| !matches!(e.name.as_str(), "g") ));
            } else {
                let mut defs = E::new("defs");
                self.fill(s, &mut defs, d);
                kids.push(defs);
            }
        }
        if s.chance(1, 4) {
            self.styling(s, &mut root, 1);
            root.attrs.retain(|a| !matches!(a.0.as_str(), "rx" | "points"));
        }
        let mut body = s.list(1, 3, 6, |s| self.item(s, 0));
        if styled {
            let at = if s.chance(1, 6) { kids.len() + body.len() } else { 0 };
            let sh = self.sheet(s);
            kids.append(&mut body);
            kids.insert(at.min(kids.len()), sh);
            if self.has("two-styles") {
                let sh = self.sheet(s);
                let at = s.us(kids.len() + 1);
                kids.insert(at, sh);
            }
        } else {
            kids.append(&mut body);
        }
        if self.has("editor") && s.chance(1, 2) {
            let mut n = E::new("sodipodi:namedview");
            n.set("id", "base");
            kids.insert(0, n);
        }
        if self.has("meta") && s.chance(1, 2) {
            let mut m = E::new("metadata");
            m.kids.push(K::T("m".into()));
            kids.insert(0, m);
        }
        self.fill(s, &mut root, kids);
        root
    }
}

fn returns(s: &crate::geom::Sub) -> bool {
    !s.closed && s.n > 0 && crate::geom::dist(s.pts[0], s.pts[s.pts.len() - 1]) < 0.02
}

fn s_int(s: &mut Src, lo: i64, hi: i64) -> f64 {
    s.int(lo, hi) as f64
}

pub fn svg(s: &mut Src, banned: &[&'static str]) -> (String, Gen) {
    let mut g = Gen::new(s, banned);
    let d = g.document(s);
    let mut out = String::new();
    if g.has("meta") && s.chance(1, 4) {
        out.push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>");
    }
    d.print(&mut out);
    (out, g)
}
