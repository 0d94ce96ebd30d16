//! Generator of small documents that are about style: nested groups, presentation attributes,
//! inline style and style sheets whose rules compete. Every element carries a number in `data-n`.
use crate::engine::Src;

pub struct Opt {
    pub conditions: bool,
    /// Selectors may depend on siblings.
    pub structural: bool,
    pub important: bool,
    /// Several rules may set the same property.
    pub conflict: bool,
    pub nested: bool,
    /// Groups without a number, with transforms and children that share attributes; style sheets are rarer.
    pub groups: bool,
}

/// Properties with values in any spelling.
pub const PROPS: &[(&str, &[&str])] = &[
    ("fill", &["red", "#0f0", "#0000ff", "rgb(1,2,3)", "none", "url(#p)", "currentColor", "Blue", "#FF0000", "hsl(120,100%,50%)"]),
    ("stroke", &["red", "#00f", "none", "url(#p)", "black", "rgb(20%,40%,60%)"]),
    ("color", &["red", "green", "#123456"]),
    ("opacity", &["0", ".5", "1", "0.50", "0.25"]),
    ("fill-opacity", &["0", ".5", "1", "0.250"]),
    ("stroke-opacity", &["0", ".5", "1"]),
    ("stroke-width", &["0", "1", "2", "3px", "1.50", "1em", "5%"]),
    ("fill-rule", &["nonzero", "evenodd"]),
    ("clip-rule", &["nonzero", "evenodd"]),
    ("visibility", &["visible", "hidden", "collapse"]),
    ("display", &["inline", "none", "block"]),
    ("stroke-linecap", &["butt", "round", "square"]),
    ("stroke-linejoin", &["miter", "round", "bevel"]),
    ("stroke-miterlimit", &["4", "1", "10"]),
    ("stroke-dasharray", &["none", "1 2", "3", "1,2,3"]),
    ("stroke-dashoffset", &["0", "2", "3px"]),
    ("font-size", &["12px", "2em", "10px"]),
    ("font-family", &["serif", "Arial", "sans-serif"]),
    ("font-weight", &["bold", "400", "100"]),
    ("font-style", &["italic", "normal"]),
    ("text-anchor", &["start", "middle", "end"]),
    ("clip-path", &["none", "url(#c)"]),
    ("mask", &["none", "url(#m)"]),
    ("filter", &["none", "url(#f)"]),
    ("stop-color", &["red", "blue"]),
    ("stop-opacity", &["0", ".5"]),
    ("marker-start", &["none", "url(#k)"]),
    ("marker-end", &["none", "url(#k)"]),
    ("overflow", &["visible", "hidden"]),
    ("letter-spacing", &["1px", "normal"]),
    ("shape-rendering", &["auto", "crispEdges"]),
    ("pointer-events", &["none", "all"]),
];
pub const CLASSES: &[&str] = &["a", "b", "c"];
pub const CONDITIONS: &[&str] = &["@media print", "@media screen", "@media (orientation:portrait)", "@supports (display:grid)"];

pub struct Gen {
    pub o: Opt,
    /// Few properties, so that declarations meet.
    props: Vec<usize>,
    n: usize,
    ids: usize,
    /// Attributes the children of the current group have in common.
    shared: Vec<(&'static str, &'static str)>,
    used: std::cell::RefCell<Vec<&'static str>>,
}

impl Gen {
    pub fn new(s: &mut Src, o: Opt) -> Gen {
        let k = 1 + s.us(4);
        let props = (0..k).map(|_| s.us(PROPS.len())).collect();
        Gen { o, props, n: 0, ids: 0, shared: vec![], used: Default::default() }
    }
    pub fn decl(&self, s: &mut Src) -> (&'static str, &'static str) {
        let p = if s.chance(1, 8) { s.us(PROPS.len()) } else { *s.pick(&self.props) };
        let (n, vs) = PROPS[p];
        // the CSS library takes `inherit` for a font name, and reorders declarations of the effects
        if !matches!(n, "font-family" | "clip-path" | "mask" | "filter") && s.chance(1, 12) {
            return (n, "inherit");
        }
        (n, s.pick(vs))
    }
    fn block(&self, s: &mut Src) -> String {
        s.list(1, 2, 4, |s| {
            let (n, v) = self.decl(s);
            format!("{n}:{v}{}", if self.o.important && s.chance(1, 6) { "!important" } else { "" })
        })
        .join(";")
    }
    fn compound(&self, s: &mut Src) -> String {
        let mut t = String::new();
        match s.weighted(&[5, 3, 3, 1]) {
            0 => t += &format!(".{}", s.pick(CLASSES)),
            1 => t += s.pick(&["g", "path", "rect", "text", "tspan", "svg"]),
            2 => t += &format!("#i{}", s.n(4)),
            _ => t += "*",
        }
        for _ in 0..s.weighted(&[6, 2, 1]) {
            match s.weighted(&[4, 2, if self.o.structural { 2 } else { 0 }]) {
                0 => t += &format!(".{}", s.pick(CLASSES)),
                1 => t += s.pick(&["[fill]", "[class]", "[id=\"i1\"]", ":not(.b)"]),
                _ => t += s.pick(&[":first-child", ":last-child", ":nth-child(2)", ":only-child"]),
            }
        }
        t
    }
    pub fn selector(&self, s: &mut Src) -> String {
        let mut t = self.compound(s);
        for _ in 0..s.weighted(&[6, 3, 1]) {
            let c = if self.o.structural { *s.pick(&[" ", ">", "+", "~"]) } else { *s.pick(&[" ", ">"]) };
            t = format!("{t}{c}{}", self.compound(s));
        }
        t
    }
    fn rule(&self, s: &mut Src) -> String {
        let sel = s.list(1, 1, 3, |s| self.selector(s)).join(",");
        format!("{sel}{{{}}}", self.rule_block(s))
    }
    fn rule_block(&self, s: &mut Src) -> String {
        if self.o.conflict {
            return self.block(s);
        }
        let ds = s.list(1, 2, 4, |s| (self.decl(s), self.o.important && s.chance(1, 6)));
        let mut out = vec![];
        for ((n, v), i) in ds {
            if !self.used.borrow().contains(&n) {
                self.used.borrow_mut().push(n);
                out.push(format!("{n}:{v}{}", if i { "!important" } else { "" }));
            }
        }
        out.join(";")
    }
    pub fn sheet(&self, s: &mut Src) -> String {
        s.list(1, 3, 6, |s| {
            if self.o.conditions && s.chance(1, 4) {
                let c = s.pick(CONDITIONS);
                let body = s.list(1, 1, 3, |s| self.rule(s)).concat();
                if self.o.nested && s.chance(1, 8) { format!("{c}{{{}{{{body}}}}}", s.pick(CONDITIONS)) } else { format!("{c}{{{body}}}") }
            } else {
                self.rule(s)
            }
        })
        .join(if s.chance(1, 3) { "\n" } else { "" })
    }
    fn attrs(&mut self, s: &mut Src, t: &mut String) {
        t.push_str(&format!(" data-n=\"{}\"", self.n));
        self.n += 1;
        self.rest(s, t);
    }
    fn rest(&mut self, s: &mut Src, t: &mut String) {
        if s.chance(1, 3) && self.ids < 4 {
            t.push_str(&format!(" id=\"i{}\"", self.ids));
            self.ids += 1;
        }
        if s.chance(1, 2) {
            t.push_str(&format!(" class=\"{}\"", s.list(1, 1, 3, |s| s.pick(CLASSES).to_string()).join(" ")));
        }
        let mut seen = vec![];
        for (n, v) in &self.shared {
            if !seen.contains(n) && s.chance(9, 10) {
                seen.push(*n);
                t.push_str(&format!(" {n}=\"{v}\""));
            }
        }
        for _ in 0..s.weighted(&[3, 3, 2, 1]) {
            let (n, v) = self.decl(s);
            if !seen.contains(&n) {
                seen.push(n);
                t.push_str(&format!(" {n}=\"{v}\""));
            }
        }
        if s.chance(1, 4) {
            t.push_str(&format!(" style=\"{}\"", self.block(s)));
        }
    }
    fn element(&mut self, s: &mut Src, depth: usize) -> String {
        let mut t = String::new();
        if depth > 0 && s.chance(2, 5) {
            t.push_str("<g");
            if self.o.groups {
                let outer = std::mem::take(&mut self.shared);
                if s.chance(4, 5) {
                    self.rest(s, &mut t);
                }
                if s.chance(1, 3) {
                    t.push_str(s.pick(&[" transform=\"translate(2 3)\"", " transform=\"scale(2)\"", " transform=\"rotate(30)\""]));
                }
                t.push('>');
                for _ in 0..s.weighted(&[2, 2, 1]) {
                    let d = self.decl(s);
                    self.shared.push(d);
                }
                for _ in 0..1 + s.weighted(&[4, 4, 2]) {
                    t += &self.element(s, depth - 1);
                }
                self.shared = outer;
                t.push_str("</g>");
                return t;
            }
            self.attrs(s, &mut t);
            t.push('>');
            for _ in 0..1 + s.weighted(&[4, 4, 2]) {
                t += &self.element(s, depth - 1);
            }
            t.push_str("</g>");
            return t;
        }
        match s.weighted(&[4, 3, 2]) {
            0 => {
                t.push_str("<path d=\"M0 0h9v4z\"");
                self.attrs(s, &mut t);
                t.push_str("/>");
            }
            1 => {
                t.push_str("<rect width=\"4\" height=\"3\"");
                self.attrs(s, &mut t);
                t.push_str("/>");
            }
            _ => {
                t.push_str("<text");
                self.attrs(s, &mut t);
                t.push_str(">x<tspan");
                self.attrs(s, &mut t);
                t.push_str(">y</tspan></text>");
            }
        }
        t
    }
    pub fn document(&mut self, s: &mut Src) -> String {
        let mut t = String::from("<svg xmlns=\"http://www.w3.org/2000/svg\"");
        self.attrs(s, &mut t);
        t.push('>');
        let style = |g: &Gen, s: &mut Src| {
            let media = if g.o.conditions && s.chance(1, 10) { *s.pick(&[" media=\"print\"", " media=\"screen\""]) } else { "" };
            // in defs, so that taking it out does not change the place of other elements
            format!("<defs><style{media}>{}</style></defs>", g.sheet(s))
        };
        let sheets = !self.o.groups || s.chance(1, 3);
        if sheets && s.chance(5, 6) {
            t += &style(self, s);
        }
        if sheets && s.chance(1, 5) {
            t += &style(self, s);
        }
        for _ in 0..1 + s.weighted(&[3, 3, 2, 1]) {
            t += &self.element(s, 3);
        }
        if sheets && s.chance(1, 8) {
            t += &style(self, s);
        }
        t.push_str("</svg>");
        t
    }
}

/// A value in a form in which equivalent spellings are equal.
pub fn norm(v: &str) -> String {
    let v = v.trim();
    let l = v.to_ascii_lowercase();
    if l == "bold" {
        return norm("700");
    }
    if l == "currentcolor" {
        return l;
    }
    if let Some(c) = crate::render::color(v, [0.0; 4]) {
        return format!("rgba({:.0} {:.0} {:.0} {:.2})", c[0] * 255.0, c[1] * 255.0, c[2] * 255.0, c[3]);
    }
    if let Some(u) = crate::render::url_ref(v) {
        return format!("url(#{}) {}", u.0, norm(&u.1));
    }
    let parts: Vec<&str> = v.split([',', ' ', '\t', '\n']).filter(|x| !x.is_empty()).collect();
    let nums: Option<Vec<String>> = parts
        .iter()
        .map(|p| {
            let at = p.find(|c: char| !(c.is_ascii_digit() || "+-.".contains(c))).unwrap_or(p.len());
            let n = p[..at].parse::<f64>().ok()?;
            let unit = if &p[at..] == "px" { "" } else { &p[at..] };
            Some(format!("{:.5}{unit}", n))
        })
        .collect();
    match nums {
        Some(n) if !n.is_empty() => n.join(" "),
        _ => l.replace(['"', '\''], ""),
    }
}
