//! C20: generated JSX re-creates the source drawing.
use pbt::cli::run;
use pbt::engine::{fail, guarded, Check, Cx, Fail, Prop, Src};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Node {
    El { name: String, attrs: Vec<(String, String)>, kids: Vec<Node> },
    Text(String),
    Comment(String),
    Pi(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Input {
    root: Node,
    r#ref: Option<bool>,
    title: Option<bool>,
    desc: Option<bool>,
    expand: Option<u8>,
    no_dimensions: bool,
    icon: Option<String>,
    memo: Option<bool>,
    named: Option<Option<String>>,
    runtime: Option<u8>,
    svg_props: Vec<(String, String)>,
    replace: Vec<(String, String)>,
}

// ---- generation ----

/// Attribute, its name in React, and values in the spelling the library prints.
const ATTRS: &[(&str, &str, &[&str])] = &[
    ("id", "id", &["a", "b-c", "é", "q\"r", "s\\t", "u&amp;v", "w'x", "{y}", "&lt;z>", "a\\", "\\n", "&amp;amp;", "\u{1F600}"]),
    ("class", "className", &["a", "a b"]),
    ("data-x", "data-x", &["1", "q", "\"", "a&#10;b"]),
    ("data-long-name", "data-long-name", &["{x}"]),
    ("aria-label", "aria-label", &["x", "say \"x\"", "C:\\dir", "a &amp; b", "\u{a0}"]),
    ("aria-hidden", "aria-hidden", &["true", "false"]),
    ("role", "role", &["img"]),
    ("tabindex", "tabIndex", &["0", "-1"]),
    ("lang", "lang", &["en"]),
    ("fill", "fill", &["red", "none", "#123456", "url(#a)"]),
    ("stroke", "stroke", &["red", "none", "#123456"]),
    ("fill-opacity", "fillOpacity", &[".5", "1"]),
    ("fill-rule", "fillRule", &["evenodd"]),
    ("clip-path", "clipPath", &["url(#a)"]),
    ("clip-rule", "clipRule", &["evenodd"]),
    ("color-interpolation-filters", "colorInterpolationFilters", &["auto"]),
    ("font-size", "fontSize", &["12px", "small"]),
    ("font-weight", "fontWeight", &["700"]),
    ("font-style", "fontStyle", &["italic"]),
    ("letter-spacing", "letterSpacing", &["2px"]),
    ("marker-end", "markerEnd", &["url(#a)"]),
    ("opacity", "opacity", &[".25"]),
    ("pointer-events", "pointerEvents", &["none"]),
    ("stroke-dasharray", "strokeDasharray", &["none"]),
    ("stroke-dashoffset", "strokeDashoffset", &["3"]),
    ("stroke-linecap", "strokeLinecap", &["round"]),
    ("stroke-linejoin", "strokeLinejoin", &["round"]),
    ("stroke-miterlimit", "strokeMiterlimit", &["3"]),
    ("stroke-opacity", "strokeOpacity", &[".5"]),
    ("stroke-width", "strokeWidth", &["2", ".5"]),
    ("text-anchor", "textAnchor", &["middle"]),
    ("vector-effect", "vectorEffect", &["non-scaling-stroke"]),
    ("visibility", "visibility", &["hidden"]),
    ("display", "display", &["none"]),
    ("transform", "transform", &["translate(1 2)"]),
    ("xml:space", "xmlSpace", &["preserve"]),
    ("xml:lang", "xmlLang", &["en"]),
];
const OWN: &[(&str, &str, &str, &[&str])] = &[
    ("svg", "viewBox", "viewBox", &["0 0 10 20"]),
    ("svg", "width", "width", &["10", "50%", "0.125", "1e3"]),
    ("svg", "height", "height", &["7", "5em"]),
    ("svg", "preserveAspectRatio", "preserveAspectRatio", &["none"]),
    ("svg", "aria-labelledby", "aria-labelledby", &["b"]),
    ("path", "d", "d", &["M0 0h1v1Z"]),
    ("path", "pathLength", "pathLength", &["5"]),
    ("rect", "x", "x", &["1", "-5", "0.1", "25%"]),
    ("rect", "rx", "rx", &["1"]),
    ("rect", "width", "width", &["3"]),
    ("text", "x", "x", &["1", "1 2"]),
    ("text", "textLength", "textLength", &["5"]),
    ("use", "href", "href", &["#a", "#é"]),
    ("use", "xlink:href", "xlinkHref", &["#a", "#a&amp;b"]),
    ("image", "href", "href", &["x.png?a=1&amp;b=2"]),
    ("linearGradient", "gradientUnits", "gradientUnits", &["userSpaceOnUse"]),
    ("linearGradient", "gradientTransform", "gradientTransform", &["rotate(3)"]),
    ("stop", "stop-color", "stopColor", &["red"]),
    ("stop", "stop-opacity", "stopOpacity", &[".5"]),
    ("stop", "offset", "offset", &["1"]),
    ("feGaussianBlur", "stdDeviation", "stdDeviation", &["2"]),
    ("clipPath", "clipPathUnits", "clipPathUnits", &["objectBoundingBox"]),
    ("mask", "maskUnits", "maskUnits", &["userSpaceOnUse"]),
    ("mask", "maskContentUnits", "maskContentUnits", &["userSpaceOnUse"]),
    ("pattern", "patternUnits", "patternUnits", &["userSpaceOnUse"]),
    ("marker", "markerWidth", "markerWidth", &["5"]),
    ("marker", "refX", "refX", &["5"]),
];
/// Attributes whose names are put together by the rule of React.
const NAMES: &[&str] = &[
    "alignment-baseline", "attributeName", "attributeType", "baseFrequency", "baseline-shift", "baseProfile", "calcMode", "clip-path", "clipPathUnits", "clip-rule", "color-interpolation", "color-interpolation-filters", "color-profile", "color-rendering", "contentScriptType", "contentStyleType", "diffuseConstant", "dominant-baseline", "edgeMode", "enable-background", "externalResourcesRequired", "fill-opacity", "fill-rule", "filterRes", "filterUnits", "flood-opacity", "flood-color", "font-family", "font-size", "font-size-adjust", "font-stretch", "font-style", "font-variant", "font-weight", "glyph-orientation-horizontal", "glyph-orientation-vertical", "glyphRef", "gradientTransform", "gradientUnits", "image-rendering", "kernelMatrix", "kernelUnitLength", "keyPoints", "keySplines", "keyTimes", "lengthAdjust", "letter-spacing", "lighting-color", "limitingConeAngle", "marker-end", "markerHeight", "marker-mid", "marker-start", "markerUnits", "markerWidth", "maskContentUnits", "maskUnits", "numOctaves", "paint-order", "pathLength", "patternContentUnits", "patternTransform", "patternUnits", "pointer-events", "pointsAtX", "pointsAtY", "pointsAtZ", "preserveAlpha", "preserveAspectRatio", "primitiveUnits", "refX", "refY", "repeatCount", "repeatDur", "requiredExtensions", "requiredFeatures", "shape-rendering", "specularConstant", "specularExponent", "spreadMethod", "startOffset", "stdDeviation", "stitchTiles", "stop-color", "stop-opacity", "stroke-dasharray", "stroke-dashoffset", "stroke-linecap", "stroke-linejoin", "stroke-miterlimit", "stroke-width", "stroke-opacity", "surfaceScale", "systemLanguage", "tableValues", "targetX", "targetY", "text-anchor", "text-decoration", "textLength", "text-rendering", "transform-origin", "unicode-bidi", "vector-effect", "viewTarget", "word-spacing", "writing-mode", "xChannelSelector", "yChannelSelector", "zoomAndPan", "aria-busy", "aria-checked", "aria-describedby", "aria-level", "aria-owns", "aria-posinset", "aria-valuenow", "cx", "cy", "r", "rx", "ry", "x1", "y2", "fx", "k1", "mode", "operator", "order", "type", "values", "dur", "begin", "by", "from", "to", "rotate", "points", "media", "method", "side",
];
/// Style properties: name, name in React, values as printed.
const STYLES: &[(&str, &str, &[&str])] = &[
    ("fill", "fill", &["red", "none"]),
    ("stroke-width", "strokeWidth", &["2px"]),
    ("font-family", "fontFamily", &["Helvetica"]),
    ("opacity", "opacity", &[".5"]),
    ("--q", "--q", &["1"]),
    ("--long-name", "--long-name", &["x"]),
    ("display", "display", &["none"]),
];
const TEXTS: &[&str] = &[
    "t", "u v", " lead", "trail ", " ", "\n", "\n  ", "a\nb", "a  b", "{x}", "}", "{", "&lt;b", "a > b", "x &amp; y", "&amp;amp;", "&amp;lt;", "\"q\"", "'", "\\n", "é\u{1F600}", "\t", "//c", "/* c */", "&#160;", "`$", "{/* */}", "<![CDATA[<&]]>",
];

fn attrs(s: &mut Src, name: &str) -> Vec<(String, String)> {
    let mut r: Vec<(String, String)> = vec![];
    let n = s.us(4);
    for _ in 0..n {
        let own: Vec<_> = OWN.iter().filter(|o| o.0 == name).collect();
        let (k, v) = if !own.is_empty() && s.chance(1, 2) {
            let o = s.pick(&own);
            (o.1, s.pick(o.3).to_string())
        } else if s.chance(1, 8) {
            let mut ds: Vec<String> = vec![];
            let m = 1 + s.us(3);
            for _ in 0..m {
                let p = s.pick(STYLES);
                if ds.iter().any(|d| d.split(':').next() == Some(p.0)) {
                    continue;
                }
                let imp = if s.chance(1, 4) { "!important" } else { "" };
                ds.push(format!("{}:{}{imp}", p.0, s.pick(p.2)));
            }
            ("style", ds.join(";"))
        } else if s.chance(1, 3) {
            (*s.pick(NAMES), s.pick(&["q9", "é"]).to_string())
        } else {
            let a = s.pick(ATTRS);
            (a.0, s.pick(a.2).to_string())
        };
        if !r.iter().any(|(q, _)| q == k) {
            r.push((k.to_string(), v));
        }
    }
    r
}

fn kids(s: &mut Src, parent: &str, depth: usize) -> Vec<Node> {
    let n = if depth > 3 { 0 } else { s.us(if depth == 0 { 5 } else { 4 }) };
    let texty = matches!(parent, "text" | "tspan" | "textPath");
    let mut r: Vec<Node> = vec![];
    for _ in 0..n {
        s.span(|s| match s.weighted(&[8, if texty { 8 } else { 2 }, 1, 1]) {
            0 => {
                let name = if texty { *s.pick(&["tspan", "textPath", "a", "title"]) } else { *s.pick(&["path", "rect", "g", "text", "use", "defs", "linearGradient", "image", "style", "svg", "clipPath", "mask", "pattern", "marker", "filter"]) };
                r.push(element(s, name, depth + 1));
            }
            // Text nodes are not next to each other.
            1 if !matches!(r.last(), Some(Node::Text(_))) && !(matches!(parent, "svg" | "g" | "defs") && false) => r.push(Node::Text(s.pick(TEXTS).to_string())),
            2 => r.push(Node::Comment(s.pick(&["c", " } ", "<x>"]).to_string())),
            3 => r.push(Node::Pi(s.pick(&["p", "p data", "p {x}"]).to_string())),
            _ => {}
        });
    }
    r
}

fn element(s: &mut Src, name: &str, depth: usize) -> Node {
    let a = attrs(s, name);
    let k = match name {
        "style" => vec![Node::Text(s.pick(&[".a{fill:red}", "a>b{fill:red}", ".a{fill:red}.b{stroke:none}"]).to_string())],
        "title" | "desc" => vec![Node::Text(s.pick(&["t", "a &amp; b", "{x}", "é", "a\nb"]).to_string())],
        "linearGradient" => (0..s.us(3)).map(|_| element(s, "stop", depth + 1)).collect(),
        "filter" => (0..s.us(2)).map(|_| element(s, "feGaussianBlur", depth + 1)).collect(),
        "path" | "rect" | "use" | "image" | "stop" | "feGaussianBlur" => vec![],
        _ => kids(s, name, depth),
    };
    Node::El { name: name.to_string(), attrs: a, kids: k }
}

fn print(n: &Node, root: bool, o: &mut String) {
    match n {
        Node::Text(t) => o.push_str(t),
        Node::Comment(t) => *o += &format!("<!--{t}-->"),
        Node::Pi(t) => *o += &format!("<?{t}?>"),
        Node::El { name, attrs, kids } => {
            *o += &format!("<{name}");
            if root {
                *o += " xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\"";
            }
            for (k, v) in attrs {
                *o += &format!(" {k}=\"{}\"", v.replace('"', "&quot;"));
            }
            if kids.is_empty() {
                *o += "/>";
            } else {
                o.push('>');
                kids.iter().for_each(|k| print(k, false, o));
                *o += &format!("</{name}>");
            }
        }
    }
}

/// The text as an XML reader gives it.
fn plain(t: &str, attr: bool) -> String {
    if let Some(t) = t.strip_prefix("<![CDATA[") {
        return t.strip_suffix("]]>").unwrap().to_string();
    }
    let t = if attr { t.replace(['\n', '\t'], " ") } else { t.to_string() };
    t.replace("&lt;", "<").replace("&#160;", "\u{a0}").replace("&#10;", "\n").replace("&quot;", "\"").replace("&amp;", "&")
}

// ---- what is expected ----

#[derive(Clone, Debug, PartialEq)]
enum V {
    Undef,
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Obj(Vec<(String, V)>),
    El(Tree),
    Fun(usize),
    Wrap(String, Box<V>),
}

#[derive(Clone, Debug, PartialEq)]
struct Tree {
    name: String,
    attrs: BTreeMap<String, V>,
    kids: Vec<Kid>,
}

#[derive(Clone, Debug, PartialEq)]
enum Kid {
    El(Tree),
    Text(String),
}

fn push(k: &mut Vec<Kid>, t: &str) {
    if t.is_empty() {
        return;
    }
    if let Some(Kid::Text(p)) = k.last_mut() {
        p.push_str(t);
    } else {
        k.push(Kid::Text(t.to_string()));
    }
}

fn css(t: &str) -> String {
    t.chars().filter(|c| !c.is_whitespace()).collect::<String>().replace(";}", "}")
}

/// The name of an attribute in React.
fn react(name: &str, k: &str) -> String {
    OWN.iter().find(|o| o.0 == name && o.1 == k).map(|o| o.2).or_else(|| ATTRS.iter().find(|a| a.0 == k).map(|a| a.1)).map_or_else(|| camel(k), str::to_string)
}

/// Dashes go, except in ARIA and data attributes.
fn camel(k: &str) -> String {
    if k.starts_with("aria-") {
        return k.to_string();
    }
    let mut parts = k.split('-');
    let mut r = parts.next().unwrap().to_string();
    for p in parts {
        r += &p[..1].to_uppercase();
        r += &p[1..];
    }
    r
}

fn tree(n: &Node) -> Option<Tree> {
    let Node::El { name, attrs, kids } = n else { return None };
    let mut r = Tree { name: name.clone(), attrs: BTreeMap::new(), kids: vec![] };
    for (k, v) in attrs {
        let v = if k == "style" {
            V::Obj(
                v.split(';')
                    .map(|d| {
                        let (p, v) = d.split_once(':').unwrap();
                        let n = STYLES.iter().find(|q| q.0 == p).unwrap().1;
                        (n.to_string(), V::Str(v.replace("!important", " !important")))
                    })
                    .collect(),
            )
        } else {
            V::Str(plain(v, true))
        };
        r.attrs.insert(react(name, k), v);
    }
    for k in kids {
        match k {
            Node::El { .. } => r.kids.push(Kid::El(tree(k).unwrap())),
            Node::Text(t) => {
                let t = plain(t, false);
                if name == "style" {
                    push(&mut r.kids, &css(&t));
                } else if matches!(name.as_str(), "text" | "tspan" | "textPath" | "title" | "desc" | "a") || !t.trim().is_empty() {
                    push(&mut r.kids, &t);
                }
            }
            _ => {}
        }
    }
    Some(r)
}

// ---- reading the module ----

#[derive(Clone, Debug)]
enum E {
    Lit(V),
    Id(String),
    Member(Box<E>, String),
    Call(Box<E>, Vec<E>),
    Or(Box<E>, Box<E>),
    Eq(Box<E>, Box<E>),
    Cond(Box<E>, Box<E>, Box<E>),
    Obj(Vec<(String, E)>),
    Jsx(String, Vec<(Option<String>, E)>, Vec<E>),
    Text(String),
    Nothing,
}

struct Reader<'a> {
    t: &'a [char],
    at: usize,
}

type R<T> = Result<T, String>;

impl Reader<'_> {
    fn space(&mut self) {
        while self.at < self.t.len() && self.t[self.at].is_whitespace() {
            self.at += 1;
        }
    }
    fn err<T>(&self, what: &str) -> R<T> {
        let near: String = self.t[self.at.min(self.t.len())..].iter().take(30).collect();
        Err(format!("{what} before {near:?}"))
    }
    fn has(&mut self, s: &str) -> bool {
        self.space();
        self.has_here(s)
    }
    fn has_here(&mut self, s: &str) -> bool {
        let c: Vec<char> = s.chars().collect();
        if self.t[self.at..].starts_with(&c) {
            self.at += c.len();
            true
        } else {
            false
        }
    }
    fn need(&mut self, s: &str) -> R<()> {
        if self.has(s) { Ok(()) } else { self.err(&format!("{s} missing")) }
    }
    fn peek(&mut self) -> char {
        self.space();
        self.t.get(self.at).copied().unwrap_or('\0')
    }
    fn word(&mut self, dash: bool) -> R<String> {
        self.space();
        let s = self.at;
        while let Some(&c) = self.t.get(self.at) {
            if c.is_alphanumeric() || c == '_' || c == '$' || (dash && (c == '-' || c == ':')) {
                self.at += 1;
            } else {
                break;
            }
        }
        if s == self.at || self.t[s].is_numeric() { self.err("name missing") } else { Ok(self.t[s..self.at].iter().collect()) }
    }
    /// A string with the escapes of the language.
    fn string(&mut self) -> R<String> {
        self.space();
        let q = self.t[self.at];
        self.at += 1;
        let mut r: Vec<u16> = vec![];
        let mut put = |c: char| {
            let mut b = [0; 2];
            r.extend_from_slice(c.encode_utf16(&mut b));
        };
        loop {
            let Some(&c) = self.t.get(self.at) else { return self.err("string not closed") };
            self.at += 1;
            match c {
                c if c == q => break,
                '\n' | '\r' => return self.err("line break in string"),
                '\\' => {
                    let c = self.t.get(self.at).copied().unwrap_or('\0');
                    self.at += 1;
                    match c {
                        'n' => put('\n'),
                        'r' => put('\r'),
                        't' => put('\t'),
                        'b' => put('\u{8}'),
                        'f' => put('\u{c}'),
                        'v' => put('\u{b}'),
                        '0' => put('\0'),
                        'x' | 'u' => {
                            let h: String = if c == 'x' {
                                self.t[self.at..].iter().take(2).collect()
                            } else if self.t.get(self.at) == Some(&'{') {
                                self.at += 2;
                                self.t[self.at - 1..].iter().take_while(|c| **c != '}').collect()
                            } else {
                                self.t[self.at..].iter().take(4).collect()
                            };
                            self.at += h.len();
                            let n = u32::from_str_radix(&h, 16).map_err(|_| format!("escape {h}"))?;
                            match char::from_u32(n) {
                                Some(c) => put(c),
                                None => return Err("lone surrogate".into()),
                            }
                        }
                        c => put(c),
                    }
                }
                c => put(c),
            }
        }
        String::from_utf16(&r).map_err(|_| "surrogates".into())
    }
    fn expr(&mut self) -> R<E> {
        let a = self.or()?;
        if self.peek() == '?' {
            self.at += 1;
            let b = self.expr()?;
            self.need(":")?;
            let c = self.expr()?;
            return Ok(E::Cond(a.into(), b.into(), c.into()));
        }
        Ok(a)
    }
    fn or(&mut self) -> R<E> {
        let mut a = self.postfix()?;
        loop {
            if self.has("||") {
                a = E::Or(a.into(), self.postfix()?.into());
            } else if self.has("===") {
                a = E::Eq(a.into(), self.postfix()?.into());
            } else {
                return Ok(a);
            }
        }
    }
    fn postfix(&mut self) -> R<E> {
        let mut a = self.primary()?;
        loop {
            if self.has("(") {
                let mut v = vec![];
                while !self.has(")") {
                    v.push(self.expr()?);
                    if !self.has(",") {
                        self.need(")")?;
                        break;
                    }
                }
                a = E::Call(a.into(), v);
            } else if self.has(".") {
                a = E::Member(a.into(), self.word(false)?);
            } else {
                return Ok(a);
            }
        }
    }
    fn primary(&mut self) -> R<E> {
        match self.peek() {
            '"' | '\'' => Ok(E::Lit(V::Str(self.string()?))),
            '<' => self.jsx(),
            '(' => {
                self.at += 1;
                let e = self.expr()?;
                self.need(")")?;
                Ok(e)
            }
            '{' => {
                self.at += 1;
                let mut v = vec![];
                while !self.has("}") {
                    let k = if matches!(self.peek(), '"' | '\'') { self.string()? } else { self.word(false)? };
                    self.need(":")?;
                    v.push((k, self.expr()?));
                    if !self.has(",") {
                        self.need("}")?;
                        break;
                    }
                }
                Ok(E::Obj(v))
            }
            c if c.is_ascii_digit() || c == '-' || c == '.' => {
                let s = self.at;
                self.at += 1;
                while let Some(&c) = self.t.get(self.at) {
                    if c.is_ascii_digit() || c == '.' || c == 'e' || c == 'E' || ((c == '-' || c == '+') && matches!(self.t[self.at - 1], 'e' | 'E')) {
                        self.at += 1;
                    } else {
                        break;
                    }
                }
                let w: String = self.t[s..self.at].iter().collect();
                w.parse().map(|n| E::Lit(V::Num(n))).map_err(|_| format!("number {w}"))
            }
            _ => {
                let w = self.word(false)?;
                Ok(match w.as_str() {
                    "undefined" => E::Lit(V::Undef),
                    "null" => E::Lit(V::Null),
                    "true" => E::Lit(V::Bool(true)),
                    "false" => E::Lit(V::Bool(false)),
                    _ => E::Id(w),
                })
            }
        }
    }
    fn jsx(&mut self) -> R<E> {
        self.need("<")?;
        let name = if self.peek() == '>' { String::new() } else { self.word(true)? };
        let mut attrs = vec![];
        loop {
            match self.peek() {
                '/' => {
                    self.at += 1;
                    if !self.has_here(">") {
                        return self.err("> missing");
                    }
                    return Ok(E::Jsx(name, attrs, vec![]));
                }
                '>' => {
                    self.at += 1;
                    break;
                }
                '{' => {
                    self.at += 1;
                    self.need("...")?;
                    attrs.push((None, self.expr()?));
                    self.need("}")?;
                }
                _ => {
                    let k = self.word(true)?;
                    if !self.has("=") {
                        attrs.push((Some(k), E::Lit(V::Bool(true))));
                        continue;
                    }
                    let v = match self.peek() {
                        q @ ('"' | '\'') => {
                            // No escapes, but character references.
                            self.at += 1;
                            let s = self.at;
                            while self.t.get(self.at).is_some_and(|c| *c != q) {
                                self.at += 1;
                            }
                            if self.at >= self.t.len() {
                                return self.err("string not closed");
                            }
                            self.at += 1;
                            E::Lit(V::Str(entities(&self.t[s..self.at - 1].iter().collect::<String>())))
                        }
                        '{' => {
                            self.at += 1;
                            let e = self.expr()?;
                            self.need("}")?;
                            e
                        }
                        _ => return self.err("attribute value"),
                    };
                    attrs.push((Some(k), v));
                }
            }
        }
        let mut kids = vec![];
        loop {
            let s = self.at;
            while self.t.get(self.at).is_some_and(|c| !matches!(c, '<' | '{' | '}' | '>')) {
                self.at += 1;
            }
            let raw: String = self.t[s..self.at].iter().collect();
            if !raw.is_empty() {
                kids.push(E::Text(jsx_text(&raw)));
            }
            match self.t.get(self.at) {
                Some('{') => {
                    self.at += 1;
                    if self.has("}") {
                        continue;
                    }
                    kids.push(self.expr()?);
                    self.need("}")?;
                    if false {
                        kids.push(E::Nothing);
                    }
                }
                Some('<') if self.t.get(self.at + 1) == Some(&'/') => {
                    self.at += 2;
                    let end = if self.peek() == '>' { String::new() } else { self.word(true)? };
                    self.need(">")?;
                    if end != name {
                        return self.err("wrong closing name");
                    }
                    return Ok(E::Jsx(name, attrs, kids));
                }
                Some('<') => kids.push(self.jsx()?),
                _ => return self.err("text not allowed"),
            }
        }
    }
}

fn entities(s: &str) -> String {
    let mut r = String::new();
    let mut rest = s;
    while let Some(p) = rest.find('&') {
        r += &rest[..p];
        rest = &rest[p..];
        let e = rest.find(';').filter(|e| *e < 12);
        let c = e.and_then(|e| {
            let n = &rest[1..e];
            match n {
                "amp" => Some('&'),
                "lt" => Some('<'),
                "gt" => Some('>'),
                "quot" => Some('"'),
                "apos" => Some('\''),
                "nbsp" => Some('\u{a0}'),
                _ => n.strip_prefix("#x").and_then(|h| u32::from_str_radix(h, 16).ok()).or_else(|| n.strip_prefix('#').and_then(|d| d.parse().ok())).and_then(char::from_u32),
            }
        });
        match c {
            Some(c) => {
                r.push(c);
                rest = &rest[e.unwrap() + 1..];
            }
            None => {
                r.push('&');
                rest = &rest[1..];
            }
        }
    }
    r + rest
}

/// Lines are trimmed, except for the start of the first and the end of the last; lines that are left are joined by spaces.
fn jsx_text(raw: &str) -> String {
    let lines: Vec<&str> = raw.split(['\n', '\r']).collect();
    let n = lines.len();
    let kept: Vec<String> = lines
        .iter()
        .enumerate()
        .map(|(i, l)| {
            let l = l.replace('\t', " ");
            let l = if i > 0 { l.trim_start_matches(' ').to_string() } else { l };
            if i + 1 < n { l.trim_end_matches(' ').to_string() } else { l }
        })
        .filter(|l| !l.is_empty())
        .collect();
    entities(&kept.join(" "))
}

#[derive(Default)]
struct Module {
    /// Name, source, and whether it is the whole module.
    imports: BTreeMap<String, (String, bool)>,
    functions: Vec<(Vec<Param>, E)>,
    consts: Vec<(String, E)>,
    export: Option<(Option<String>, String)>,
}

#[derive(Clone, Debug)]
enum Param {
    Name(String),
    Parts(Vec<String>, Option<String>),
}

fn module(text: &str) -> R<Module> {
    let t: Vec<char> = text.chars().collect();
    let mut r = Reader { t: &t, at: 0 };
    let mut m = Module::default();
    let mut names: Vec<String> = vec![];
    loop {
        if r.peek() == '\0' {
            break;
        }
        match r.word(false)?.as_str() {
            "import" => {
                let mut got: Vec<(String, bool)> = vec![];
                loop {
                    match r.peek() {
                        '*' => {
                            r.at += 1;
                            r.need("as")?;
                            got.push((r.word(false)?, true));
                        }
                        '{' => {
                            r.at += 1;
                            while !r.has("}") {
                                got.push((r.word(false)?, false));
                                if !r.has(",") {
                                    r.need("}")?;
                                    break;
                                }
                            }
                        }
                        _ => got.push((r.word(false)?, false)),
                    }
                    if !r.has(",") {
                        break;
                    }
                }
                r.need("from")?;
                r.space();
                let s = r.string()?;
                for (n, whole) in got {
                    names.push(n.clone());
                    m.imports.insert(n, (s.clone(), whole));
                }
            }
            "const" => {
                let n = r.word(false)?;
                names.push(n.clone());
                r.need("=")?;
                if r.peek() == '(' {
                    r.at += 1;
                    let mut ps = vec![];
                    while !r.has(")") {
                        if r.has("{") {
                            let (mut parts, mut rest) = (vec![], None);
                            while !r.has("}") {
                                if r.has("...") {
                                    rest = Some(r.word(false)?);
                                } else {
                                    parts.push(r.word(false)?);
                                }
                                if !r.has(",") {
                                    r.need("}")?;
                                    break;
                                }
                            }
                            ps.push(Param::Parts(parts, rest));
                        } else {
                            ps.push(Param::Name(r.word(false)?));
                        }
                        if !r.has(",") {
                            r.need(")")?;
                            break;
                        }
                    }
                    r.need("=>")?;
                    let e = r.expr()?;
                    m.functions.push((ps, e));
                    m.consts.push((n, E::Lit(V::Fun(m.functions.len() - 1))));
                } else {
                    let e = r.expr()?;
                    m.consts.push((n, e));
                }
            }
            "export" => {
                if r.has("{") {
                    let n = r.word(false)?;
                    let alias = if r.has("as") { r.word(false)? } else { n.clone() };
                    r.need("}")?;
                    m.export = Some((Some(alias), n));
                } else {
                    r.need("default")?;
                    m.export = Some((None, r.word(false)?));
                }
            }
            w => return r.err(&format!("unexpected {w}")),
        }
        r.need(";")?;
    }
    let n = names.len();
    names.sort();
    names.dedup();
    if names.len() != n {
        return Err("a name is declared twice".into());
    }
    Ok(m)
}

fn eval(e: &E, env: &BTreeMap<String, V>) -> R<V> {
    let truthy = |v: &V| !matches!(v, V::Undef | V::Null | V::Bool(false)) && *v != V::Num(0.0) && *v != V::Str(String::new());
    Ok(match e {
        E::Lit(v) => v.clone(),
        E::Text(t) => V::Str(t.clone()),
        E::Nothing => V::Null,
        E::Id(n) => env.get(n).cloned().ok_or(format!("{n} is not declared"))?,
        E::Member(a, n) => match eval(a, env)? {
            V::Obj(v) => v.iter().find(|x| x.0 == *n).map_or(V::Undef, |x| x.1.clone()),
            _ => V::Undef,
        },
        E::Call(f, a) => match eval(f, env)? {
            V::Wrap(n, _) if a.len() == 1 => V::Wrap(n, Box::new(eval(&a[0], env)?)),
            f => return Err(format!("{f:?} is called")),
        },
        E::Or(a, b) => {
            let a = eval(a, env)?;
            if truthy(&a) { a } else { eval(b, env)? }
        }
        E::Eq(a, b) => V::Bool(eval(a, env)? == eval(b, env)?),
        E::Cond(a, b, c) => {
            if truthy(&eval(a, env)?) {
                eval(b, env)?
            } else {
                eval(c, env)?
            }
        }
        E::Obj(v) => {
            let mut r: Vec<(String, V)> = vec![];
            for (k, e) in v {
                r.retain(|x| x.0 != *k);
                r.push((k.clone(), eval(e, env)?));
            }
            V::Obj(r)
        }
        E::Jsx(name, attrs, kids) => {
            let mut t = Tree { name: name.clone(), attrs: BTreeMap::new(), kids: vec![] };
            let mut seen: Vec<&String> = vec![];
            for (k, e) in attrs {
                match k {
                    Some(k) => {
                        if seen.contains(&k) {
                            return Err(format!("attribute {k} twice"));
                        }
                        seen.push(k);
                        t.attrs.insert(k.clone(), eval(e, env)?);
                    }
                    None => match eval(e, env)? {
                        V::Obj(v) => t.attrs.extend(v),
                        v => return Err(format!("{v:?} is spread")),
                    },
                }
            }
            for k in kids {
                child(&mut t.kids, eval(k, env)?)?;
            }
            t.attrs.retain(|_, v| !matches!(v, V::Undef | V::Null));
            V::El(t)
        }
    })
}

fn child(kids: &mut Vec<Kid>, v: V) -> R<()> {
    match v {
        V::Undef | V::Null | V::Bool(_) => {}
        V::Str(s) => push(kids, &s),
        V::Num(n) => push(kids, &n.to_string()),
        V::El(t) if t.name.is_empty() => kids.extend(t.kids),
        V::El(t) => kids.push(Kid::El(t)),
        v => return Err(format!("{v:?} as a child")),
    }
    Ok(())
}

fn call(m: &Module, env: &BTreeMap<String, V>, f: usize, props: &V, r: &V) -> R<V> {
    let (ps, body) = &m.functions[f];
    let mut env = env.clone();
    for (p, v) in ps.iter().zip([props, r]) {
        match p {
            Param::Name(n) => {
                env.insert(n.clone(), v.clone());
            }
            Param::Parts(parts, rest) => {
                let V::Obj(o) = v else { return Err("no object".into()) };
                for n in parts {
                    env.insert(n.clone(), o.iter().find(|x| x.0 == *n).map_or(V::Undef, |x| x.1.clone()));
                }
                if let Some(n) = rest {
                    env.insert(n.clone(), V::Obj(o.iter().filter(|x| !parts.contains(&x.0)).cloned().collect()));
                }
            }
        }
    }
    eval(body, &env)
}

// ---- comparing ----

fn text(v: &V) -> String {
    match v {
        V::Str(s) => s.clone(),
        V::Num(n) => n.to_string(),
        V::Bool(b) => b.to_string(),
        v => format!("{v:?}"),
    }
}

fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Obj(a), V::Obj(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(l, w)| k == l && same(v, w))),
        (V::Obj(_), _) | (_, V::Obj(_)) => false,
        _ => {
            let (a, b) = (text(a), text(b));
            a == b
                || match (a.parse::<f64>(), b.parse::<f64>()) {
                    // Single precision.
                    (Ok(a), Ok(b)) => (a - b).abs() <= 1e-6 * a.abs().max(b.abs()),
                    _ => false,
                }
        }
    }
}

fn compare(want: &Tree, got: &Tree, at: &str) -> Result<(), Fail> {
    let here = format!("{at}/{}", want.name);
    if want.name != got.name {
        return fail("element", format!("{here}: {} instead", got.name));
    }
    for (k, v) in &want.attrs {
        match got.attrs.get(k) {
            None => return fail(format!("attribute lost: {k}"), format!("{here}: {k}={v:?} is missing")),
            Some(w) if !same(v, w) => return fail(if k == "style" { "style value".to_string() } else { "attribute value".to_string() }, format!("{here}: {k} is {w:?}, not {v:?}")),
            _ => {}
        }
    }
    if let Some(k) = got.attrs.keys().find(|k| !want.attrs.contains_key(*k)) {
        return fail("attribute added", format!("{here}: {k}={:?}", got.attrs[k]));
    }
    let got_kids: Vec<Kid> = if want.name == "style" { got.kids.iter().map(|k| if let Kid::Text(t) = k { Kid::Text(css(t)) } else { k.clone() }).collect() } else { got.kids.clone() };
    for (i, k) in want.kids.iter().enumerate() {
        match (k, got_kids.get(i)) {
            (Kid::El(a), Some(Kid::El(b))) => compare(a, b, &here)?,
            (Kid::Text(a), Some(Kid::Text(b))) if a == b => {}
            (Kid::Text(a), b) => return fail("text", format!("{here}: {a:?} became {b:?}")),
            (Kid::El(a), b) => return fail("child", format!("{here}: <{}> became {b:?}", a.name)),
        }
    }
    if got_kids.len() > want.kids.len() {
        return fail("child added", format!("{here}: {:?}", got_kids[want.kids.len()]));
    }
    Ok(())
}

fn templated(v: &str) -> V {
    match v.strip_prefix('{').and_then(|v| v.strip_suffix('}')) {
        Some(e) if e.starts_with('"') => V::Str(e.trim_matches('"').to_string()),
        Some(e) => V::Num(e.parse().unwrap()),
        None => V::Str(v.to_string()),
    }
}

fn replaced(t: &mut Tree, key: &str, v: &V) {
    for w in t.attrs.values_mut() {
        if *w == V::Str(key.to_string()) {
            *w = v.clone();
        }
    }
    for k in &mut t.kids {
        if let Kid::El(t) = k {
            replaced(t, key, v);
        }
    }
}

/// What the component gives for the properties.
fn expected(i: &Input, props: &[(String, V)], r: &V) -> Tree {
    let mut t = tree(&i.root).unwrap();
    t.attrs.insert("xmlnsXlink".into(), V::Str("http://www.w3.org/1999/xlink".into()));
    let prop = |n: &str| props.iter().find(|p| p.0 == n).map_or(V::Undef, |p| p.1.clone());
    if i.no_dimensions {
        t.attrs.remove("width");
        t.attrs.remove("height");
    }
    for (k, v) in &i.svg_props {
        t.attrs.insert(k.clone(), templated(v));
    }
    match i.icon.as_deref() {
        None | Some("false") => {}
        Some(v) => {
            let v = if v == "true" { V::Str("1em".into()) } else { V::Str(v.into()) };
            t.attrs.insert("width".into(), v.clone());
            t.attrs.insert("height".into(), v);
        }
    }
    for (k, v) in &i.replace {
        replaced(&mut t, k, &templated(v));
    }
    let mut taken: Vec<&str> = vec![];
    if i.r#ref == Some(true) {
        t.attrs.insert("ref".into(), r.clone());
    }
    if i.title == Some(true) {
        taken.extend(["title", "titleId"]);
        t.attrs.insert("aria-labelledby".into(), prop("titleId"));
    }
    if i.desc == Some(true) {
        taken.extend(["desc", "descId"]);
        t.attrs.insert("aria-describedby".into(), prop("descId"));
    }
    for (on, tag, id) in [(i.desc, "desc", "descId"), (i.title, "title", "titleId")] {
        if on != Some(true) {
            continue;
        }
        let (v, id) = (prop(tag), prop(id));
        let new = |id: V, v: &V| Tree { name: tag.into(), attrs: std::iter::once(("id".to_string(), id)).filter(|x| x.1 != V::Undef).collect(), kids: vec![Kid::Text(text(v))] };
        match t.kids.iter_mut().find_map(|k| if let Kid::El(e) = k { (e.name == tag).then_some(e) } else { None }) {
            Some(e) => {
                let had = e.attrs.get("id").cloned();
                let now = if id != V::Undef { id.clone() } else { had.clone().unwrap_or(V::Undef) };
                if v != V::Undef {
                    *e = new(now, &v);
                } else if had.is_some() {
                    e.attrs.insert("id".into(), now);
                }
            }
            None if v != V::Undef => t.kids.insert(0, Kid::El(new(id, &v))),
            None => {}
        }
    }
    let rest = props.iter().filter(|p| !taken.contains(&p.0.as_str())).cloned();
    match i.expand {
        None | Some(0) => t.attrs.extend(rest),
        Some(1) => {
            let own = std::mem::take(&mut t.attrs);
            t.attrs.extend(rest);
            t.attrs.extend(own);
        }
        _ => {}
    }
    t.attrs.retain(|_, v| *v != V::Undef);
    t
}

struct P;
impl Prop for P {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> String {
        "the drawing has at least three elements or an option is given".into()
    }
    fn cases(&self) -> (u64, u64) {
        (20_000, 300_000)
    }
    fn generate(&self, s: &mut Src, _: &mut Cx) -> Input {
        let mut root = element(s, "svg", 0);
        // Title and description of the drawing are children of the root.
        let Node::El { kids, .. } = &mut root else { unreachable!() };
        fn none(k: &mut Vec<Node>) {
            k.retain(|n| !matches!(n, Node::El { name, .. } if name == "title"));
            k.iter_mut().for_each(|n| if let Node::El { kids, .. } = n { none(kids) });
            k.dedup_by(|b, a| matches!((a, b), (Node::Text(_), Node::Text(_))));
        }
        let title = s.chance(1, 3).then_some(s.chance(2, 3));
        if title == Some(true) {
            none(kids);
        }
        for n in ["desc", "title"] {
            if s.chance(1, 4) {
                kids.insert(0, element(s, n, 1));
            }
        }
        let svg_props = (0..if s.chance(1, 4) { 1 + s.us(3) } else { 0 })
            .map(|k| ([ "role", "focusable", "data-q", "fill" ][k].to_string(), s.pick(&["img", "{5}", "{\"x\"}", "a\"b", "c\\d", "e&f", "\"g\""]).to_string()))
            .collect();
        let replace = if s.chance(1, 4) { vec![("red".to_string(), s.pick(&["currentColor", "{\"lime\"}", "{7}", "a\"b"]).to_string())] } else { vec![] };
        Input {
            root,
            r#ref: s.chance(1, 3).then_some(s.chance(2, 3)),
            title,
            desc: s.chance(1, 3).then_some(s.chance(2, 3)),
            expand: s.chance(1, 2).then_some(s.us(3) as u8),
            no_dimensions: s.chance(1, 4),
            icon: if s.chance(1, 4) { Some(s.pick(&["true", "false", "24", "2rem", "1.5"]).to_string()) } else { None },
            memo: s.chance(1, 3).then_some(s.chance(2, 3)),
            named: if s.chance(1, 3) { Some(if s.chance(1, 2) { Some("Foo".to_string()) } else { None }) } else { None },
            runtime: s.chance(1, 3).then_some(s.us(3) as u8),
            svg_props,
            replace,
        }
    }
    fn render(&self, i: &Input) -> String {
        let mut o = String::new();
        print(&i.root, true, &mut o);
        format!("{o} {:?}", args(i))
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![("text that is not plain", 100), ("attribute that is not plain", 100), ("style attribute", 50), ("style sheet", 50), ("title", 100), ("ref", 100), ("memo", 100), ("svg props", 100), ("values replaced", 100)]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["a component is evaluated by the rules of JSX and of function components; attributes are compared under their React names, numbers to single precision".into(), "TypeScript and native output are not generated, nor attributes only fonts and colour profiles take".into()]
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Check {
        let mut svg = String::new();
        print(&i.root, true, &mut svg);
        labels(&i.root, cx);
        cx.label_if(i.title == Some(true), "title");
        cx.label_if(i.r#ref == Some(true), "ref");
        cx.label_if(i.memo == Some(true), "memo");
        cx.label_if(!i.svg_props.is_empty(), "svg props");
        cx.label_if(!i.replace.is_empty(), "values replaced");
        if svg.matches('<').count() > 3 || args(i).len() > 2 {
            cx.nontrivial(&format!("{svg}{:?}", args(i)));
        }
        guarded(|| {
            let dir = pbt::cli::Scratch::new();
            let args = args(i);
            std::fs::create_dir_all(dir.0.join("work")).expect("scratch directory");
            let r = run(&dir, &args, svg.as_bytes());
            let out = String::from_utf8_lossy(&r.out).into_owned();
            let shown = || format!("{svg}\n{args:?}\n{out}");
            if r.code != Some(0) {
                return fail("refused", format!("{}\n{}", shown(), r.err));
            }
            let out = out.strip_suffix("Created 0 files.\n").unwrap_or(&out).to_string();
            if i.svg_props.len() > 1 {
                let again = run(&dir, &args, svg.as_bytes());
                if again.out != r.out {
                    return fail("not repeatable", format!("{}\nand then\n{}", shown(), String::from_utf8_lossy(&again.out)));
                }
            }
            judge(i, &out).map_err(|f| Fail::new(f.sig.clone(), format!("{}\n{}", f.msg, shown())))
        })
    }
}

fn labels(n: &Node, cx: &mut Cx) {
    match n {
        Node::El { name, attrs, kids } => {
            cx.label_if(name == "style", "style sheet");
            cx.label_if(attrs.iter().any(|a| a.0 == "style"), "style attribute");
            cx.label_if(attrs.iter().any(|a| a.1.contains(['"', '\\', '&'])), "attribute that is not plain");
            kids.iter().for_each(|k| labels(k, cx));
        }
        Node::Text(t) => cx.label_if(t.contains(['{', '}', '&', '<', '>']), "text that is not plain"),
        _ => {}
    }
}

fn judge(i: &Input, out: &str) -> Check {
    let bad = |e: String| Fail::new("not valid", e);
    let m = module(out).map_err(bad)?;
    let mut env: BTreeMap<String, V> = BTreeMap::new();
    let source = |n: &str| m.imports.get(n).map(|x| x.0.as_str());
    for n in ["memo", "forwardRef"] {
        if m.imports.contains_key(n) {
            env.insert(n.into(), V::Wrap(n.into(), Box::new(V::Null)));
        }
    }
    match i.runtime {
        None | Some(0) => {
            if m.imports.get("React") != Some(&("react".to_string(), true)) {
                return fail("runtime", "React is not imported");
            }
        }
        Some(1) => {
            if m.imports.values().any(|x| x.1) {
                return fail("runtime", "a runtime is imported");
            }
        }
        _ => {
            if !source("h").is_some_and(|s| s.starts_with("preact")) {
                return fail("runtime", "h is not imported");
            }
        }
    }
    for (k, e) in &m.consts {
        let v = eval(e, &env).map_err(bad)?;
        env.insert(k.clone(), v);
    }
    let Some((alias, name)) = &m.export else { return fail("export", "nothing is exported") };
    match (&i.named, alias) {
        (None, None) => {}
        (Some(Some(n)), Some(a)) if n == a => {}
        (Some(None), Some(_)) => {}
        _ => return fail("export", format!("exported as {alias:?}")),
    }
    let mut v = env.get(name).cloned().ok_or_else(|| bad(format!("{name} is not declared")))?;
    let (mut memo, mut forward) = (false, false);
    let f = loop {
        match v {
            V::Wrap(n, x) => {
                memo |= n == "memo";
                forward |= n == "forwardRef";
                v = *x;
            }
            V::Fun(f) => break f,
            v => return fail("export", format!("{v:?} is exported")),
        }
    };
    if memo != (i.memo == Some(true)) || forward != (i.r#ref == Some(true)) {
        return fail("component", format!("memo {memo}, forwardRef {forward}"));
    }
    let s = |a: &str, b: &str| (a.to_string(), V::Str(b.to_string()));
    let all = vec![s("title", "TT"), s("titleId", "ti"), s("desc", "DD"), s("descId", "di"), s("width", "77"), s("data-p", "1"), s("fill", "blue")];
    for (props, r) in [(vec![], V::Undef), (all, V::Str("REF".into()))] {
        let got = call(&m, &env, f, &V::Obj(props.clone()), &if forward { r.clone() } else { V::Undef }).map_err(bad)?;
        let V::El(got) = got else { return fail("component", format!("gives {got:?}")) };
        compare(&expected(i, &props, &r), &got, &format!("with {} props: ", props.len()))?;
    }
    Ok(())
}

fn args(i: &Input) -> Vec<String> {
    let mut a = vec!["jsx".to_string(), "--no-oxvg".into(), "--no-warn".into()];
    let mut flag = |n: &str, v: Option<bool>| {
        if let Some(v) = v {
            a.push(format!("--{n}={v}"));
        }
    };
    flag("ref", i.r#ref);
    flag("title-prop", i.title);
    flag("desc-prop", i.desc);
    flag("memo", i.memo);
    if let Some(e) = i.expand {
        a.push(format!("--expand-props={}", ["end", "start", "none"][e as usize]));
    }
    if i.no_dimensions {
        a.push("--no-dimensions".into());
    }
    if let Some(v) = &i.icon {
        a.push(format!("--icon={v}"));
    }
    if let Some(n) = &i.named {
        a.push("--export-type=named".into());
        if let Some(n) = n {
            a.push(format!("--named-export={n}"));
        }
    }
    if let Some(r) = i.runtime {
        a.push(format!("--jsx-runtime={}", ["classic", "automatic", "classic-preact"][r as usize]));
    }
    for (k, v) in &i.svg_props {
        a.push(format!("--svg-props={k}={v}"));
    }
    for (k, v) in &i.replace {
        a.push(format!("--replace-attr-values={k}={v}"));
    }
    a
}

fn main() {
    pbt::engine::main(P);
}
