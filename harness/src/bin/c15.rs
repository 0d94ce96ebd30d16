//! C15: jobs that remove, add or order parts of a document change exactly those parts.
use oxvg_optimiser::Jobs;
use pbt::engine::*;
use pbt::xml::{self, El, Node};
use pbt::{dom, jobs};
use regex::Regex;
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value, json};

#[derive(Clone, Serialize, Deserialize)]
struct Input {
    svg: String,
    job: String,
    params: Value,
}

struct C15;

const JOBS: &[&str] = &[
    "removeComments", "removeMetadata", "removeTitle", "removeDesc", "removeScripts", "removeStyleElement", "removeRasterImages", "removeEditorsNSData", "removeAttrs", "removeAttributesBySelector",
    "removeElementsByAttr", "removeDimensions", "removeViewBox", "removeXMLNS", "removeXMLProcInst", "sortAttrs", "sortDefsChildren", "addAttributesToSVGElement", "addClassesToSVGElement", "removeEmptyAttrs",
    "removeUnusedNS", "removeEmptyText", "cleanupAttrs",
];

const NAMESPACES: &[(&str, &str)] = &[
    ("xlink", "http://www.w3.org/1999/xlink"),
    ("inkscape", "http://www.inkscape.org/namespaces/inkscape"),
    ("sodipodi", "http://sodipodi.sourceforge.net/DTD/sodipodi-0.dtd"),
    ("sketch", "http://www.bohemiancoding.com/sketch/ns"),
    ("rdf", "http://www.w3.org/1999/02/22-rdf-syntax-ns#"),
    ("cc", "http://creativecommons.org/ns#"),
    ("i", "http://ns.adobe.com/AdobeIllustrator/10.0/"),
    ("x", "urn:x"),
    ("y", "http://example.com/inkscape"),
];
const EDITORS: &[&str] = &["inkscape", "sodipodi", "sketch", "rdf", "cc", "i"];

const SVG: &str = "http://www.w3.org/2000/svg";

struct G {
    root: Vec<&'static str>,
    /// Prefixes in scope.
    scope: Vec<&'static str>,
    left: i32,
}

const ELEMENTS: &[&str] = &[
    "g", "path", "rect", "circle", "text", "a", "defs", "linearGradient", "symbol", "pattern", "svg", "image", "use", "metadata", "title", "desc", "script", "style", "tspan", "tref", "clipPath", "radialGradient",
];
const COMMENTS: &[&str] = &["!keep", " a comment ", "", "keep me", " ! not at the start", "legal", "[if IE 8]", "é"];

impl G {
    fn attrs(&mut self, s: &mut Src, e: &mut El) {
        let name = e.name.clone();
        if s.chance(1, 8) {
            let (p, u) = *s.pick(NAMESPACES);
            if !self.scope.contains(&p) {
                e.set(&format!("xmlns:{p}"), u);
                self.scope.push(p);
            }
        }
        if matches!(name.as_str(), "svg" | "symbol" | "pattern") && s.chance(1, 2) {
            let (w, h) = (*s.pick(&["10", "20", "96"]), *s.pick(&["10", "20", "96"]));
            let unit = *s.pick(&["", "", "px", "in", "%"]);
            e.set("width", &format!("{w}{unit}"));
            e.set("height", &format!("{h}{}", if s.chance(3, 4) { unit } else { "" }));
            if s.chance(2, 3) {
                let (x, w) = if s.chance(3, 4) { ("0", w) } else { ("1", "96") };
                let y = if s.chance(3, 4) { "0" } else { "5" };
                e.set("viewBox", &format!("{x} {y} {w} {h}"));
            }
        }
        if name == "image" && s.chance(2, 3) {
            let k = if self.scope.contains(&"xlink") && s.chance(1, 2) { "xlink:href" } else { "href" };
            e.set(k, &link(s));
        }
        let n = s.weighted(&[2, 3, 3, 2, 1, 1]);
        for _ in 0..n {
            match s.us(14) {
                0 => e.set("id", s.pick(&["a", "b", "Layer_1", "é", "i1", "i2"])),
                1 => e.set("class", s.pick(&["a", "b", "a b", "st0 a", "ab", "a a"])),
                2 => e.set("fill", s.pick(&["red", "currentColor", "none", "blue", ""])),
                3 => e.set("stroke", s.pick(&["red", "currentColor", "none", ""])),
                4 => {
                    let k = *s.pick(&["data-x", "data-icon", "data-fill", "data-onclick"]);
                    e.set(k, s.pick(&["", "1", " a  b ", "red", "x  y", "<&\">", "a\u{a0} b"]));
                }
                5 => e.set(s.pick(EVENTS), s.pick(&["f()", "alert('1')", ""])),
                6 => {
                    if let "svg" | "pattern" | "symbol" | "rect" | "image" | "use" = name.as_str() {
                        e.set(s.pick(&["width", "height"]), s.pick(&["10", "20", "10px", "1in", "100%", "2em", "96"]));
                    }
                }
                7 => {
                    if matches!(name.as_str(), "svg" | "symbol" | "pattern") {
                        e.set("viewBox", s.pick(&["0 0 10 20", "0 0 10 10", "0 0 96 96", "1 0 10 10", "0 1 10 10", "0 0 20 10"]));
                    }
                }
                8 => {
                    if let Some(p) = s.opt(2, 3, |s| *s.pick(NAMESPACES)).map(|p| p.0).filter(|p| self.scope.contains(p)) {
                        let l = if p == "xlink" { *s.pick(&["href", "title", "show"]) } else { *s.pick(&["label", "id", "type", "fill", "nodetypes"]) };
                        e.set(&format!("{p}:{l}"), &link(s));
                    }
                }
                9 => {
                    if matches!(name.as_str(), "a" | "image" | "use") {
                        e.set("href", &link(s));
                    }
                }
                10 if matches!(name.as_str(), "g" | "path" | "rect" | "circle" | "text" | "a" | "use" | "image" | "defs" | "svg") => e.set(s.pick(&["requiredFeatures", "systemLanguage", "requiredExtensions"]), s.pick(&["", "en"])),
                11 => e.set(s.pick(&["x", "y", "stroke-width", "fill-opacity", "stroke-opacity", "font-size"]), s.pick(&["1", "2", ""])),
                12 => e.set("version", "1.1"),
                _ => {
                    if name == "svg" || name == "g" {
                        e.set(s.pick(&["role", "focusable", "data-icon", "lang"]), s.pick(&["img", "false", "en"]));
                    }
                }
            }
        }
    }
    fn element(&mut self, s: &mut Src, depth: usize, parent: &str) -> El {
        let before = self.scope.len();
        let prefixes: Vec<&str> = self.scope.iter().copied().filter(|p| *p != "xlink").collect();
        let mut e = El::default();
        e.name = if depth > 0 && !prefixes.is_empty() && s.chance(1, 6) {
            let p = prefixes[s.us(prefixes.len())];
            format!("{p}:{}", s.pick(&["namedview", "title", "metadata", "script", "style", "image", "desc", "g", "text", "svg"]))
        } else if parent == "text" || parent == "tspan" {
            s.pick(&["tspan", "a", "title", "tref", "desc", "script"]).to_string()
        } else {
            s.pick(ELEMENTS).to_string()
        };
        self.attrs(s, &mut e);
        let n = if depth > 4 { 0 } else { s.weighted(&[3, 3, 3, 2, 1, 1, 1]) };
        match e.name.as_str() {
            "style" => {
                e.kids.push(Node::Text(s.pick(&[".a{fill:red}", "#b{stroke:blue}", ""]).to_string()));
            }
            "script" => e.kids.push(Node::Text(s.pick(&["f()", "if (a<b) c()", ""]).to_string())),
            "title" | "desc" => {
                if s.chance(2, 3) {
                    e.kids.push(Node::Text(s.pick(&["Created with Sketch.", "Created using Figma", "A drawing", "created with", "Not Created with", " "]).to_string()));
                }
                if s.chance(1, 6) {
                    e.kids.push(Node::El(El { name: "g".into(), ..El::default() }));
                }
            }
            _ => {
                let name = e.name.clone();
                for _ in 0..n {
                    self.left -= 1;
                    if self.left < 0 {
                        break;
                    }
                    let k = self.node(s, depth + 1, &name);
                    e.kids.push(k);
                }
            }
        }
        self.scope.truncate(before);
        e
    }
    fn node(&mut self, s: &mut Src, depth: usize, parent: &str) -> Node {
        match s.weighted(&[10, 2, 2, 1]) {
            0 => s.span(|s| Node::El(self.element(s, depth, parent))),
            1 => Node::Text(s.pick(&["\n  ", " ", "text", " mixed text ", "é & <"]).to_string()),
            2 => Node::Comment(s.pick(COMMENTS).to_string()),
            _ => Node::Pi(s.pick(&["xml-stylesheet", "php", "xmlx"]).to_string(), s.pick(&["href=\"a.css\"", "x", ""]).to_string()),
        }
    }
}

fn link(s: &mut Src) -> String {
    s.pick(&[
        "a.png", "b.jpg", "c.jpeg", "d.gif", "e.svg", "png/f.svg", "gifts.svg", "data:image/png;base64,AA", "data:image/svg+xml,x", "image/jpeg", "#a", "javascript:f()", " javascript:f()", "JavaScript:f()",
        "https://example.com/", "java.script:", "x.PNG", "dir.with.dots/jpg", "jpeg",
    ])
    .to_string()
}

fn escape(t: &str, quot: bool) -> String {
    let t = t.replace('&', "&amp;").replace('<', "&lt;");
    if quot { t.replace('"', "&quot;") } else { t.replace('>', "&gt;") }
}

fn print(n: &Node, out: &mut String) {
    match n {
        Node::El(e) => {
            out.push('<');
            out.push_str(&e.name);
            for (k, v) in &e.attrs {
                out.push_str(&format!(" {k}=\"{}\"", escape(v, true)));
            }
            if e.kids.is_empty() {
                out.push_str("/>");
            } else {
                out.push('>');
                for k in &e.kids {
                    print(k, out);
                }
                out.push_str(&format!("</{}>", e.name));
            }
        }
        Node::Text(t) => out.push_str(&escape(t, false)),
        Node::Comment(t) => out.push_str(&format!("<!--{t}-->")),
        Node::Pi(n, v) if v.is_empty() => out.push_str(&format!("<?{n}?>")),
        Node::Pi(n, v) => out.push_str(&format!("<?{n} {v}?>")),
        Node::Doctype(t) => out.push_str(&format!("<!DOCTYPE {t}>")),
    }
}

fn names(s: &mut Src, pool: &[&str]) -> Vec<String> {
    s.list(0, 2, 3, |s| s.pick(pool).to_string())
}

fn params(s: &mut Src, job: &str) -> Value {
    let mut m = Map::new();
    let flag = |s: &mut Src, m: &mut Map<String, Value>, k: &str| {
        if s.chance(1, 2) {
            m.insert(k.into(), json!(s.chance(1, 2)));
        }
    };
    match job {
        "removeComments" => {
            if s.chance(2, 3) {
                m.insert("preservePatterns".into(), json!(names(s, &["^!", "keep", "^ ", "legal|IE", "^$", "é", "^[^k]"])));
            }
        }
        "removeDesc" => flag(s, &mut m, "removeAny"),
        "removeEditorsNSData" => {
            if s.chance(1, 2) {
                m.insert("additionalNamespaces".into(), json!(names(s, &["urn:x", "http://example.com/inkscape", "http://www.w3.org/1999/xlink", "urn:none"])));
            }
        }
        "removeAttrs" => {
            let sep = *s.pick(&[":", ":", ",", "::"]);
            let pats: Vec<String> = s.list(1, 2, 3, |s| {
                let el = *s.pick(&["*", "path", "rect", "(rect|g)", "s.*", "tex.", ".*", "svg"]);
                let at = if sep == ":" {
                    *s.pick(&["fill", "stroke", "(fill|stroke)", "fill.*", "class", "data-.*", "i.", "f", "[a-f].*", ".*-width"])
                } else {
                    *s.pick(&["fill", "xlink:href", "data-.*", "x:.*", "inkscape:label", "(id|class)", ".*:fill"])
                };
                let v = *s.pick(&["*", "red", "(none|red)", "re", ".*", "currentColor", "[0-9]+", "a"]);
                match s.us(4) {
                    0 | 1 => at.to_string(),
                    2 => format!("{el}{sep}{at}"),
                    _ => format!("{el}{sep}{at}{sep}{v}"),
                }
            });
            m.insert("attrs".into(), json!(pats));
            if sep != ":" {
                m.insert("elemSeparator".into(), json!(sep));
            }
            flag(s, &mut m, "preserveCurrentColor");
        }
        "removeAttributesBySelector" => {
            return json!(s.list(0, 2, 3, |s| json!({
                "selector": s.pick(&["path", "[fill]", "g > *", ".a", "#a", ":not(g)", "*:first-child", "rect, svg", "*", "g rect", "[fill=red]", "svg", "defs + *", ".a.b"]),
                "attributes": names(s, &["fill", "id", "class", "stroke", "x", "data-x", "xlink:href", "onclick", "fill-opacity", "href"])
            })));
        }
        "removeElementsByAttr" => {
            if s.chance(2, 3) {
                m.insert("id".into(), json!(names(s, &["a", "b", "Layer_1", "é", "i"])));
            }
            if s.chance(2, 3) {
                m.insert("class".into(), json!(names(s, &["a", "b", "st0", "ab", "a b"])));
            }
        }
        "sortAttrs" => {
            if s.chance(1, 2) {
                m.insert("order".into(), json!(names(s, &["id", "fill", "stroke", "data", "class", "href", "font", "x"])));
            }
            if s.chance(1, 2) {
                m.insert("xmlnsOrder".into(), json!(s.pick(&["front", "alphabetical"])));
            }
        }
        "addAttributesToSVGElement" => {
            let mut a = Map::new();
            for _ in 0..s.us(4) {
                a.insert(s.pick(&["focusable", "data-new", "fill", "width", "class", "id", "x:new", "aria-hidden"]).to_string(), json!(s.pick(&["", "false", "red", "10", "<&\">"])));
            }
            m.insert("attributes".into(), Value::Object(a));
        }
        "addClassesToSVGElement" => match s.us(4) {
            0 => {
                m.insert("className".into(), json!(s.pick(&["a", "b c", "", " new  a ", "é"])));
            }
            1 | 2 => {
                m.insert("classNames".into(), json!(names(s, &["a", "b", "new", "é"])));
            }
            _ => {
                m.insert("className".into(), json!("one"));
                m.insert("classNames".into(), json!(["two", "a"]));
            }
        },
        "removeEmptyText" => {
            for k in ["text", "tspan", "tref"] {
                flag(s, &mut m, k);
            }
        }
        "cleanupAttrs" => {
            for k in ["newlines", "trim", "spaces"] {
                flag(s, &mut m, k);
            }
        }
        _ => return json!(true),
    }
    Value::Object(m)
}

/// Removes what the function says of the nodes.
fn prune(nodes: &mut Vec<Node>, drop: &mut impl FnMut(&Node) -> bool) {
    nodes.retain(|n| !drop(n));
    for n in nodes {
        if let Node::El(e) = n {
            prune(&mut e.kids, drop);
        }
    }
}

fn strings(v: Option<&Value>) -> Vec<String> {
    v.and_then(Value::as_array).map(|a| a.iter().filter_map(|x| x.as_str().map(str::to_string)).collect()).unwrap_or_default()
}

fn uri(prefix: &str) -> &'static str {
    NAMESPACES.iter().find(|n| n.0 == prefix).map_or(SVG, |n| n.1)
}

fn blank(kids: &[Node]) -> bool {
    kids.iter().all(|k| matches!(k, Node::Text(t) if t.chars().all(char::is_whitespace)))
}

const EVENTS: &[&str] = &["onclick", "onload", "onmouseover", "onfocusin", "onbegin", "onend", "onpointerdown", "ontouchstart", "onerror", "onscroll", "onanimationstart"];

fn scripts(nodes: Vec<Node>, in_text: bool) -> Vec<Node> {
    let mut out = vec![];
    for n in nodes {
        let Node::El(mut e) = n else {
            out.push(n);
            continue;
        };
        if e.name == "script" {
            continue;
        }
        e.attrs.retain(|a| !EVENTS.contains(&a.0.as_str()));
        e.kids = scripts(e.kids, in_text || e.name == "text");
        let js = ["href", "xlink:href"].iter().filter_map(|k| e.get(k)).any(|v| v.trim().to_lowercase().starts_with("javascript:"));
        if e.name == "a" && js {
            out.extend(e.kids.into_iter().filter(|k| in_text || !matches!(k, Node::Text(_))));
        } else {
            out.push(Node::El(e));
        }
    }
    out
}

/// A length in pixels.
fn px(v: &str) -> Option<f64> {
    for (u, f) in [("px", 1.0), ("in", 96.0)] {
        if let Some(n) = v.strip_suffix(u) {
            return n.parse::<f64>().ok().map(|n| n * f);
        }
    }
    v.parse().ok()
}

/// The document the job should give.
fn model(mut t: Vec<Node>, job: &str, p: &Value, d: &dom::Doc) -> Result<Vec<Node>, Fail> {
    let el = |n: &Node, name: &str| matches!(n, Node::El(e) if e.name == name);
    match job {
        "removeComments" => {
            let keep = if p.get("preservePatterns").is_some() { strings(p.get("preservePatterns")) } else { vec!["^!".to_string()] };
            let keep: Vec<Regex> = keep.iter().map(|k| Regex::new(k).unwrap()).collect();
            prune(&mut t, &mut |n| matches!(n, Node::Comment(c) if !keep.iter().any(|k| k.is_match(c))));
        }
        "removeMetadata" => prune(&mut t, &mut |n| el(n, "metadata")),
        "removeTitle" => prune(&mut t, &mut |n| el(n, "title")),
        "removeStyleElement" => prune(&mut t, &mut |n| el(n, "style")),
        "removeDesc" => {
            let any = p["removeAny"].as_bool().unwrap_or(false);
            prune(&mut t, &mut |n| {
                let Node::El(e) = n else { return false };
                e.name == "desc" && (any || blank(&e.kids) || matches!(&e.kids[0], Node::Text(t) if t.starts_with("Created with") || t.starts_with("Created using")))
            });
        }
        "removeScripts" => t = scripts(t, false),
        "removeRasterImages" => {
            let re = Regex::new(r"(\.|image/)(jpe?g|png|gif)").unwrap();
            prune(&mut t, &mut |n| {
                let Node::El(e) = n else { return false };
                e.name == "image" && e.get("href").or(e.get("xlink:href")).is_some_and(|h| re.is_match(h))
            });
        }
        "removeEditorsNSData" => {
            let mut gone: Vec<String> = EDITORS.iter().map(|e| uri(e).to_string()).collect();
            gone.extend(strings(p.get("additionalNamespaces")));
            let bad = |name: &str| name.split_once(':').is_some_and(|(p, _)| p != "xmlns" && gone.iter().any(|g| g == uri(p)));
            prune(&mut t, &mut |n| matches!(n, Node::El(e) if bad(&e.name)));
            xml::each(&mut t, &mut |e| e.attrs.retain(|(k, v)| !bad(k) && !(k.starts_with("xmlns:") && gone.contains(v))));
        }
        "removeAttrs" => {
            let sep = p["elemSeparator"].as_str().unwrap_or(":").to_string();
            let keep_current = p["preserveCurrentColor"].as_bool().unwrap_or(false);
            for pat in strings(p.get("attrs")) {
                let parts: Vec<&str> = pat.splitn(3, &sep).collect();
                let (e, a, v) = match parts[..] {
                    [a] => ("*", a, "*"),
                    [e, a] => (e, a, "*"),
                    [e, a, v] => (e, a, v),
                    _ => unreachable!(),
                };
                let re = |t: &str| Regex::new(&format!("^(?:{})$", if t == "*" { ".*" } else { t })).unwrap();
                let (e, a, v) = (re(e), re(a), re(v));
                xml::each(&mut t, &mut |x| {
                    if !e.is_match(&x.name) {
                        return;
                    }
                    x.attrs.retain(|(k, val)| k.starts_with("xmlns") || !a.is_match(k) || !v.is_match(val) || (keep_current && matches!(k.as_str(), "fill" | "stroke") && val == "currentColor" && !x.name.contains(':')));
                });
            }
        }
        "removeAttributesBySelector" => {
            for item in p.as_array().unwrap() {
                let sel = dom::split_top(item["selector"].as_str().unwrap(), ',').iter().map(|s| dom::Selector::parse(s.trim())).collect::<Option<Vec<_>>>();
                let sel = sel.ok_or_else(|| Fail::new("selector", item.to_string()))?;
                let gone = strings(item.get("attributes"));
                // selectors see the attributes that are left
                let mut d = d.clone();
                let mut i = 0;
                xml::each(&mut t, &mut |e| {
                    d.els[i].attrs.retain(|a| !a.ns.is_empty() || e.get(&a.name).is_some());
                    i += 1;
                });
                let hit: Vec<bool> = (0..d.els.len()).map(|i| sel.iter().any(|s| s.matches(&d, i))).collect();
                let mut i = 0;
                xml::each(&mut t, &mut |e| {
                    if hit[i] {
                        e.attrs.retain(|a| !gone.contains(&a.0));
                    }
                    i += 1;
                });
            }
        }
        "removeElementsByAttr" => {
            let (ids, classes) = (strings(p.get("id")), strings(p.get("class")));
            prune(&mut t, &mut |n| {
                let Node::El(e) = n else { return false };
                e.get("id").is_some_and(|i| ids.iter().any(|x| x == i)) || e.get("class").is_some_and(|c| c.split_whitespace().any(|c| classes.iter().any(|x| x == c)))
            });
        }
        "removeDimensions" => xml::each(&mut t, &mut |e| {
            if e.name != "svg" {
                return;
            }
            if e.get("viewBox").is_none() {
                let (Some(w), Some(h)) = (e.get("width").and_then(px), e.get("height").and_then(px)) else { return };
                e.set("viewBox", &format!("0 0 {w} {h}"));
            }
            e.remove("width");
            e.remove("height");
        }),
        "removeViewBox" => {
            let mut first = true;
            xml::each(&mut t, &mut |e| {
                let root = std::mem::replace(&mut first, false);
                if !(e.name == "svg" && root || matches!(e.name.as_str(), "symbol" | "pattern")) {
                    return;
                }
                let (Some(w), Some(h), Some(b)) = (e.get("width").and_then(px), e.get("height").and_then(px), e.get("viewBox")) else { return };
                if b == format!("0 0 {w} {h}") {
                    e.remove("viewBox");
                }
            });
        }
        "removeXMLNS" => xml::each(&mut t, &mut |e| {
            if e.name == "svg" {
                e.remove("xmlns");
            }
        }),
        "removeXMLProcInst" => {}
        "sortAttrs" => {
            let default = ["id", "width", "height", "x", "x1", "x2", "y", "y1", "y2", "cx", "cy", "r", "fill", "stroke", "marker", "d", "points"];
            let order = if p.get("order").is_some() { strings(p.get("order")) } else { default.iter().map(|s| s.to_string()).collect() };
            let front = p["xmlnsOrder"].as_str() != Some("alphabetical");
            xml::each(&mut t, &mut |e| {
                e.attrs.sort_by_key(|(n, _)| {
                    let (p, l) = match n.split_once(':') {
                        Some((p, l)) => (Some(p.to_string()), l.to_string()),
                        None => (None, n.clone()),
                    };
                    let group = match p.as_deref() {
                        None if n == "xmlns" && front => 0,
                        Some("xmlns") if front => 1,
                        Some(_) => 2,
                        None => 3,
                    };
                    let part = l.split('-').next().unwrap().to_string();
                    let at = order.iter().position(|x| *x == part).unwrap_or(usize::MAX);
                    (group, at, p, l)
                });
            });
        }
        "sortDefsChildren" => xml::each(&mut t, &mut |e| {
            if e.name != "defs" {
                return;
            }
            let name = |n: &Node| if let Node::El(e) = n { e.name.clone() } else { String::new() };
            let all: Vec<String> = e.kids.iter().map(name).collect();
            e.kids.sort_by(|a, b| {
                let (a, b) = (name(a), name(b));
                if a.is_empty() || b.is_empty() {
                    return b.is_empty().cmp(&a.is_empty());
                }
                let count = |n: &str| all.iter().filter(|x| *x == n).count();
                count(&b).cmp(&count(&a)).then(b.len().cmp(&a.len())).then(b.cmp(&a))
            });
        }),
        "addAttributesToSVGElement" => {
            let mut new: Vec<(String, String)> = p["attributes"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect();
            new.sort();
            let root = xml::root(&mut t).unwrap();
            if root.name == "svg" {
                for (k, v) in new {
                    if root.get(&k).is_none() {
                        root.set(&k, &v);
                    }
                }
            }
        }
        "addClassesToSVGElement" => {
            let new: Vec<String> = match (p.get("classNames"), p.get("className")) {
                (Some(n), _) => strings(Some(n)),
                (None, Some(n)) => n.as_str().unwrap().split_whitespace().map(str::to_string).collect(),
                _ => vec![],
            };
            let root = xml::root(&mut t).unwrap();
            if root.name == "svg" && (root.get("class").is_some() || !new.is_empty()) {
                let mut all: Vec<String> = vec![];
                for c in root.get("class").unwrap_or("").split_whitespace().map(str::to_string).chain(new) {
                    if !all.contains(&c) {
                        all.push(c);
                    }
                }
                root.set("class", &all.join(" "));
            }
        }
        "removeEmptyAttrs" => xml::each(&mut t, &mut |e| e.attrs.retain(|(k, v)| !v.is_empty() || matches!(k.as_str(), "requiredFeatures" | "requiredExtensions" | "systemLanguage"))),
        "removeUnusedNS" => {
            let mut used = vec![];
            let mut note = |n: &str| {
                if let Some((p, _)) = n.split_once(':') {
                    used.push(p.to_string());
                }
            };
            xml::each(&mut t, &mut |e| {
                note(&e.name);
                for a in &e.attrs {
                    note(&a.0);
                }
            });
            let root = xml::root(&mut t).unwrap();
            root.attrs.retain(|(k, _)| k.strip_prefix("xmlns:").is_none_or(|p| used.iter().any(|u| u == p)));
        }
        "removeEmptyText" => {
            let on = |k: &str| p[k].as_bool().unwrap_or(true);
            fn within(nodes: &mut Vec<Node>, text: bool, on: &dyn Fn(&str) -> bool) {
                nodes.retain(|n| {
                    let Node::El(e) = n else { return true };
                    !(e.name == "text" && on("text") && blank(&e.kids)
                        || e.name == "tspan" && on("tspan") && blank(&e.kids) && (e.kids.is_empty() || !text)
                        || e.name == "tref" && on("tref") && e.get("xlink:href").is_none())
                });
                for n in nodes {
                    if let Node::El(e) = n {
                        let inner = matches!(e.name.as_str(), "text" | "tspan") || (e.name == "a" && text);
                        within(&mut e.kids, inner, on);
                    }
                }
            }
            within(&mut t, false, &on);
        }
        "cleanupAttrs" => {
            let on = |k: &str| p[k].as_bool().unwrap_or(true);
            let space = |c: char| c.is_whitespace();
            xml::each(&mut t, &mut |e| {
                for (k, v) in &mut e.attrs {
                    if k.starts_with("xmlns") || k.ends_with("href") {
                        continue;
                    }
                    if on("trim") {
                        *v = v.trim_matches(space).to_string();
                    }
                    if on("spaces") {
                        *v = v.split(space).filter(|p| !p.is_empty()).collect::<Vec<_>>().join(" ");
                    }
                }
            });
        }
        _ => return fail("no model", job),
    }
    Ok(xml::join(t))
}

impl Prop for C15 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> String {
        "A document of up to 40 nodes with editor namespaces, scripts, links, styles, comments and processing instructions, and one of 23 jobs with random parameters; the written output is compared node by node with a model of the job applied to the document written without jobs. Non-trivial: the model changes the document.".into()
    }
    fn cases(&self) -> (u64, u64) {
        (450_000, 20_000_000)
    }
    fn generate(&self, s: &mut Src, _: &mut Cx) -> Input {
        let job = s.pick(JOBS).to_string();
        let params = params(s, &job);
        let mut g = G { root: vec![], scope: vec![], left: 40 };
        let mut r = El { name: "svg".into(), ..El::default() };
        r.set("xmlns", SVG);
        for (p, u) in NAMESPACES {
            if s.chance(1, 3) {
                r.set(&format!("xmlns:{p}"), u);
                g.root.push(p);
                g.scope.push(p);
            }
        }
        g.attrs(s, &mut r);
        for _ in 0..s.weighted(&[0, 1, 2, 3, 3, 2, 2, 1, 1]) {
            let n = g.node(s, 1, "svg");
            r.kids.push(n);
        }
        let mut svg = String::new();
        if s.chance(1, 6) {
            svg.push_str(&format!("<!--{}-->", s.pick(COMMENTS)));
        }
        if s.chance(1, 10) {
            svg.push_str("<?xml-stylesheet href=\"a.css\"?>");
        }
        print(&Node::El(r), &mut svg);
        if s.chance(1, 8) {
            svg.push_str(&format!("<!--{}-->", s.pick(COMMENTS)));
        }
        Input { svg, job, params }
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Check {
        let job = &i.job;
        let j = jobs::config(json!({job: i.params})).map_err(|e| Fail::new("configuration", e))?;
        let plain = jobs::run_verbatim(&i.svg, &Jobs::none()).map_err(|e| Fail::new("without jobs", e))?;
        let a = xml::parse(&plain).map_err(|e| Fail::new("output without jobs", format!("{e}: {plain}")))?;
        let d = dom::parse(&plain).map_err(|e| Fail::new("output without jobs", format!("{e}: {plain}")))?;
        let out = guarded(|| jobs::run_verbatim(&i.svg, &j).map_err(|e| Fail::new(format!("{job}: error"), e)))?;
        if job == "sortDefsChildren" {
            let mut prefixed = false;
            xml::each(&mut a.clone(), &mut |e| prefixed |= e.name == "defs" && e.kids.iter().any(|k| matches!(k, Node::El(e) if e.name.contains(':'))));
            if prefixed {
                cx.exclude("order of prefixed names is not documented");
                return Ok(());
            }
        }
        let mut want = model(a.clone(), job, &i.params, &d)?;
        if !want.iter().any(|n| matches!(n, Node::El(_))) {
            cx.label("root removed");
            return Ok(());
        }
        let mut b = xml::parse(&out).map_err(|e| Fail::new(format!("{job}: malformed"), format!("{e}: {out}")))?;
        if job == "cleanupAttrs" {
            // links aren't cleaned where they are known as links: either is fine
            for t in [&mut want, &mut b] {
                xml::each(t, &mut |e| {
                    for (k, v) in &mut e.attrs {
                        if k.ends_with("href") {
                            *v = v.split_whitespace().collect::<Vec<_>>().join(" ");
                        }
                    }
                });
            }
        }
        if let Some((kind, m)) = xml::difference(&want, &b, "") {
            return fail(format!("{job}: {kind}"), format!("{m}\n  plain: {plain}\n  output: {out}"));
        }
        if want != a {
            cx.label(format!("{job} matters"));
            cx.nontrivial((&i.svg, job, i.params.to_string()));
        }
        cx.label_if(job == "removeXMLProcInst", "removeXMLProcInst");
        Ok(())
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![
            ("removeComments matters", 5), ("removeMetadata matters", 5), ("removeTitle matters", 5), ("removeDesc matters", 5), ("removeScripts matters", 5), ("removeStyleElement matters", 5),
            ("removeRasterImages matters", 2), ("removeEditorsNSData matters", 5), ("removeAttrs matters", 5), ("removeAttributesBySelector matters", 5), ("removeElementsByAttr matters", 5),
            ("removeDimensions matters", 3), ("removeViewBox matters", 1), ("removeXMLNS matters", 5), ("sortAttrs matters", 5), ("sortDefsChildren matters", 2), ("addAttributesToSVGElement matters", 5),
            ("addClassesToSVGElement matters", 5), ("removeEmptyAttrs matters", 5), ("removeUnusedNS matters", 5), ("removeEmptyText matters", 3), ("cleanupAttrs matters", 5),
        ]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the document written without jobs is the reference, so what parsing and writing change on their own is left to other properties; parameters never name namespace declarations".into()]
    }
    fn render(&self, i: &Input) -> String {
        format!("{} {} {}", i.job, i.params, i.svg)
    }
}

fn main() {
    pbt::engine::main(C15)
}
