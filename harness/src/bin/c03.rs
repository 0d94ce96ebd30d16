//! C03: parsing and serialising a document preserves its information set.
use oxvg_ast::parse::roxmltree::parse;
use oxvg_ast::serialize::{Node as _, Options};
use pbt::engine::{fail, guarded, Check, Cx, Fail, Prop, Src};
use pbt::xml::{self, El, Node};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

const SVG: &str = "http://www.w3.org/2000/svg";
const XML: &str = "http://www.w3.org/XML/1998/namespace";
const URIS: &[&str] = &[SVG, "http://www.w3.org/1999/xlink", "http://www.w3.org/1999/xhtml", "urn:a", "urn:b", "http://www.inkscape.org/namespaces/inkscape", "urn:a&b"];
const PREFIXES: &[&str] = &["a", "b", "svg", "xlink", "é", "_x"];
const NAMES: &[&str] = &[
    "g", "path", "rect", "text", "tspan", "title", "desc", "metadata", "defs", "script", "foreignObject", "a", "svg", "use", "unknown", "é", "_a", "a-b", "a.b", "x1", "Path", "feBlend", "font-face", "animate", "style2", "image", "linearGradient",
];
const ATTRS: &[&str] = &["data-x", "data-é", "foo", "Fill", "_y", "a.b", "z1", "aria-label", "onclick", "title", "alt", "label"];
/// Attributes the library knows, with values it has no shorter spelling for.
const TYPED: &[(&str, &[&str])] = &[
    ("id", &["a", "é", "a.b", "x y"]),
    ("class", &["a", "a b", "é"]),
    ("x", &["10", "5%", "-1"]),
    ("fill", &["red", "none", "currentColor"]),
    ("width", &["10", "100%"]),
    ("lang", &["en"]),
    ("d", &["M0 0 10 10", "M0 0"]),
    ("opacity", &["1", "0"]),
    ("href", &["#a", "a b.png", "a?b=1&c=2", "data:,<x>"]),
    ("style", &["fill:red", "fill:none"]),
    ("font-family", &["x"]),
    ("display", &["none"]),
    ("transform", &["translate(10)"]),
    ("viewBox", &["0 0 10 10"]),
];
/// Style sheets in a spelling that only differs from the printed one by white space.
const CSS: &[&str] = &[".a{fill:red}", "g>path{fill:red}", "a[b=\"&\"]{fill:red}", "@media print{.a{fill:red}}", ".é{fill:red}", ".a,.b{stroke:#00f;fill:none}", "#a .b+.c~.d{opacity:.5}", "@font-face{font-family:x;src:url(\"a.woff\")}", ""];

#[derive(Serialize, Deserialize, Clone)]
struct Input {
    svg: String,
}

struct C03;

struct G {
    scopes: Vec<BTreeMap<String, String>>,
    left: i32,
}

fn value(s: &mut Src) -> String {
    let n = s.weighted(&[1, 3, 3, 3, 2, 1, 1]);
    (0..n)
        .map(|_| match s.weighted(&[6, 3, 2, 2]) {
            0 => *s.pick(&["a", "b", "1", " ", "x y", "-", "."]),
            1 => *s.pick(&["<", ">", "&", "\"", "'", "]]>", "--", "&amp;", "<!--", "<a/>", "\\", "{", "}", "?>"]),
            2 => *s.pick(&["\t", "\n", "\r", "  ", "\n  ", "\u{a0}", "\u{85}", "\u{2028}"]),
            _ => *s.pick(&["é", "\u{1F600}", "\u{10FFFD}", "中", "\u{7f}", "\u{301}", "\u{200b}"]),
        })
        .collect()
}

/// Spells a character of text or of a value.
fn spell(s: &mut Src, c: char, quote: Option<char>, out: &mut String) {
    let reference = |s: &mut Src, c: char| if s.chance(1, 2) { format!("&#{};", c as u32) } else { format!("&#x{:X};", c as u32) };
    match c {
        '<' | '&' => match s.us(3) {
            0 => out.push_str(&reference(s, c)),
            _ => out.push_str(if c == '<' { "&lt;" } else { "&amp;" }),
        },
        '>' => match s.us(4) {
            0 => out.push_str("&gt;"),
            1 => out.push_str(&reference(s, c)),
            // "]]>" may not be in text
            _ if quote.is_none() => out.push_str("&gt;"),
            _ => out.push('>'),
        },
        '"' | '\'' => {
            if Some(c) == quote || s.chance(1, 4) {
                out.push_str(if c == '"' { "&quot;" } else { "&apos;" });
            } else {
                out.push(c);
            }
        }
        '\r' => out.push_str(&reference(s, c)),
        '\n' => {
            if quote.is_some() || s.chance(1, 4) {
                out.push_str(&reference(s, c));
            } else {
                out.push_str(*s.pick(&["\n", "\r\n", "\n"]));
            }
        }
        '\t' => {
            if quote.is_some() || s.chance(1, 4) {
                out.push_str(&reference(s, c));
            } else {
                out.push('\t');
            }
        }
        ' ' if quote.is_some() && s.chance(1, 6) => out.push_str(s.pick(&["\t", "\n", "\r\n"])),
        c if s.chance(1, 20) => out.push_str(&reference(s, c)),
        c => out.push(c),
    }
}

impl G {
    fn scope(&self) -> &BTreeMap<String, String> {
        self.scopes.last().unwrap()
    }
    /// A prefix of the scope with a name, for elements or attributes.
    fn prefixed(&self, s: &mut Src, local: &str, attribute: bool) -> String {
        let known: Vec<&String> = self.scope().iter().filter(|(p, u)| !p.is_empty() && !u.is_empty() && (attribute || *p != "xml")).map(|p| p.0).collect();
        if known.is_empty() || s.chance(if attribute { 2 } else { 3 }, 4) {
            return local.to_string();
        }
        format!("{}:{local}", known[s.us(known.len())])
    }
    fn attribute(&self, s: &mut Src, name: &str, value: &str, out: &mut String) {
        out.push_str(s.pick(&[" ", " ", " ", "\n", "  ", "\t"]));
        out.push_str(name);
        out.push_str(s.pick(&["=", "=", "=", " = ", "\n="]));
        let q = if s.chance(2, 3) { '"' } else { '\'' };
        out.push(q);
        for c in value.chars() {
            spell(s, c, Some(q), out);
        }
        out.push(q);
    }
    fn text(&self, s: &mut Src, t: &str, out: &mut String) {
        if s.chance(1, 6) && !t.contains("]]>") && !t.contains('\r') {
            out.push_str(&format!("<![CDATA[{t}]]>"));
            return;
        }
        for c in t.chars() {
            spell(s, c, None, out);
        }
    }
    fn misc(&self, s: &mut Src, out: &mut String) {
        match s.us(3) {
            0 | 1 => out.push_str(&format!("<!--{}-->", s.pick(&["", " a ", "é", "<b>&amp;", "a-b", "!x", "\n", "]]>", " - - "]))),
            _ => out.push_str(s.pick(&["<?a?>", "<?a b?>", "<?xml-stylesheet href=\"a.css\"?>", "<?php echo '<é>'; ?>", "<?a b > c?>", "<?é x?>"])),
        }
    }
    fn element(&mut self, s: &mut Src, depth: usize, out: &mut String) {
        self.left -= 1;
        let mut scope = self.scope().clone();
        let mut decls: Vec<(String, String)> = vec![];
        if depth == 0 && s.chance(9, 10) {
            decls.push((String::new(), SVG.into()));
        }
        let n = s.weighted(if depth == 0 { &[2, 2, 2, 1] } else { &[10, 2, 1, 0] });
        for _ in 0..n {
            let p = if s.chance(1, 3) { String::new() } else { s.pick(PREFIXES).to_string() };
            if decls.iter().any(|d| d.0 == p) {
                continue;
            }
            let u = if p.is_empty() && s.chance(1, 3) { "" } else { *s.pick(URIS) };
            decls.push((p, u.into()));
        }
        scope.extend(decls.iter().cloned());
        self.scopes.push(scope);
        let style = depth > 0 && s.chance(1, 12);
        let local = if style {
            "style"
        } else if depth == 0 && s.chance(9, 10) {
            "svg"
        } else {
            *s.pick(NAMES)
        };
        let name = if style && self.scope().get("").map(String::as_str) == Some(SVG) { local.to_string() } else { self.prefixed(s, local, false) };
        out.push('<');
        out.push_str(&name);
        let mut items: Vec<(String, String)> = decls.iter().map(|(p, u)| (if p.is_empty() { "xmlns".to_string() } else { format!("xmlns:{p}") }, u.clone())).collect();
        // expanded names must differ too
        let mut seen: Vec<(String, String)> = vec![];
        for _ in 0..s.weighted(&[3, 3, 3, 2, 1, 1, 1]) {
            let (n, v) = match s.us(5) {
                0 | 1 => {
                    let (n, vs) = *s.pick(TYPED);
                    (n.to_string(), s.pick(vs).to_string())
                }
                2 => match s.us(3) {
                    0 => ("xml:space".to_string(), s.pick(&["preserve", "default"]).to_string()),
                    1 => ("xml:lang".to_string(), s.pick(&["en", "de-CH", ""]).to_string()),
                    _ => (format!("xml:{}", s.pick(&["base", "foo"])), value(s)),
                },
                _ => {
                    let n = *s.pick(ATTRS);
                    let n = self.prefixed(s, n, true);
                    (n, value(s))
                }
            };
            let key = match n.split_once(':') {
                Some((p, l)) => (self.scope().get(p).cloned().unwrap_or_default(), l.to_string()),
                None => (String::new(), n.clone()),
            };
            if !seen.contains(&key) {
                seen.push(key);
                items.push((n, v));
            }
        }
        if s.chance(1, 3) && !items.is_empty() {
            let (a, b) = (s.us(items.len()), s.us(items.len()));
            items.swap(a, b);
        }
        for (n, v) in &items {
            self.attribute(s, n, v, out);
        }
        if style {
            out.push('>');
            for _ in 0..1 + s.us(2) {
                let css = *s.pick(CSS);
                self.text(s, css, out);
            }
            out.push_str(&format!("</{name}>"));
            self.scopes.pop();
            return;
        }
        let n = if depth > 6 || self.left < 0 { 0 } else { s.weighted(&[3, 3, 3, 2, 1, 1, 1]) };
        if n == 0 && s.chance(2, 3) {
            out.push_str(s.pick(&["/>", " />", "\n/>"]));
        } else {
            out.push_str(s.pick(&[">", ">", " >"]));
            for _ in 0..n {
                match s.weighted(&[6, 4, 1, 2]) {
                    0 => self.element(s, depth + 1, out),
                    1 => {
                        let t = value(s);
                        self.text(s, &t, out);
                    }
                    2 => self.misc(s, out),
                    _ => out.push_str(s.pick(&["\n", " ", "\n  ", "\t"])),
                }
            }
            out.push_str(&format!("</{name}{}>", s.pick(&["", "", " "])));
        }
        self.scopes.pop();
    }
}

/// Replaces prefixes by what they stand for, and drops declarations.
fn expand(nodes: Vec<Node>, scope: &BTreeMap<String, String>) -> Result<Vec<Node>, String> {
    let mut out = vec![];
    for n in nodes {
        let Node::El(e) = n else {
            out.push(n);
            continue;
        };
        let mut scope = scope.clone();
        for (k, v) in &e.attrs {
            if let Some(p) = k.strip_prefix("xmlns") {
                scope.insert(p.trim_start_matches(':').to_string(), v.clone());
            }
        }
        let name = |n: &str, default: &str| -> Result<String, String> {
            match n.split_once(':') {
                Some((p, l)) => Ok(format!("{{{}}}{l}", scope.get(p).ok_or_else(|| format!("prefix of {n} is not declared"))?)),
                None => Ok(format!("{{{default}}}{n}")),
            }
        };
        let mut attrs = vec![];
        for (k, v) in &e.attrs {
            if k != "xmlns" && !k.starts_with("xmlns:") {
                attrs.push((name(k, "")?, v.clone()));
            }
        }
        let full = name(&e.name, scope.get("").map_or("", String::as_str))?;
        let mut kids = expand(e.kids, &scope)?;
        if (full == format!("{{{SVG}}}style") || full == "{}style") && !kids.is_empty() {
            // up to white space
            let css: String = kids.iter().map(|k| if let Node::Text(t) = k { t.as_str() } else { "?" }).collect();
            let css: String = css.chars().filter(|c| !c.is_whitespace()).collect();
            let css = css.replace(";}", "}").replace("0.5", ".5");
            kids = if css.is_empty() { vec![] } else { vec![Node::Text(css)] };
        }
        let mut e = El { name: full, attrs, kids };
        for a in &mut e.attrs {
            if a.0 == "{}style" {
                a.1 = a.1.replace(": ", ":");
            }
        }
        out.push(Node::El(e));
    }
    Ok(out)
}

fn read(src: &str) -> Result<Vec<Node>, String> {
    let mut t = xml::parse(src)?;
    // white space around the root is not part of the document
    t.retain(|n| !matches!(n, Node::Text(_)));
    expand(t, &BTreeMap::from([("xml".to_string(), XML.to_string()), (String::new(), String::new())]))
}

fn write(src: &str) -> Result<String, String> {
    parse(src, |doc, _| doc.serialize_with_options(Options::original()).map_err(|e| format!("not written: {e}"))).map_err(|e| format!("not read: {e}"))?
}

impl Prop for C03 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> String {
        "the document has a declaration below the root, a character that must be escaped or a reference, and at least three elements".into()
    }
    fn cases(&self) -> (u64, u64) {
        (400_000, 20_000_000)
    }
    fn generate(&self, s: &mut Src, _: &mut Cx) -> Input {
        let mut g = G { scopes: vec![BTreeMap::from([("xml".to_string(), XML.to_string())])], left: 25 };
        let mut svg = String::new();
        if s.chance(1, 10) {
            svg.push_str(s.pick(&["<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n"]));
        }
        for _ in 0..s.weighted(&[6, 2, 1]) {
            g.misc(s, &mut svg);
            svg.push_str(s.pick(&["", "\n"]));
        }
        g.element(s, 0, &mut svg);
        for _ in 0..s.weighted(&[8, 2, 1]) {
            svg.push_str(s.pick(&["", "\n"]));
            g.misc(s, &mut svg);
        }
        Input { svg }
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Check {
        let a = read(&i.svg).map_err(|e| Fail::new("source", e))?;
        let once = guarded(|| write(&i.svg).map_err(|e| Fail::new("error", e)))?;
        let b = read(&once).map_err(|e| Fail::new("output is not well-formed", format!("{e}\n  output: {once}")))?;
        if let Some((kind, m)) = xml::difference(&a, &b, "") {
            return fail(format!("{kind} changed"), format!("{m}\n  output: {once}"));
        }
        let twice = guarded(|| write(&once).map_err(|e| Fail::new("error", e)))?;
        if once != twice {
            return fail("not stable", format!("once: {once}\n  twice: {twice}"));
        }
        let body = i.svg.trim_start_matches(|c| c != '>');
        let inner = body.contains("xmlns");
        let refs = i.svg.contains('&');
        let mut n = 0;
        xml::each(&mut b.clone(), &mut |_| n += 1);
        cx.label_if(inner, "declaration below the root");
        cx.label_if(body.contains("xmlns=\"\"") || body.contains("xmlns=''"), "default namespace removed");
        cx.label_if(refs, "references");
        cx.label_if(i.svg.contains("<![CDATA["), "character data section");
        cx.label_if(i.svg.contains("&#"), "character reference");
        cx.label_if(i.svg.contains("<style"), "style sheet");
        cx.label_if(i.svg.contains("<?"), "processing instruction");
        cx.label_if(i.svg.contains("<!--"), "comment");
        if inner && refs && n >= 3 {
            cx.nontrivial(&i.svg);
        }
        Ok(())
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![("declaration below the root", 100), ("default namespace removed", 20), ("references", 100), ("character data section", 50), ("character reference", 100), ("style sheet", 50), ("processing instruction", 30), ("comment", 50)]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "no document type; style sheets contain no less-than sign (a known finding of C02) and are compared up to white space".into(),
            "attributes the library interprets have values it prints unchanged: C07 covers their spelling".into(),
            "namespaces are compared by the expanded names of elements and attributes".into(),
        ]
    }
    fn render(&self, i: &Input) -> String {
        i.svg.clone()
    }
}

fn main() {
    pbt::engine::main(C03)
}
