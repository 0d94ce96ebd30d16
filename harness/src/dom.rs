//! Reference document model and CSS cascade, independent of the crates under test.
//! XML is read with roxmltree; style sheets, selectors and the cascade are interpreted here.
use std::collections::{BTreeMap, HashMap};

pub const SVG: &str = "http://www.w3.org/2000/svg";
pub const XLINK: &str = "http://www.w3.org/1999/xlink";
pub const XML: &str = "http://www.w3.org/XML/1998/namespace";

#[derive(Clone, Debug)]
pub struct Attr {
    pub ns: String,
    pub name: String,
    pub value: String,
}
#[derive(Clone, Debug)]
pub enum Child {
    El(usize),
    Text(String),
}
#[derive(Clone, Debug)]
pub struct El {
    pub ns: String,
    pub name: String,
    pub attrs: Vec<Attr>,
    pub children: Vec<Child>,
    pub parent: Option<usize>,
}
#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub els: Vec<El>,
    pub ids: HashMap<String, usize>,
    /// The rules that apply on a screen.
    pub rules: Vec<Rule>,
    /// All rules, also those under conditions that do not hold.
    pub all_rules: Vec<Rule>,
}

impl El {
    /// Attribute without namespace.
    pub fn get(&self, name: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.ns.is_empty() && a.name == name).map(|a| a.value.as_str())
    }
    pub fn get_ns(&self, ns: &str, name: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.ns == ns && a.name == name).map(|a| a.value.as_str())
    }
    pub fn href(&self) -> Option<&str> {
        self.get("href").or_else(|| self.get_ns(XLINK, "href"))
    }
    pub fn is(&self, name: &str) -> bool {
        self.ns == SVG && self.name == name
    }
}

pub fn parse(src: &str) -> Result<Doc, String> {
    let opt = roxmltree::ParsingOptions { allow_dtd: true, ..Default::default() };
    let x = roxmltree::Document::parse_with_options(src, opt).map_err(|e| e.to_string())?;
    let mut d = Doc::default();
    build(&mut d, x.root_element(), None);
    for i in 0..d.els.len() {
        if let Some(id) = d.els[i].get("id") {
            d.ids.entry(id.to_string()).or_insert(i);
        }
    }
    let mut rules = vec![];
    let mut order = 0;
    for e in &d.els {
        let css = e.is("style") && matches!(e.get("type").unwrap_or(""), "" | "text/css");
        if css {
            let text: String = e.children.iter().map(|c| if let Child::Text(t) = c { t.as_str() } else { "" }).collect();
            let media = e.get("media").unwrap_or("").trim().to_string();
            let mut conditions = if media.is_empty() { vec![] } else { vec![format!("@media {media}")] };
            sheet(&text, &mut rules, &mut order, &mut conditions);
        }
    }
    d.rules = rules.iter().filter(|r| r.conditions.iter().all(|c| c.strip_prefix("@media").is_some_and(media_applies))).cloned().collect();
    d.all_rules = rules;
    Ok(d)
}

fn build(d: &mut Doc, n: roxmltree::Node, parent: Option<usize>) -> usize {
    let i = d.els.len();
    d.els.push(El {
        ns: n.tag_name().namespace().unwrap_or("").into(),
        name: n.tag_name().name().into(),
        attrs: n
            .attributes()
            .map(|a| Attr { ns: a.namespace().unwrap_or("").into(), name: a.name().into(), value: a.value().into() })
            .collect(),
        children: vec![],
        parent,
    });
    for c in n.children() {
        if c.is_element() {
            let j = build(d, c, Some(i));
            d.els[i].children.push(Child::El(j));
        } else if c.is_text() {
            d.els[i].children.push(Child::Text(c.text().unwrap_or("").into()));
        }
    }
    i
}

// ---------------------------------------------------------------- style sheets

#[derive(Clone, Debug)]
pub struct Decl {
    pub name: String,
    pub value: String,
    pub important: bool,
}
#[derive(Clone, Debug)]
pub struct Rule {
    pub selector: Selector,
    pub decls: Vec<Decl>,
    pub order: usize,
    /// Preludes of the at-rules around it.
    pub conditions: Vec<String>,
}

fn strip_comments(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("/*") {
        out.push_str(&rest[..i]);
        match rest[i + 2..].find("*/") {
            Some(j) => rest = &rest[i + 2 + j + 2..],
            None => return out,
        }
    }
    out + rest
}

/// Splits at a top-level separator, minding quotes and brackets.
pub fn split_top(s: &str, sep: char) -> Vec<String> {
    let mut out = vec![String::new()];
    let (mut depth, mut quote) = (0i32, None);
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if let Some(q) = quote {
            if c == q {
                quote = None;
            }
            if c == '\\' {
                out.last_mut().unwrap().push(c);
                if let Some(n) = it.next() {
                    out.last_mut().unwrap().push(n);
                }
                continue;
            }
        } else {
            match c {
                '"' | '\'' => quote = Some(c),
                '(' | '[' | '{' => depth += 1,
                ')' | ']' | '}' => depth -= 1,
                _ if c == sep && depth == 0 => {
                    out.push(String::new());
                    continue;
                }
                _ => {}
            }
        }
        out.last_mut().unwrap().push(c);
    }
    out
}

pub fn decls(s: &str) -> Vec<Decl> {
    split_top(&strip_comments(s), ';')
        .iter()
        .filter_map(|d| {
            let (n, v) = d.split_once(':')?;
            let n = n.trim();
            let mut v = v.trim().to_string();
            let mut important = false;
            if let Some(i) = v.rfind('!') {
                if v[i + 1..].trim().eq_ignore_ascii_case("important") {
                    important = true;
                    v = v[..i].trim().to_string();
                }
            }
            if n.is_empty() || v.is_empty() {
                return None;
            }
            let name = if n.starts_with("--") { n.to_string() } else { n.to_ascii_lowercase() };
            Some(Decl { name, value: v, important })
        })
        .collect()
}

fn media_applies(m: &str) -> bool {
    let m = m.trim().to_ascii_lowercase();
    m.is_empty() || m.split(',').any(|q| matches!(q.trim(), "all" | "screen" | "only screen"))
}

fn sheet(text: &str, out: &mut Vec<Rule>, order: &mut usize, conditions: &mut Vec<String>) {
    let text = strip_comments(text).replace("<!--", " ").replace("-->", " ");
    let mut rest = text.as_str();
    loop {
        rest = rest.trim_start();
        if rest.is_empty() {
            return;
        }
        let Some(open) = rest.find(['{', ';']) else { return };
        let head = rest[..open].trim();
        if rest.as_bytes()[open] == b';' {
            // @import, @charset, @namespace
            rest = &rest[open + 1..];
            continue;
        }
        // matching brace
        let (mut depth, mut end, mut quote) = (0, rest.len(), None);
        for (i, c) in rest[open..].char_indices() {
            if let Some(q) = quote {
                if c == q {
                    quote = None;
                }
                continue;
            }
            match c {
                '"' | '\'' => quote = Some(c),
                '{' => depth += 1,
                '}' => {
                    depth -= 1;
                    if depth == 0 {
                        end = open + i;
                        break;
                    }
                }
                _ => {}
            }
        }
        let body = &rest[open + 1..end.max(open + 1)];
        rest = rest.get(end + 1..).unwrap_or("");
        if head.starts_with("@media") || head.starts_with("@supports") || head.starts_with("@container") {
            conditions.push(head.split_whitespace().collect::<Vec<_>>().join(" "));
            sheet(body, out, order, conditions);
            conditions.pop();
        } else if !head.starts_with('@') {
            let sels: Option<Vec<Selector>> = split_top(head, ',').iter().map(|s| Selector::parse(s)).collect();
            let ds = decls(body);
            // one invalid selector makes the rule invalid
            for s in sels.unwrap_or_default() {
                out.push(Rule { selector: s, decls: ds.clone(), order: *order, conditions: conditions.clone() });
            }
            *order += 1;
        }
    }
}

// ---------------------------------------------------------------- selectors

#[derive(Clone, Debug, PartialEq)]
pub enum Simple {
    Any,
    Type(String),
    Class(String),
    Id(String),
    Attr(String, Option<(char, String)>),
    FirstChild,
    LastChild,
    NthChild(i64, i64),
    OnlyChild,
    Root,
    Empty,
    Not(Vec<Simple>),
    /// A pseudo-class that depends on state the document does not have (:hover, :focus).
    Never,
}
#[derive(Clone, Debug)]
pub struct Selector {
    /// Compounds from left to right; the combinator is the one to the left of the compound.
    pub parts: Vec<(char, Vec<Simple>)>,
    /// A pseudo-element: never the element itself.
    pub pseudo_element: bool,
}

fn ident(c: &mut std::iter::Peekable<std::str::Chars>) -> Option<String> {
    let mut s = String::new();
    while let Some(&ch) = c.peek() {
        if ch.is_alphanumeric() || ch == '-' || ch == '_' || !ch.is_ascii() {
            s.push(ch);
            c.next();
        } else if ch == '\\' {
            c.next();
            let mut hex = String::new();
            while hex.len() < 6 && c.peek().is_some_and(|x| x.is_ascii_hexdigit()) {
                hex.push(c.next().unwrap());
            }
            if hex.is_empty() {
                s.push(c.next()?);
            } else {
                s.push(char::from_u32(u32::from_str_radix(&hex, 16).ok()?)?);
                if c.peek().is_some_and(|x| x.is_whitespace()) {
                    c.next();
                }
            }
        } else {
            break;
        }
    }
    if s.is_empty() { None } else { Some(s) }
}

impl Selector {
    pub fn parse(s: &str) -> Option<Selector> {
        let mut c = s.trim().chars().peekable();
        let mut parts = vec![];
        let mut comb = ' ';
        let mut pseudo_element = false;
        loop {
            let (comp, pe) = Self::compound(&mut c)?;
            pseudo_element |= pe;
            parts.push((comb, comp));
            let mut space = false;
            while c.peek().is_some_and(|x| x.is_whitespace()) {
                c.next();
                space = true;
            }
            match c.peek() {
                None => break,
                Some('>') | Some('+') | Some('~') => {
                    comb = c.next().unwrap();
                    while c.peek().is_some_and(|x| x.is_whitespace()) {
                        c.next();
                    }
                }
                Some(_) if space => comb = ' ',
                _ => return None,
            }
        }
        Some(Selector { parts, pseudo_element })
    }
    fn compound(c: &mut std::iter::Peekable<std::str::Chars>) -> Option<(Vec<Simple>, bool)> {
        let mut out = vec![];
        let mut pe = false;
        loop {
            match c.peek() {
                Some('*') => {
                    c.next();
                    out.push(Simple::Any);
                }
                Some('.') => {
                    c.next();
                    out.push(Simple::Class(ident(c)?));
                }
                Some('#') => {
                    c.next();
                    out.push(Simple::Id(ident(c)?));
                }
                Some('[') => {
                    c.next();
                    let mut body = String::new();
                    let mut q = None;
                    loop {
                        let ch = c.next()?;
                        if q.is_none() && ch == ']' {
                            break;
                        }
                        if q == Some(ch) {
                            q = None;
                        } else if q.is_none() && (ch == '"' || ch == '\'') {
                            q = Some(ch);
                        }
                        body.push(ch);
                    }
                    if let Some(i) = body.find('=') {
                        let v = body[i + 1..].trim().trim_matches(['"', '\'']).to_string();
                        let mut n = body[..i].trim().to_string();
                        let op = match n.chars().last() {
                            Some(o) if "~|^$*".contains(o) => {
                                n.pop();
                                o
                            }
                            _ => '=',
                        };
                        out.push(Simple::Attr(n.trim().into(), Some((op, v))));
                    } else {
                        out.push(Simple::Attr(body.trim().into(), None));
                    }
                }
                Some(':') => {
                    c.next();
                    if c.peek() == Some(&':') {
                        c.next();
                        ident(c)?;
                        pe = true;
                        continue;
                    }
                    let n = ident(c)?.to_ascii_lowercase();
                    let mut arg = String::new();
                    if c.peek() == Some(&'(') {
                        c.next();
                        let mut depth = 1;
                        loop {
                            let ch = c.next()?;
                            match ch {
                                '(' => depth += 1,
                                ')' => depth -= 1,
                                _ => {}
                            }
                            if depth == 0 {
                                break;
                            }
                            arg.push(ch);
                        }
                    }
                    out.push(match n.as_str() {
                        "first-child" => Simple::FirstChild,
                        "last-child" => Simple::LastChild,
                        "only-child" => Simple::OnlyChild,
                        "root" => Simple::Root,
                        "empty" => Simple::Empty,
                        "hover" | "focus" | "active" | "visited" | "target" => Simple::Never,
                        "nth-child" => {
                            let a: String = arg.chars().filter(|c| !c.is_whitespace()).collect();
                            match a.as_str() {
                                "odd" => Simple::NthChild(2, 1),
                                "even" => Simple::NthChild(2, 0),
                                _ => match a.split_once('n') {
                                    None => Simple::NthChild(0, a.parse().ok()?),
                                    Some((x, y)) => {
                                        let x = match x {
                                            "" | "+" => 1,
                                            "-" => -1,
                                            x => x.parse().ok()?,
                                        };
                                        Simple::NthChild(x, if y.is_empty() { 0 } else { y.parse().ok()? })
                                    }
                                },
                            }
                        }
                        "not" => Simple::Not(Self::compound(&mut arg.trim().chars().peekable())?.0),
                        "before" | "after" | "first-line" | "first-letter" => {
                            pe = true;
                            continue;
                        }
                        _ => return None,
                    });
                }
                Some(&ch) if ch.is_alphabetic() || ch == '_' || ch == '-' || ch == '\\' => out.push(Simple::Type(ident(c)?)),
                _ => break,
            }
        }
        if out.is_empty() && !pe { None } else { Some((out, pe)) }
    }
    pub fn specificity(&self) -> (u32, u32, u32) {
        fn add(s: &Simple, t: &mut (u32, u32, u32)) {
            match s {
                Simple::Any => {}
                Simple::Type(_) => t.2 += 1,
                Simple::Id(_) => t.0 += 1,
                Simple::Not(v) => v.iter().for_each(|s| add(s, t)),
                _ => t.1 += 1,
            }
        }
        let mut t = (0, 0, if self.pseudo_element { 1 } else { 0 });
        for (_, c) in &self.parts {
            c.iter().for_each(|s| add(s, &mut t));
        }
        t
    }
    pub fn matches(&self, d: &Doc, e: usize) -> bool {
        !self.pseudo_element && self.at(d, e, self.parts.len() - 1)
    }
    fn at(&self, d: &Doc, e: usize, k: usize) -> bool {
        if !self.parts[k].1.iter().all(|s| simple(d, e, s)) {
            return false;
        }
        if k == 0 {
            return true;
        }
        match self.parts[k].0 {
            '>' => d.els[e].parent.is_some_and(|p| self.at(d, p, k - 1)),
            '+' => d.siblings_before(e).last().is_some_and(|p| self.at(d, *p, k - 1)),
            '~' => d.siblings_before(e).iter().any(|p| self.at(d, *p, k - 1)),
            _ => {
                let mut p = d.els[e].parent;
                while let Some(x) = p {
                    if self.at(d, x, k - 1) {
                        return true;
                    }
                    p = d.els[x].parent;
                }
                false
            }
        }
    }
}

impl Doc {
    pub fn child_els(&self, e: usize) -> Vec<usize> {
        self.els[e].children.iter().filter_map(|c| if let Child::El(i) = c { Some(*i) } else { None }).collect()
    }
    fn siblings(&self, e: usize) -> Vec<usize> {
        match self.els[e].parent {
            Some(p) => self.child_els(p),
            None => vec![e],
        }
    }
    fn siblings_before(&self, e: usize) -> Vec<usize> {
        self.siblings(e).into_iter().take_while(|x| *x != e).collect()
    }
    pub fn by_id(&self, id: &str) -> Option<usize> {
        self.ids.get(id).copied()
    }
}

fn simple(d: &Doc, e: usize, s: &Simple) -> bool {
    let el = &d.els[e];
    match s {
        Simple::Any => true,
        Simple::Type(t) => el.name == *t,
        Simple::Class(c) => el.get("class").is_some_and(|v| v.split_ascii_whitespace().any(|x| x == c)),
        Simple::Id(i) => el.get("id") == Some(i),
        Simple::Attr(n, op) => {
            let Some(v) = el.get(n) else { return false };
            match op {
                None => true,
                Some(('=', x)) => v == x,
                Some(('~', x)) => v.split_ascii_whitespace().any(|w| w == x),
                Some(('|', x)) => v == x || v.starts_with(&format!("{x}-")),
                Some(('^', x)) => !x.is_empty() && v.starts_with(x.as_str()),
                Some(('$', x)) => !x.is_empty() && v.ends_with(x.as_str()),
                Some((_, x)) => !x.is_empty() && v.contains(x.as_str()),
            }
        }
        Simple::FirstChild => d.siblings_before(e).is_empty(),
        Simple::LastChild => d.siblings(e).last() == Some(&e),
        Simple::OnlyChild => d.siblings(e).len() == 1,
        Simple::NthChild(a, b) => {
            let i = d.siblings_before(e).len() as i64 + 1;
            if *a == 0 { i == *b } else { (i - b) % a == 0 && (i - b) / a >= 0 }
        }
        Simple::Root => el.parent.is_none(),
        Simple::Empty => el.children.is_empty() || el.children.iter().all(|c| matches!(c, Child::Text(t) if t.is_empty())),
        Simple::Not(v) => !v.iter().all(|s| simple(d, e, s)),
        Simple::Never => false,
    }
}

// ---------------------------------------------------------------- cascade

pub const INHERITED: &[&str] = &[
    "clip-rule", "color", "color-interpolation", "color-interpolation-filters", "cursor", "direction", "dominant-baseline",
    "fill", "fill-opacity", "fill-rule", "font-family", "font-size", "font-size-adjust", "font-stretch", "font-style",
    "font-variant", "font-weight", "image-rendering", "letter-spacing", "marker-end", "marker-mid", "marker-start",
    "paint-order", "pointer-events", "shape-rendering", "stroke", "stroke-dasharray", "stroke-dashoffset", "stroke-linecap",
    "stroke-linejoin", "stroke-miterlimit", "stroke-opacity", "stroke-width", "text-anchor", "text-rendering", "visibility",
    "word-spacing", "writing-mode", "white-space",
];
pub const NOT_INHERITED: &[&str] = &[
    "clip-path", "display", "filter", "mask", "opacity", "overflow", "stop-color", "stop-opacity", "flood-color",
    "flood-opacity", "lighting-color", "transform", "vector-effect", "mix-blend-mode", "isolation", "text-decoration",
    "alignment-baseline", "baseline-shift", "unicode-bidi", "mask-type", "transform-origin", "transform-box",
    "background-color", "enable-background",
];

pub fn is_property(n: &str) -> bool {
    INHERITED.contains(&n) || NOT_INHERITED.contains(&n)
}

pub type Style = BTreeMap<String, String>;

/// Expands the shorthands used here.
fn expand(d: &Decl) -> Vec<Decl> {
    if d.name == "marker" {
        return ["marker-start", "marker-mid", "marker-end"].iter().map(|n| Decl { name: n.to_string(), ..d.clone() }).collect();
    }
    vec![d.clone()]
}

/// Whether a value is one the property accepts; an invalid declaration is ignored.
pub fn valid(name: &str, v: &str) -> bool {
    let lv = v.to_ascii_lowercase();
    if matches!(lv.as_str(), "inherit" | "initial" | "unset") {
        return true;
    }
    match name {
        "fill" | "stroke" => lv.starts_with("url(") || lv == "none" || lv.starts_with("context-") || crate::render::color(v, [0.0; 4]).is_some(),
        "color" | "stop-color" | "flood-color" | "lighting-color" => crate::render::color(v, [0.0; 4]).is_some(),
        "opacity" | "fill-opacity" | "stroke-opacity" | "stop-opacity" | "flood-opacity" => {
            lv.strip_suffix('%').unwrap_or(&lv).parse::<f64>().is_ok()
        }
        "stroke-miterlimit" => lv.parse::<f64>().is_ok_and(|x| x >= 1.0),
        "stroke-width" => crate::render::length(v, 1.0, 1.0).is_some_and(|x| x >= 0.0),
        "fill-rule" | "clip-rule" => matches!(lv.as_str(), "nonzero" | "evenodd"),
        "display" => !lv.is_empty(),
        "visibility" => matches!(lv.as_str(), "visible" | "hidden" | "collapse"),
        _ => true,
    }
}

/// The declarations that apply to an element, in ascending precedence.
pub fn cascaded(d: &Doc, e: usize) -> Vec<Decl> {
    weighted(d, e, &d.rules).into_iter().map(|(_, x)| x).collect()
}

/// The declarations that apply to an element in ascending precedence, each with the rule it is from.
pub fn weighted<'a>(d: &Doc, e: usize, rules: &'a [Rule]) -> Vec<(Option<&'a Rule>, Decl)> {
    let el = &d.els[e];
    let mut out: Vec<((u8, u8, (u32, u32, u32), usize), (Option<&'a Rule>, Decl))> = vec![];
    if el.ns == SVG {
        for a in &el.attrs {
            if a.ns.is_empty() && is_property(&a.name) && a.name != "transform" {
                out.push(((0, 0, (0, 0, 0), 0), (None, Decl { name: a.name.clone(), value: a.value.trim().to_string(), important: false })));
            }
        }
    }
    for r in rules {
        if r.selector.matches(d, e) {
            for x in r.decls.iter().flat_map(expand) {
                out.push(((x.important as u8, 1, r.selector.specificity(), r.order), (Some(r), x)));
            }
        }
    }
    if let Some(s) = el.get("style") {
        for x in decls(s).iter().flat_map(expand) {
            out.push(((x.important as u8, 2, (0, 0, 0), 0), (None, x)));
        }
    }
    out.retain(|(_, (_, x))| valid(&x.name, &x.value));
    // stable: later declarations of the same weight win
    out.sort_by_key(|(k, _)| *k);
    out.into_iter().map(|(_, x)| x).collect()
}

/// Computed (specified, with inheritance) properties; properties never set are absent.
pub fn style(d: &Doc, e: usize, parent: &Style) -> Style {
    style_of(d, e, parent, &d.rules)
}

pub fn style_of(d: &Doc, e: usize, parent: &Style, rules: &[Rule]) -> Style {
    let mut out: Style = parent.iter().filter(|(k, _)| INHERITED.contains(&k.as_str()) || k.starts_with("--")).map(|(k, v)| (k.clone(), v.clone())).collect();
    for (_, x) in weighted(d, e, rules) {
        let inh = INHERITED.contains(&x.name.as_str());
        match x.value.to_ascii_lowercase().as_str() {
            "inherit" => match parent.get(&x.name) {
                Some(v) => {
                    out.insert(x.name, v.clone());
                }
                None => {
                    out.remove(&x.name);
                }
            },
            "unset" if inh => match parent.get(&x.name) {
                Some(v) => {
                    out.insert(x.name, v.clone());
                }
                None => {
                    out.remove(&x.name);
                }
            },
            "initial" | "unset" => {
                out.remove(&x.name);
            }
            _ => {
                out.insert(x.name, x.value);
            }
        }
    }
    out
}
