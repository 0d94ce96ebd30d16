//! Documents for the linter, printed together with the problems they contain and where these are.
use crate::engine::Src;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const RULES: [&str; 8] = ["no_unknown_elements", "no_unknown_attributes", "no_deprecated", "no_default_attributes", "no_x_link", "no_unused_ids", "no_unused_xmlns", "no_invalid_attributes"];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
pub struct Problem {
    /// Index of the rule.
    pub rule: usize,
    pub text: String,
    /// What the problem is about, in bytes of the source. Empty for problems of whole elements.
    pub start: usize,
    pub end: usize,
}

const SVG: &str = "http://www.w3.org/2000/svg";
const XLINK: &str = "http://www.w3.org/1999/xlink";

/// Elements that draw or hold what is drawn.
const SHAPES: &[&str] = &["path", "rect", "circle", "polygon"];

/// Whether the content model of SVG 1.1 and of SVG 2 allow the child; nothing when they differ.
fn permitted(parent: &str, child: &str) -> Option<bool> {
    let structural = matches!(child, "svg" | "g" | "defs" | "use");
    let shape = SHAPES.contains(&child);
    let animation = matches!(child, "animate" | "set");
    match parent {
        "svg" | "g" | "defs" => Some(structural || shape || animation || matches!(child, "title" | "desc" | "linearGradient" | "a" | "clipPath" | "filter" | "image" | "script" | "style" | "text" | "font" | "metadata")),
        "path" | "rect" | "circle" | "polygon" | "use" | "image" => match child {
            _ if animation => Some(true),
            "title" | "desc" => Some(true),
            _ if shape || structural => Some(false),
            "text" | "tspan" | "stop" | "feGaussianBlur" | "foo" | "tref" => Some(false),
            _ => None,
        },
        "text" => match child {
            _ if animation => Some(true),
            "title" | "desc" | "tspan" | "a" => Some(true),
            _ if shape || structural => Some(false),
            "stop" | "feGaussianBlur" | "foo" | "text" => Some(false),
            _ => None,
        },
        "tspan" => match child {
            _ if animation => Some(true),
            "title" | "desc" | "tspan" | "a" => Some(true),
            _ if shape || structural => Some(false),
            "stop" | "feGaussianBlur" | "foo" | "text" => Some(false),
            _ => None,
        },
        "linearGradient" => match child {
            _ if animation => Some(true),
            "title" | "desc" | "stop" => Some(true),
            _ if shape || structural => Some(false),
            "feGaussianBlur" | "foo" | "text" | "tspan" | "linearGradient" | "clipPath" => Some(false),
            _ => None,
        },
        "stop" => match child {
            _ if animation => Some(true),
            _ if shape || structural => Some(false),
            "feGaussianBlur" | "foo" | "text" | "tspan" | "linearGradient" => Some(false),
            _ => None,
        },
        "filter" => match child {
            _ if animation => Some(true),
            "title" | "desc" | "feGaussianBlur" => Some(true),
            _ if shape || structural => Some(false),
            "foo" | "text" | "tspan" | "stop" => Some(false),
            _ => None,
        },
        "feGaussianBlur" => match child {
            _ if animation => Some(true),
            _ if shape || structural => Some(false),
            "foo" | "text" | "tspan" | "stop" | "feGaussianBlur" => Some(false),
            _ => None,
        },
        "clipPath" => match child {
            _ if animation || shape => Some(true),
            "title" | "desc" | "text" | "use" => Some(true),
            "g" | "svg" | "defs" | "foo" | "tspan" | "stop" | "feGaussianBlur" | "clipPath" | "linearGradient" => Some(false),
            _ => None,
        },
        "animate" | "set" => match child {
            "title" | "desc" => Some(true),
            _ if shape || structural => Some(false),
            "foo" | "text" | "tspan" | "stop" | "feGaussianBlur" => Some(false),
            _ => None,
        },
        "a" => match child {
            _ if animation || shape || structural => Some(true),
            "title" | "desc" | "text" => Some(true),
            _ => None,
        },
        _ => None,
    }
}

const CHILDREN: &[&str] = &[
    "g", "rect", "path", "circle", "polygon", "text", "tspan", "linearGradient", "stop", "use", "a", "defs", "clipPath", "filter", "feGaussianBlur", "animate", "set", "title", "desc", "image", "font", "foo", "tref", "svg", "style", "script", "metadata",
];

struct A {
    name: &'static str,
    on: &'static [&'static str],
    good: &'static [&'static str],
    default: &'static [&'static str],
    bad: &'static [&'static str],
    deprecated: bool,
}
const fn a(name: &'static str, on: &'static [&'static str], good: &'static [&'static str], default: &'static [&'static str], bad: &'static [&'static str]) -> A {
    A { name, on, good, default, bad, deprecated: false }
}
const fn old(name: &'static str, on: &'static [&'static str], good: &'static [&'static str]) -> A {
    A { name, on, good, default: &[], bad: &[], deprecated: true }
}
const ATTRS: &[A] = &[
    a("x", &["svg", "rect", "use", "image"], &["5", "10%"], &["0", "0px"], &["bogus", "5zz"]),
    a("y", &["svg", "rect", "use", "image"], &["5", "1em"], &["0"], &["bogus"]),
    a("width", &["rect", "svg", "image"], &["10"], &[], &["bogus", "1 2"]),
    a("cx", &["circle"], &["5"], &["0"], &["bogus"]),
    a("r", &["circle"], &["5"], &[], &["bogus"]),
    a("d", &["path"], &["M0 0h5", "M1 1L2 2z"], &[], &[]),
    a("points", &["polygon"], &["0 0 5 5"], &[], &[]),
    a("viewBox", &["svg"], &["0 0 10 10"], &[], &["bogus", "0 0 1"]),
    a("preserveAspectRatio", &["svg", "image"], &["xMinYMin", "none"], &["xMidYMid", "xMidYMid meet"], &["bogus"]),
    a("gradientUnits", &["linearGradient"], &["userSpaceOnUse"], &["objectBoundingBox"], &["bogus", "UserSpaceOnUse"]),
    a("spreadMethod", &["linearGradient"], &["reflect"], &["pad"], &["bogus"]),
    a("offset", &["stop"], &["0.5", "50%"], &[], &["bogus"]),
    a("stop-color", &["stop"], &["red", "#123"], &[], &["#ggg"]),
    a("clipPathUnits", &["clipPath"], &["objectBoundingBox"], &["userSpaceOnUse"], &["bogus"]),
    a("stdDeviation", &["feGaussianBlur"], &["5", "1 2"], &["0"], &["bogus"]),
    a("attributeName", &["animate", "set"], &["x"], &[], &[]),
    a("dur", &["animate", "set"], &["5s", "indefinite"], &[], &["bogus"]),
    a("calcMode", &["animate"], &["discrete"], &[], &["bogus"]),
    a("additive", &["animate"], &["sum"], &["replace"], &["bogus"]),
    a("fill", &["g", "path", "rect", "text", "use", "svg"], &["red", "none"], &[], &["#ggg"]),
    a("stroke", &["g", "path", "rect", "text", "use"], &["red"], &[], &["#ggg"]),
    a("opacity", &["g", "path", "rect", "text", "use"], &[".5"], &["1"], &["bogus"]),
    a("fill-rule", &["g", "path", "rect"], &["evenodd"], &["nonzero"], &["bogus"]),
    a("stroke-width", &["g", "path", "rect", "text"], &["2"], &["1"], &["bogus"]),
    a("display", &["g", "path", "rect", "text"], &["none"], &[], &["bogus"]),
    a("text-anchor", &["text", "tspan"], &["middle"], &["start"], &["bogus"]),
    a("transform", &["g", "path", "rect", "use", "text", "a"], &["translate(5)"], &[], &["bogus(5)"]),
    a("class", &["g", "path", "rect", "use", "text", "a", "stop", "filter"], &["a", "a b"], &[], &[]),
    a("style", &["g", "path", "rect", "use", "text"], &["fill:red"], &[], &[]),
    a("tabindex", &["g", "path", "rect", "use", "text"], &["1"], &[], &["bogus"]),
    a("aria-label", &["g", "path", "rect", "use", "text"], &["a", "é"], &[], &[]),
    old("version", &["svg"], &["1.2"]),
    old("baseProfile", &["svg"], &["full"]),
    old("enable-background", &["g", "svg"], &["new"]),
    old("xml:space", &["g", "svg", "text", "rect"], &["preserve"]),
    old("requiredFeatures", &["g", "path", "rect", "text"], &["a"]),
    old("attributeType", &["animate", "set"], &["CSS"]),
    old("filterRes", &["filter"], &["5"]),
    old("externalResourcesRequired", &["svg", "g"], &["true"]),
];

struct Decl {
    prefix: Option<String>,
    uri: String,
    at: usize,
    used: bool,
}

pub struct G<'s> {
    s: &'s mut Src,
    pub out: String,
    pub problems: Vec<Problem>,
    decls: Vec<Decl>,
    /// Indexes of the declarations in scope, by prefix.
    scopes: Vec<BTreeMap<Option<String>, usize>>,
    ids: Vec<(String, usize, usize)>,
    referenced: Vec<String>,
    script: bool,
    left: i32,
    n: usize,
}

impl G<'_> {
    fn problem(&mut self, rule: usize, text: String, start: usize, end: usize) {
        self.problems.push(Problem { rule, text, start, end });
    }
    fn gap(&mut self) {
        let g = *self.s.pick(&[" ", " ", " ", "  ", "\n", "\n  ", "\r\n  ", "\t"]);
        self.out.push_str(g);
    }
    /// Prints an attribute and returns where it, its name and its value are.
    fn attr(&mut self, name: &str, value: &str) -> [(usize, usize); 3] {
        self.gap();
        let st = self.out.len();
        self.out.push_str(name);
        let ne = self.out.len();
        self.out.push_str(self.s.pick(&["=", "=", "=", " =", "= ", " = "]));
        let q = if value.contains('"') || !value.contains('\'') && self.s.chance(1, 4) { '\'' } else { '"' };
        self.out.push(q);
        let vs = self.out.len();
        self.out.push_str(&value.replace('&', "&amp;").replace('<', "&lt;"));
        let ve = self.out.len();
        self.out.push(q);
        [(st, self.out.len()), (st, ne), (vs, ve)]
    }
    fn use_prefix(&mut self, prefix: Option<&str>) {
        let i = self.scopes.last().and_then(|s| s.get(&prefix.map(str::to_string)).copied());
        if let Some(i) = i {
            self.decls[i].used = true;
        }
    }
    fn uri(&self, prefix: &str) -> Option<&str> {
        self.scopes.last().and_then(|s| s.get(&Some(prefix.to_string()))).map(|i| self.decls[*i].uri.as_str())
    }
    fn decl(&mut self, prefix: Option<&str>, uri: &str, at: usize) {
        let name = prefix.map_or("xmlns".to_string(), |p| format!("xmlns:{p}"));
        self.attr(&name, uri);
        let i = self.decls.len();
        self.decls.push(Decl { prefix: prefix.map(str::to_string), uri: uri.to_string(), at, used: false });
        self.scopes.last_mut().unwrap().insert(prefix.map(str::to_string), i);
    }
    fn some_id(&mut self) -> String {
        format!("i{}", self.s.us(8))
    }
    /// Comments and text that look like what is reported.
    fn noise(&mut self, text: bool) {
        let n = self.s.weighted(&[4, 3, 1]);
        for _ in 0..n {
            let t = if text { *self.s.pick(&["<!-- <rect foo=\"bar\" x=\"0\"> -->", "<!-- é\u{1F600} -->", "é\u{1F600}", "<![CDATA[<rect foo=\"bar\"/>]]>", "&lt;rect foo=\"bar\">", "\n", "\r\n", "  ", "\n\n  ", "id=\"i1\"", "<?foo bar=\"baz\"?>"]) } else { *self.s.pick(&["<!-- <rect foo=\"bar\"> -->", "<!-- é -->", "\n", "\r\n  ", "<!---->", "<?foo bar?>"]) };
            self.out.push_str(t);
        }
    }
    fn element(&mut self, name: &str, parent: Option<&str>, depth: usize) {
        self.left -= 1;
        let at = self.out.len();
        self.out.push('<');
        let scope = self.scopes.last().cloned().unwrap_or_default();
        self.scopes.push(scope);
        let first_decl = self.decls.len();
        // Declarations are printed among the attributes; the prefix of the element must already be known.
        let own_prefix = if parent.is_some() && self.s.chance(1, 12) {
            let have: Vec<String> = self.scopes.last().unwrap().iter().filter(|(k, i)| k.is_some() && self.decls[**i].uri == SVG).map(|(k, _)| k.clone().unwrap()).collect();
            if have.is_empty() { None } else { Some(self.s.pick(&have).clone()) }
        } else {
            None
        };
        let qname = own_prefix.as_ref().map_or(name.to_string(), |p| format!("{p}:{name}"));
        self.out.push_str(&qname);
        self.n += 1;
        if parent.is_none() {
            self.decl(None, SVG, at);
            if self.s.chance(2, 3) {
                let p = *self.s.pick(&["xlink", "xlink", "xl"]);
                self.decl(Some(p), XLINK, at);
            }
        }
        if self.s.chance(1, 5) {
            let p = *self.s.pick(&["a", "a", "b", "é"]);
            let u = *self.s.pick(&["urn:a", "urn:a", "urn:b", "http://www.inkscape.org/namespaces/inkscape"]);
            // The reader keeps namespaces, not prefixes: two prefixes of one namespace cannot be told apart.
            let scope = self.scopes.last().unwrap();
            let two = scope.iter().any(|(k, i)| k.as_deref() != Some(p) && self.decls[*i].uri == u);
            // It does not keep declarations of what is already declared either.
            let again = scope.get(&Some(p.to_string())).is_some_and(|i| self.decls[*i].uri == u);
            if again {
                self.attr(&format!("xmlns:{p}"), u);
            } else if !two {
                self.decl(Some(p), u, at);
            }
        }
        if parent.is_some() && self.s.chance(1, 25) {
            self.attr("xmlns", SVG);
        }
        self.use_prefix(own_prefix.as_deref());
        if let Some(p) = parent {
            if permitted(p, name) == Some(false) {
                self.problem(0, format!("Unknown element <{qname}> for parent <{p}>"), at, at);
            }
        }
        if matches!(name, "font" | "tref") {
            self.problem(2, format!("Deprecated element <{qname}> will be removed in SVG 2 and may not be supported by modern clients."), at, at);
        }
        let known = name != "foo";
        let plain = matches!(name, "font" | "foo" | "tref" | "title" | "desc" | "style" | "script" | "metadata" | "font-face");
        let mut done: Vec<String> = vec![];
        let n = self.s.weighted(&[2, 4, 4, 3, 2]);
        for _ in 0..n {
            let what = if plain { 6 + self.s.us(2) } else if matches!(name, "use" | "a" | "image") { self.s.weighted(&[4, 2, 2, 2, 3, 12, 2, 2]) } else { self.s.weighted(&[6, 3, 2, 2, 3, 0, 2, 2]) };
            match what {
                0 | 1 => {
                    let fit: Vec<&A> = ATTRS.iter().filter(|x| x.on.contains(&name) && !done.iter().any(|d| d == x.name)).collect();
                    if fit.is_empty() {
                        continue;
                    }
                    let x = *self.s.pick(&fit);
                    done.push(x.name.into());
                    let k = self.s.weighted(&[3, 3, 2]);
                    if k == 1 && !x.default.is_empty() {
                        let v = *self.s.pick(x.default);
                        let r = self.attr(x.name, v);
                        self.problem(3, format!("The attribute `{}` has a value that matches its default and can be safely omitted", x.name), r[2].0, r[2].1);
                    } else if k == 2 && !x.bad.is_empty() {
                        let v = *self.s.pick(x.bad);
                        let r = self.attr(x.name, v);
                        self.problem(7, format!("The attribute `{}` has an invalid value for it's content-type", x.name), r[2].0, r[2].1);
                    } else if k == 2 && matches!(x.name, "d" | "points") {
                        let ok = x.good[0];
                        let tail = *self.s.pick(&["bogus", "bogus 1 2", "é", "é5"]);
                        let r = self.attr(x.name, &format!("{ok} {tail}"));
                        self.problem(7, format!("The attribute `{}` has an invalid value for it's content-type", x.name), r[2].1 - tail.replace('<', "&lt;").len(), r[2].1);
                    } else {
                        let v = *self.s.pick(x.good);
                        let r = self.attr(x.name, v);
                        if x.deprecated {
                            self.problem(2, format!("Deprecated attribute `{}` will be removed in SVG 2 and may not be supported by modern clients.", x.name), r[1].0, r[1].1);
                        }
                    }
                }
                2 => {
                    // an id
                    if done.iter().any(|d| d == "id") {
                        continue;
                    }
                    let id = self.some_id();
                    if self.ids.iter().any(|i| i.0 == id) {
                        continue;
                    }
                    done.push("id".into());
                    let r = self.attr("id", &id);
                    self.ids.push((id, r[2].0, r[2].1));
                }
                3 | 4 => {
                    // a reference
                    let id = self.some_id();
                    let k = self.s.us(6);
                    let (n, v): (&str, String) = match k {
                        0 if matches!(name, "use" | "a" | "image" | "linearGradient") => ("href", format!("#{id}")),
                        1 if matches!(name, "g" | "path" | "rect" | "text") => ("fill", format!("url(#{id})")),
                        2 if matches!(name, "g" | "path" | "rect" | "text" | "use") => ("clip-path", format!("url(#{id})")),
                        3 if matches!(name, "g" | "path" | "rect" | "text") => ("style", format!("stroke:url(#{id})")),
                        4 if matches!(name, "animate" | "set") => ("begin", format!("{id}.{}", self.s.pick(&["end", "begin", "click+1s"]))),
                        5 if matches!(name, "g" | "path" | "rect" | "text" | "use") => ("aria-labelledby", format!("{id} nothing")),
                        _ => continue,
                    };
                    if done.iter().any(|d| d == n) {
                        continue;
                    }
                    done.push(n.into());
                    self.attr(n, &v);
                    self.referenced.push(id);
                }
                5 => {
                    // an xlink attribute
                    if !matches!(name, "use" | "a" | "image") {
                        continue;
                    }
                    let have: Vec<&str> = ["xlink", "xl"].into_iter().filter(|p| self.uri(p) == Some(XLINK)).collect();
                    if have.is_empty() {
                        continue;
                    }
                    let p = *self.s.pick(&have);
                    let k = self.s.us(5);
                    let local = ["href", "title", "show", "show", "role"][k];
                    if done.iter().any(|d| d.ends_with(&format!(":{local}"))) {
                        continue;
                    }
                    let n = format!("{p}:{local}");
                    done.push(n.clone());
                    let v = match k {
                        0 => {
                            let id = self.some_id();
                            self.referenced.push(id.clone());
                            format!("#{id}")
                        }
                        1 => "a".into(),
                        2 => "new".into(),
                        3 => self.s.pick(&["replace", "other"]).to_string(),
                        _ => "b".into(),
                    };
                    let r = self.attr(&n, &v);
                    self.use_prefix(Some(p));
                    let text = match (local, v.as_str()) {
                        ("href", _) => "The attribute `xlink:href` is deprecated and may be replaced with `href`.".to_string(),
                        ("title", _) => "The attribute `xlink:title` is deprecated and may be replaced with `<title>`.".to_string(),
                        ("show", "new") => "The attribute `xlink:show` is deprecated and may be replaced with `target=\"_blank\"`.".to_string(),
                        ("show", "replace") => "The attribute `xlink:show` is deprecated and may be replaced with `target=\"_new\"`.".to_string(),
                        _ => format!("The attribute `xlink:{local}` is deprecated and may not be supported by clients."),
                    };
                    self.problem(4, text, r[0].0, r[0].1);
                }
                6 => {
                    // an unknown attribute
                    let n = *self.s.pick(&["foo", "Fill", "bogus-x", "é"]);
                    if done.iter().any(|d| d == n) {
                        continue;
                    }
                    done.push(n.into());
                    let v = *self.s.pick(&["bar", "", "a & b", "é", "foo=\"bar\"", "x\"y", "#i1", "a\nb", "é\r\n\n"]);
                    let r = self.attr(n, v);
                    if known {
                        self.problem(1, format!("Unknown attribute `{n}` for element <{qname}>"), r[0].0, r[0].1);
                    }
                }
                _ => {
                    // an attribute of another namespace
                    let have: Vec<&str> = ["a", "b", "é"].into_iter().filter(|p| self.uri(p).is_some()).collect();
                    if have.is_empty() {
                        continue;
                    }
                    let p = *self.s.pick(&have);
                    let uri = self.uri(p).unwrap().to_string();
                    let n = format!("{p}:{}", self.s.pick(&["foo", "x"]));
                    let clash = format!("{uri} {}", n.rsplit(':').next().unwrap());
                    if done.contains(&clash) {
                        continue;
                    }
                    done.push(clash);
                    let r = self.attr(&n, "1");
                    self.use_prefix(Some(p));
                    if known {
                        self.problem(1, format!("Unknown attribute `{n}` for element <{qname}>"), r[0].0, r[0].1);
                    }
                }
            }
        }
        self.out.push_str(self.s.pick(&["", "", "", " ", "\n"]));
        let leaf = matches!(name, "font" | "tref" | "foo" | "font-face");
        let mut kids = vec![];
        if !leaf && depth < 5 {
            let n = if parent.is_none() { 1 + self.s.us(4) } else { self.s.weighted(&[3, 3, 2, 1]) };
            let fit: Vec<&str> = CHILDREN.iter().copied().filter(|c| permitted(name, c).is_some()).collect();
            let good: Vec<&str> = fit.iter().copied().filter(|c| permitted(name, c) == Some(true)).collect();
            for _ in 0..n {
                if fit.is_empty() || self.left <= kids.len() as i32 {
                    break;
                }
                let k = if !good.is_empty() && self.s.chance(3, 4) { *self.s.pick(&good) } else { *self.s.pick(&fit) };
                kids.push(k);
            }
        }
        let content = matches!(name, "title" | "desc" | "style" | "script" | "metadata");
        if kids.is_empty() && !content && self.s.chance(2, 3) {
            self.out.push_str("/>");
        } else {
            self.out.push('>');
            match name {
                "style" => {
                    let id = self.some_id();
                    match self.s.us(5) {
                        4 => {
                            self.out.push_str(&format!(".a:not(g #{id}){{fill:red}}"));
                            self.referenced.push(id);
                        }
                        0 => {
                            self.out.push_str(&format!(".a{{fill:url(#{id})}}"));
                            self.referenced.push(id);
                        }
                        1 => {
                            self.out.push_str(&format!("#{id} rect{{fill:red}}"));
                            self.referenced.push(id);
                        }
                        2 => self.out.push_str(".a{fill:red}"),
                        _ => {
                            self.out.push_str(&format!("@media print{{.a{{clip-path:url(\"#{id}\")}}}}"));
                            self.referenced.push(id);
                        }
                    }
                }
                "script" => {
                    self.script = true;
                    self.out.push_str("a()");
                }
                "metadata" => {}
                _ => {
                    let text = matches!(name, "text" | "tspan" | "title" | "desc");
                    self.noise(text);
                    for k in kids {
                        self.element(k, Some(name), depth + 1);
                        self.noise(text);
                    }
                }
            }
            self.out.push_str(&format!("</{qname}{}>", self.s.pick(&["", "", "", " ", "\n"])));
        }
        self.scopes.pop();
        let unused: Vec<(String, usize)> = self.decls[first_decl..]
            .iter()
            .filter(|d| d.at == at && !d.used)
            .map(|d| (format!("The namespace `xmlns{}=\"{}\" is not referenced by any descendants`", d.prefix.as_ref().map_or(String::new(), |p| format!(":{p}")), d.uri), d.at))
            .collect();
        for (t, at) in unused {
            self.problem(6, t, at, at);
        }
    }
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Input {
    pub source: String,
    pub problems: Vec<Problem>,
    /// 0 off, 1 warning, 2 error.
    pub rules: [u8; 8],
}

pub fn input(s: &mut Src) -> Input {
    let rules: [u8; 8] = {
        let mut r = [2; 8];
        if s.chance(2, 3) {
            for x in &mut r {
                *x = s.us(3) as u8;
            }
        }
        r
    };
    let left = s.int(3, 14) as i32;
    let head = *s.pick(&["", "", "", "<?xml version=\"1.0\"?>\n", "<!-- é <svg foo=\"bar\"> -->\n", "\n\n", "<!DOCTYPE svg>\r\n"]);
    let mut g = G { s, out: head.to_string(), problems: vec![], decls: vec![], scopes: vec![], ids: vec![], referenced: vec![], script: false, left, n: 0 };
    g.element("svg", None, 0);
    g.noise(false);
    if !g.script {
        let ids = std::mem::take(&mut g.ids);
        for (id, st, e) in ids {
            if !g.referenced.contains(&id) {
                g.problem(5, format!("The id `\"{id}\"` is not referenced anywhere else in the document"), st, e);
            }
        }
    }
    Input { source: g.out, problems: g.problems, rules }
}

pub fn rules(r: &[u8; 8]) -> oxvg_lint::Rules {
    use oxvg_lint::Severity;
    let v = |i: usize| match r[i] {
        0 => Severity::Off,
        1 => Severity::Warn,
        _ => Severity::Error,
    };
    oxvg_lint::Rules { no_unknown_elements: v(0), no_unknown_attributes: v(1), no_deprecated: v(2), no_default_attributes: v(3), no_x_link: v(4), no_unused_ids: v(5), no_unused_xmlns: v(6), no_invalid_attributes: v(7) }
}

pub struct Reported {
    pub text: String,
    pub severity: u8,
    pub range: Option<std::ops::Range<usize>>,
}

/// The problems the linter reports.
pub fn lint(i: &Input) -> Result<Vec<Reported>, String> {
    use oxvg_ast::parse::roxmltree::{parse_with_options, ParsingOptions};
    use oxvg_ast::visitor::Visitor;
    let r = rules(&i.rules);
    parse_with_options(&i.source, ParsingOptions { allow_dtd: true, ..ParsingOptions::default() }, |root, alloc| match r.start_with_path(root, alloc, None) {
        Ok(_) => vec![],
        Err(e) => e
            .iter()
            .map(|e| Reported {
                text: e.problem.to_string(),
                severity: match e.severity {
                    oxvg_lint::Severity::Off => 0,
                    oxvg_lint::Severity::Warn => 1,
                    oxvg_lint::Severity::Error => 2,
                },
                range: e.range.clone(),
            })
            .collect(),
    })
    .map_err(|e| e.to_string())
}
