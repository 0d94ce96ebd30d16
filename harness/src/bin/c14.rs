//! C14: rewriting ids and references keeps every reference on its target.
use pbt::engine::*;
use pbt::{dom, jobs, render};
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value, json};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Serialize, Deserialize)]
struct Input {
    svg: String,
    config: Value,
}

struct C14;

const ID_LISTS: &[&str] = &["aria-controls", "aria-describedby", "aria-flowto", "aria-labelledby", "aria-owns", "aria-details", "aria-activedescendant"];

/// Text of a fragment with percent escapes resolved.
fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let hex = (b[i] == b'%').then(|| s.get(i + 1..i + 3)).flatten().and_then(|h| u8::from_str_radix(h, 16).ok());
        match hex {
            Some(c) => {
                out.push(c);
                i += 3;
            }
            None => {
                out.push(b[i]);
                i += 1;
            }
        }
    }
    String::from_utf8_lossy(&out).into_owned()
}

/// Every local `url()` of a value, in order.
fn urls(v: &str) -> Vec<String> {
    let mut out = vec![];
    let mut rest = v;
    while let Some(p) = rest.find("url(") {
        rest = &rest[p..];
        if let Some((u, _)) = render::url_ref(rest) {
            out.push(u);
        }
        rest = &rest[4..];
    }
    out
}

struct View {
    /// Where a reference stands, and the id it names.
    refs: BTreeMap<(String, String, usize), String>,
    /// Ids by number of the element.
    ids: BTreeMap<String, String>,
    /// First element with the id.
    first: BTreeMap<String, String>,
    /// Elements each rule of the style sheets matches.
    rules: Vec<(BTreeSet<String>, Vec<String>)>,
    classes: BTreeMap<String, Vec<String>>,
}

fn view(d: &dom::Doc) -> View {
    let mut v = View { refs: BTreeMap::new(), ids: BTreeMap::new(), first: BTreeMap::new(), rules: vec![], classes: BTreeMap::new() };
    for e in &d.els {
        let Some(n) = e.get("data-n").map(str::to_string) else { continue };
        for a in &e.attrs {
            let mut put = |name: &str, ids: Vec<String>| {
                for (i, id) in ids.into_iter().enumerate() {
                    v.refs.insert((n.clone(), name.to_string(), i), id);
                }
            };
            match a.name.as_str() {
                "id" => {
                    v.ids.insert(n.clone(), a.value.clone());
                    v.first.entry(a.value.clone()).or_insert(n.clone());
                }
                "class" => {
                    v.classes.insert(n.clone(), a.value.split_whitespace().map(str::to_string).collect());
                }
                "href" => {
                    let xlink = !a.ns.is_empty();
                    if xlink && e.get("href").is_some() {
                        continue;
                    }
                    put("href", a.value.strip_prefix('#').map(decode).into_iter().collect());
                }
                "begin" | "end" => put(
                    &a.name,
                    a.value
                        .split(';')
                        .filter_map(|t| {
                            let t = t.trim();
                            let (id, _) = t.split_once('.')?;
                            (!id.starts_with(|c: char| c.is_ascii_digit() || "+-".contains(c)) && !id.contains('(')).then(|| id.to_string())
                        })
                        .collect(),
                ),
                k if ID_LISTS.contains(&k) => put(k, a.value.split_whitespace().map(str::to_string).collect()),
                "style" => {
                    for dl in dom::decls(&a.value) {
                        put(&format!("style {}", dl.name), urls(&dl.value).iter().map(|u| decode(u)).collect());
                    }
                }
                k if k.starts_with("data-") => {}
                k => put(k, urls(&a.value).iter().map(|u| decode(u)).collect()),
            }
        }
    }
    let mut k = 0;
    for r in &d.all_rules {
        let set = (0..d.els.len()).filter(|e| r.selector.matches(d, *e)).filter_map(|e| d.els[e].get("data-n").map(str::to_string)).collect();
        let mut urls_of = vec![];
        for dl in &r.decls {
            for u in urls(&dl.value) {
                urls_of.push(decode(&u));
                v.refs.insert(("sheet".into(), format!("{k} {}", dl.name), 0), decode(&u));
            }
        }
        k += 1;
        v.rules.push((set, urls_of));
    }
    v
}

const BASE: &[&str] = &["a", "b", "c", "d", "A", "B", "aa", "ab", "z", "Z", "gradient", "path-1", "x_y", "I", "é", "日本", "prefix__a", "pre-b", "keep", "keepme", "a1", "12", "0"];

struct G {
    ids: Vec<String>,
    used: usize,
    n: usize,
    prefix: Option<String>,
    animated: bool,
}

impl G {
    fn reference(&self, s: &mut Src) -> String {
        if s.chance(1, 8) {
            return s.pick(&["missing", "e", "f", "none1"]).to_string();
        }
        s.pick(&self.ids).clone()
    }
    fn fragment(&self, s: &mut Src) -> String {
        let id = self.reference(s);
        if !id.is_ascii() && s.chance(1, 2) || s.chance(1, 20) {
            return format!("#{}", id.bytes().map(|b| if b.is_ascii_alphanumeric() && b % 3 != 0 { (b as char).to_string() } else { format!("%{b:02X}") }).collect::<String>());
        }
        format!("#{id}")
    }
    fn url(&self, s: &mut Src) -> String {
        let f = self.fragment(s);
        match s.weighted(&[6, 2, 1]) {
            0 => format!("url({f})"),
            1 => format!("url('{f}')"),
            _ => format!("url( {f} )"),
        }
    }
    fn begin(&self, s: &mut Src) -> String {
        let mut id = self.reference(s);
        if id.contains('-') || id.starts_with(|c: char| c.is_ascii_digit()) {
            id = "a".into();
        }
        match s.us(5) {
            0 => format!("{id}.end"),
            1 => format!("{id}.begin+1s"),
            2 => format!("{id}.click"),
            3 => format!("{id}.repeat(2)"),
            _ => "2s".into(),
        }
    }
    fn common(&mut self, s: &mut Src, dense: bool) -> String {
        let mut t = format!(" data-n=\"{}\"", self.n);
        self.n += 1;
        if self.used < self.ids.len() && (dense || s.chance(1, 2)) {
            t += &format!(" id=\"{}\"", self.ids[self.used]);
            self.used += 1;
        }
        if s.chance(1, 6) {
            t += &format!(" class=\"{}\"", s.list(1, 1, 2, |s| s.pick(&["a", "b", "k", "é"]).to_string()).join(" "));
        }
        t
    }
    /// References in lists of ids, for elements that take them.
    fn aria(&self, s: &mut Src) -> String {
        let mut t = String::new();
        if s.chance(1, 6) {
            t += &format!(" {}=\"{}\"", s.pick(&ID_LISTS[..5]), s.list(1, 2, 3, |s| self.reference(s)).join(" "));
        }
        t
    }
    fn paints(&self, s: &mut Src) -> String {
        let mut t = String::new();
        for k in ["fill", "stroke", "clip-path", "mask", "filter", "marker-start", "marker-end"] {
            if s.chance(1, 7) {
                let mut u = self.url(s);
                if k == "mask" {
                    // a known finding: spaces inside url() are taken for list separators
                    u.retain(|c| c != ' ');
                }
                let u = if matches!(k, "fill" | "stroke") && s.chance(1, 3) { format!("{u} red") } else { u };
                t += &format!(" {k}=\"{u}\"");
            }
        }
        if s.chance(1, 5) {
            let mut ds = vec![];
            for k in ["fill", "stroke", "filter", "clip-path"] {
                if s.chance(1, 3) {
                    ds.push(format!("{k}:{}", self.url(s)));
                }
            }
            if !ds.is_empty() {
                t += &format!(" style=\"{}\"", ds.join(";"));
            }
        }
        t
    }
    fn href(&self, s: &mut Src) -> String {
        match s.weighted(&[4, 4, 1]) {
            0 => format!(" href=\"{}\"", self.fragment(s)),
            1 => format!(" xlink:href=\"{}\"", self.fragment(s)),
            _ => format!(" href=\"{0}\" xlink:href=\"{0}\"", self.fragment(s)),
        }
    }
    fn element(&mut self, s: &mut Src, depth: usize, dense: bool) -> String {
        let c = self.common(s, dense);
        match s.weighted(&[4, 3, 2, 2, 2, 2, 1, if self.animated { 3 } else { 0 }, if depth > 0 { 3 } else { 0 }]) {
            0 => format!("<path d=\"M0 0h9v4z\"{c}{}/>", self.paints(s) + &self.aria(s)),
            1 => format!("<use{c}{}/>", self.href(s) + &self.aria(s)),
            2 => format!("<linearGradient{c}{}><stop offset=\"0\"/></linearGradient>", if s.chance(1, 2) { self.href(s) } else { String::new() }),
            3 => format!("<clipPath{c}><rect width=\"4\" height=\"3\"/></clipPath>"),
            4 => format!("<text{c}{}>t<textPath{}>x</textPath></text>", self.paints(s), self.common(s, dense) + &self.href(s)),
            5 => format!("<a{c}{}><rect width=\"4\" height=\"3\"{}/></a>", self.href(s), self.common(s, false) + &self.paints(s)),
            6 => format!("<mask{c}><circle r=\"3\"/></mask>"),
            7 => {
                let h = if s.chance(1, 2) { self.href(s) } else { String::new() };
                let b = s.list(1, 1, 3, |s| self.begin(s)).join(*s.pick(&[";", "; "]));
                format!("<animate{c}{h} attributeName=\"x\" to=\"2\" dur=\"1s\" {}=\"{b}\"/>", s.pick(&["begin", "end"]))
            }
            _ => {
                let p = self.paints(s) + &self.aria(s);
                let mut t = format!("<g{c}{p}>");
                for _ in 0..1 + s.us(3) {
                    t += &self.element(s, depth - 1, dense);
                }
                t + "</g>"
            }
        }
    }
}

impl Prop for C14 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> String {
        "a reference resolves and the document was changed".into()
    }
    fn cases(&self) -> (u64, u64) {
        (400_000, 6_000_000)
    }
    fn generate(&self, s: &mut Src, cx: &mut Cx) -> Input {
        let mut m = Map::new();
        let mut prefix = None;
        let which = s.weighted(&[6, 4, 1, 3]);
        let clean = which == 0 || which == 3 && s.chance(2, 3);
        if clean {
            let mut c = Map::new();
            for k in ["remove", "minify"] {
                if s.chance(1, 3) {
                    c.insert(k.into(), s.chance(1, 2).into());
                }
            }
            if s.chance(1, 3) {
                c.insert("preserve".into(), json!(s.list(1, 2, 3, |s| s.pick(BASE).to_string())));
            }
            if s.chance(1, 4) {
                c.insert("preservePrefixes".into(), json!(s.list(1, 1, 2, |s| s.pick(&["keep", "a", "pre", "x_"]).to_string())));
            }
            m.insert("cleanupIds".into(), Value::Object(c));
        }
        if which == 1 || which == 3 && s.chance(2, 3) {
            let mut c = Map::new();
            let mut p = "prefix".to_string();
            let mut delim = "__".to_string();
            let mut none = false;
            match s.us(4) {
                0 => {
                    p = s.pick(&["pre", "svg1", "x"]).to_string();
                    c.insert("prefix".into(), json!(p));
                }
                1 if s.chance(1, 3) => {
                    none = true;
                    c.insert("prefix".into(), json!(false));
                }
                _ => {}
            }
            if s.chance(1, 3) && !(clean && p == "x") {
                delim = s.pick(&["-", "", "_"]).to_string();
                c.insert("delim".into(), json!(delim));
            }
            if s.chance(1, 4) {
                c.insert("prefixClassNames".into(), json!(false));
            } else if s.chance(1, 6) {
                c.insert("prefixIds".into(), json!(false));
            }
            prefix = Some(if none { String::new() } else { format!("{p}{delim}") });
            m.insert("prefixIds".into(), Value::Object(c));
        }
        if which == 2 || which == 3 && s.chance(1, 2) {
            m.insert("removeXlink".into(), json!({"includeLegacy": s.chance(1, 2)}));
        }
        let many = s.chance(1, 40);
        let mut ids: Vec<String> = vec![];
        if many {
            let k = s.int(40, 130);
            ids.extend((0..k).map(|i| format!("id{i}")));
            for _ in 0..s.us(4) {
                ids.push(s.pick(BASE).to_string());
            }
        }
        for _ in 0..1 + s.us(10) {
            let id = s.pick(BASE).to_string();
            let id = if s.chance(1, 5) { format!("{id}{}", s.us(30)) } else { id };
            ids.push(id);
        }
        let duplicates = s.chance(1, 6);
        if let Some(p) = &prefix {
            // an id that already has the prefix is left alone, so that it can meet another one
            let had = ids.len();
            ids.retain(|i| p.is_empty() || !i.starts_with(p.as_str()));
            if ids.len() < had {
                cx.exclude("id that already has the prefix");
            }
            if ids.is_empty() {
                ids.push("q".into());
            }
        }
        if !duplicates {
            let mut seen = BTreeSet::new();
            ids.retain(|i| seen.insert(i.clone()));
        }
        let sheet = !clean && s.chance(1, 2);
        let mut g = G { ids, used: 0, n: 1, prefix, animated: s.chance(1, 3) };
        let mut t = String::from("<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\" data-n=\"0\">");
        if sheet {
            t += "<style>";
            for _ in 0..1 + s.us(3) {
                let id = g.reference(s);
                // digits need escapes in selectors
                let id = if id.starts_with(|c: char| c.is_ascii_digit()) { "a".to_string() } else { id };
                let sel = match s.us(4) {
                    0 | 1 => format!("#{id}"),
                    2 => format!("g #{id}.a,.{}", s.pick(&["a", "b", "k"])),
                    _ => format!(".{}", s.pick(&["a", "b", "k"])),
                };
                let v = if s.chance(1, 2) { g.url(s) } else { "red".into() };
                t += &format!("{sel}{{fill:{v}}}");
            }
            t += "</style>";
        }
        let target = g.ids.len();
        for _ in 0..1 + s.us(6) + if many { target } else { 0 } {
            t += &g.element(s, 2, many);
        }
        let _ = &g.prefix;
        t += "</svg>";
        Input { svg: t, config: Value::Object(m) }
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Check {
        let j = jobs::config(i.config.clone()).map_err(|e| Fail::new("config", e))?;
        let out = jobs::run(&i.svg, &j).map_err(|e| Fail::new("error", e))?;
        let (a, b) = (dom::parse(&i.svg).map_err(|e| Fail::new("generator", e))?, dom::parse(&out).map_err(|e| Fail::new("malformed", format!("{e}: {out}")))?);
        let (a, b) = (view(&a), view(&b));
        let names: Vec<&str> = i.config.as_object().unwrap().keys().map(String::as_str).collect();
        let bad = |what: &str, msg: String| fail(format!("{what} ({})", names.join("+")), format!("{msg}\n  output: {out}"));
        let target = |v: &View, id: &String| v.first.get(id).cloned();
        let mut resolved = 0;
        for (k, id) in &a.refs {
            let was = target(&a, id);
            let now = b.refs.get(k).and_then(|id| target(&b, id));
            resolved += was.is_some() as usize;
            if was != now {
                let kind = if was.is_none() { "made to resolve" } else { "reference lost" };
                return bad(kind, format!("{k:?} #{id} named element {was:?}, #{:?} names {now:?}", b.refs.get(k)));
            }
        }
        if let Some(k) = b.refs.keys().find(|k| !a.refs.contains_key(*k)) {
            return bad("new reference", format!("{k:?}"));
        }
        if a.rules.len() != b.rules.len() {
            return bad("rules", format!("{} rules became {}", a.rules.len(), b.rules.len()));
        }
        for (x, y) in a.rules.iter().zip(&b.rules) {
            if x.0 != y.0 {
                return bad("selector", format!("a rule matched {:?}, matches {:?}", x.0, y.0));
            }
        }
        let unique = |v: &View| v.ids.values().collect::<BTreeSet<_>>().len() == v.ids.len();
        cx.label_if(!unique(&a), "duplicate ids");
        if unique(&a) && !unique(&b) {
            return bad("ids collide", format!("{:?}", b.ids));
        }
        for (n, id) in &b.ids {
            if !a.ids.contains_key(n) {
                return bad("new id", format!("element {n} has id {id}"));
            }
        }
        if let Some(c) = i.config.get("cleanupIds") {
            cx.label("cleanupIds");
            let strings = |k: &str| -> Vec<String> { c.get(k).and_then(Value::as_array).map(|v| v.iter().filter_map(|x| x.as_str().map(str::to_string)).collect()).unwrap_or_default() };
            let (keep, prefixes) = (strings("preserve"), strings("preservePrefixes"));
            let flag = |k: &str| c.get(k).and_then(Value::as_bool).unwrap_or(true);
            if !i.config.as_object().unwrap().contains_key("prefixIds") {
                for (n, id) in &a.ids {
                    let preserved = keep.contains(id) || prefixes.iter().any(|p| id.starts_with(p.as_str()));
                    let now = b.ids.get(n);
                    cx.label_if(preserved, "preserved");
                    if (preserved || !flag("minify")) && now.is_some_and(|x| x != id) {
                        return bad("id changed", format!("{id} became {now:?}"));
                    }
                    if (preserved || !flag("remove")) && now.is_none() && unique(&a) {
                        return bad("id removed", id.to_string());
                    }
                    let used = a.refs.values().any(|r| r == id);
                    cx.label_if(!used && now.is_none(), "removed");
                    cx.label_if(used && now.is_some_and(|x| x != id), "renamed");
                    if !preserved && flag("remove") && !used && now.is_some() {
                        return bad("unused id kept", id.to_string());
                    }
                }
            }
        }
        if let Some(c) = i.config.get("prefixIds").filter(|_| names.len() == 1 || names == ["prefixIds", "removeXlink"]) {
            cx.label("prefixIds");
            let delim = c.get("delim").and_then(Value::as_str).unwrap_or("__");
            let p = match c.get("prefix") {
                Some(Value::String(p)) => format!("{p}{delim}"),
                Some(Value::Bool(false)) => String::new(),
                _ => format!("prefix{delim}"),
            };
            let flag = |k: &str| c.get(k).and_then(Value::as_bool).unwrap_or(true);
            for (n, id) in &a.ids {
                let want = if flag("prefixIds") { format!("{p}{id}") } else { id.clone() };
                if b.ids.get(n) != Some(&want) {
                    return bad("prefix", format!("{id} became {:?}", b.ids.get(n)));
                }
            }
            for (n, cs) in &a.classes {
                let want: Vec<String> = cs.iter().map(|c| if flag("prefixClassNames") && !c.starts_with(&p) { format!("{p}{c}") } else { c.clone() }).collect();
                if b.classes.get(n) != Some(&want) {
                    return bad("class prefix", format!("{cs:?} became {:?}", b.classes.get(n)));
                }
            }
        }
        cx.label_if(names.contains(&"removeXlink"), "removeXlink");
        if names.contains(&"removeXlink") && out.contains("xlink:href") {
            return bad("xlink kept", String::new());
        }
        cx.label_if(a.ids.len() > 60, "many ids");
        cx.label_if(!a.rules.is_empty(), "style sheet");
        cx.label_if(a.refs.keys().any(|k| matches!(k.1.as_str(), "begin" | "end")), "timing reference");
        cx.label_if(a.refs.keys().any(|k| k.1.starts_with("aria")), "id list");
        cx.label_if(i.svg.contains("#%") || i.svg.contains("%C3"), "escaped");
        if resolved > 0 && !names.is_empty() {
            cx.nontrivial((&i.svg, i.config.to_string()));
        }
        Ok(())
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![("cleanupIds", 300), ("prefixIds", 200), ("removeXlink", 100), ("renamed", 150), ("removed", 100), ("preserved", 25), ("many ids", 10), ("duplicate ids", 7), ("style sheet", 100), ("timing reference", 80), ("id list", 150), ("escaped", 100)]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "references are href and xlink:href, url() in attributes, style attributes and style sheets, begin and end times, and ARIA id lists of elements that take them; a reference is to the first element with the id in document order".into(),
            "ids that already start with the prefix are left alone (documented by tests of the job), so ids that meet another one that way are not generated".into(),
        ]
    }
    fn render(&self, i: &Input) -> String {
        format!("{} {}", i.config, i.svg)
    }
}

fn main() {
    pbt::engine::main(C14)
}
