//! C09: attribute maps behave as ordered maps, class lists as ordered sets (stateful model).
use oxvg_ast::element::Element;
use oxvg_ast::parse::roxmltree::parse;
use oxvg_ast::serialize::Node as _;
use oxvg_collections::atom::Atom;
use oxvg_collections::attribute::{Attr, AttrId};
use oxvg_collections::name::NS;
use oxvg_serialize::{PrinterOptions, ToValue as _};
use pbt::engine::*;
use serde::{Deserialize, Serialize};

const XLINK: &str = "http://www.w3.org/1999/xlink";
const SVG: &str = "http://www.w3.org/2000/svg";
const DECLS: &[(&str, &str)] = &[
    ("xlink", XLINK),
    ("foo", "urn:foo"),
    ("bar", "urn:bar"),
    ("xml", "http://www.w3.org/XML/1998/namespace"),
    ("xmlns", "http://www.w3.org/2000/xmlns/"),
];

/// Attributes whose values are already in their printed form, so that text can be compared.
const ATTRS: &[(&str, &[&str])] = &[
    ("id", &["a", "b", "long-id"]),
    ("fill", &["red", "none", "inherit"]),
    ("fill-opacity", &["0", "1", ".5"]),
    ("fill-rule", &["nonzero", "evenodd"]),
    ("stroke", &["red", "none"]),
    ("stroke-width", &["1", "2"]),
    ("x", &["1", "2em", "3%"]),
    ("x2", &["one", "two"]),
    ("width", &["10", "20"]),
    ("href", &["#a", "#b"]),
    ("xlink:href", &["#a", "#b"]),
    ("foo:href", &["#a", "v"]),
    ("bar:href", &["#c", "v"]),
    ("foo:fill", &["red", "v"]),
    ("foo:class", &["a b", "c"]),
    ("xlink:title", &["t", "u"]),
    ("xml:space", &["preserve", "default"]),
    ("xml:lang", &["en", "de"]),
    ("lang", &["en", "fr"]),
    ("data-x", &["1", "z z"]),
    ("data-y", &["1", "é"]),
    ("unknown", &["", "q"]),
    ("transform", &["scale(2)", "junk("]),
    ("opacity", &[".5", "0"]),
    ("class", &["a", "b c", "c a b", "a b a"]),
    ("title", &["x", "y"]),
    ("d", &["M0 0", "M1 1"]),
    ("xmlns:q1", &["urn:q1"]),
    ("xmlns:q2", &["urn:q2"]),
];
const TOKENS: &[&str] = &["a", "b", "c", "d-e", "A"];

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Set(u8, u8),
    SetNamed(u8, u8),
    Remove(u8),
    RemoveNamed(u8),
    Retain(u32),
    Sort(Vec<u8>, bool),
    ReplaceMut(u8, u8),
    Add(u8),
    Del(u8),
    Toggle(u8),
    Replace(u8, u8),
    RetainTokens(u8),
    SetFrom(Vec<(u8, u8)>),
}

#[derive(Clone, Serialize, Deserialize)]
struct Input {
    initial: Vec<(u8, u8)>,
    keep_list: bool,
    ops: Vec<Op>,
}

type Entry = (String, String);

fn key(i: u8) -> &'static str {
    ATTRS[i as usize % ATTRS.len()].0
}
fn attr_index(s: &mut Src) -> u8 {
    let class = ATTRS.iter().position(|a| a.0 == "class").unwrap() as u64;
    if s.chance(1, 6) { class as u8 } else { s.n(ATTRS.len() as u64) as u8 }
}
fn val(i: u8, v: u8) -> &'static str {
    let vs = ATTRS[i as usize % ATTRS.len()].1;
    vs[v as usize % vs.len()]
}
fn tok(i: u8) -> &'static str {
    TOKENS[i as usize % TOKENS.len()]
}

thread_local! {
    static IDS: Vec<(&'static str, AttrId<'static>)> = ATTRS.iter().map(|a| (a.0, make_id(a.0))).collect();
}
fn attr_id(name: &'static str) -> AttrId<'static> {
    IDS.with(|ids| ids.iter().find(|i| i.0 == name).unwrap().1.clone())
}
fn make_id(name: &'static str) -> AttrId<'static> {
    use oxvg_collections::element::ElementId;
    use oxvg_collections::name::Prefix;
    let (p, l) = match name.split_once(':') {
        Some((p, l)) => (Some(p), l),
        None => (None, name),
    };
    let ns = match p {
        None => SVG,
        Some(p) => DECLS.iter().find(|d| d.0 == p).unwrap().1,
    };
    let prefix = Prefix::new(Atom::from(ns), p.map(Atom::from));
    ElementId::Rect.parse_attr_id(&prefix, Atom::from(l))
}

fn tokens(m: &[Entry]) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    if let Some(c) = m.iter().find(|e| e.0 == "class") {
        for t in c.1.split_ascii_whitespace() {
            out.push(t.to_string());
        }
    }
    out
}
fn set_tokens(m: &mut Vec<Entry>, t: &[String]) {
    let v = t.join(" ");
    if let Some(c) = m.iter_mut().find(|e| e.0 == "class") {
        c.1 = v;
    } else if !t.is_empty() {
        m.push(("class".into(), v));
    }
}
fn set(m: &mut Vec<Entry>, k: &str, v: &str) {
    if let Some(e) = m.iter_mut().find(|e| e.0 == k) {
        e.1 = v.into();
    } else {
        m.push((k.into(), v.into()));
    }
}

fn observed(e: &Element) -> Vec<Entry> {
    e.attributes()
        .into_iter()
        .map(|a| {
            let n = match a.prefix().value() {
                Some(p) => format!("{p}:{}", a.local_name()),
                None => a.local_name().to_string(),
            };
            (n, a.to_value_string(PrinterOptions::default()).unwrap_or("<error>".into()))
        })
        .collect()
}

/// An emptied class attribute and an absent one are the same set of tokens.
fn drop_empty_class(m: &[Entry]) -> Vec<Entry> {
    m.iter().filter(|e| !(e.0 == "class" && e.1.is_empty())).cloned().collect()
}

struct C09;

fn op(s: &mut Src) -> Op {
    let b = |s: &mut Src| attr_index(s);
    match s.weighted(&[10, 8, 5, 5, 3, 4, 3, 7, 6, 5, 7, 3, 1]) {
        0 => Op::Set(b(s), s.n(12) as u8),
        1 => Op::SetNamed(b(s), s.n(12) as u8),
        2 => Op::Remove(b(s)),
        3 => Op::RemoveNamed(b(s)),
        4 => Op::Retain(s.n(1 << 20) as u32),
        5 => {
            let o = s.list(0, 4, 8, |s| s.n(12) as u8);
            let f = s.chance(1, 2);
            Op::Sort(o, f)
        }
        6 => Op::ReplaceMut(b(s), s.n(12) as u8),
        7 => Op::Add(s.n(5) as u8),
        8 => Op::Del(s.n(5) as u8),
        9 => Op::Toggle(s.n(5) as u8),
        10 => Op::Replace(s.n(5) as u8, s.n(5) as u8),
        11 => Op::RetainTokens(s.n(32) as u8),
        _ => Op::SetFrom(s.list(0, 3, 6, |s| (b(s), s.n(12) as u8))),
    }
}

const ORDER: &[&str] = &["id", "width", "height", "x", "y", "fill", "stroke", "d", "class", "data", "href", "transform"];

impl Prop for C09 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> String {
        "An element with up to 8 initial attributes and a history of up to 25 attribute and class-list edits (set, remove, retain, sort, replace all, mutate in place; class add, remove, toggle, replace, retain) over 29 colliding and prefixed names and 5 tokens, through the element, the attribute map or one long-lived class list; after each edit iteration, every lookup and the written text are compared with an association list and an ordered token set. Non-trivial: at least four edits change the state.".into()
    }
    fn cases(&self) -> (u64, u64) {
        (800_000, 12_000_000)
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![("overwrites", 150), ("removes present", 100), ("sort of 3+", 100), ("class replace", 60), ("prefixed twin", 50), ("replace by a present token", 20), ("class listed twice", 20)]
    }
    fn generate(&self, s: &mut Src, _: &mut Cx) -> Input {
        Input {
            initial: s.list(0, 3, 8, |s| (attr_index(s), s.n(12) as u8)),
            keep_list: s.chance(1, 2),
            ops: s.list(1, 9, 25, op),
        }
    }
    fn check(&self, input: &Input, cx: &mut Cx) -> Check {
        let mut model: Vec<Entry> = vec![];
        let mut src = format!("<svg xmlns=\"{SVG}\" xmlns:xlink=\"{XLINK}\" xmlns:foo=\"urn:foo\" xmlns:bar=\"urn:bar\"><rect");
        // namespace declarations come first in a parsed element
        let mut initial = input.initial.clone();
        initial.sort_by_key(|(i, _)| !key(*i).starts_with("xmlns:"));
        for (i, v) in &initial {
            let k = key(*i);
            if model.iter().any(|e| e.0 == k) {
                continue;
            }
            model.push((k.into(), val(*i, *v).into()));
            src.push_str(&format!(" {k}=\"{}\"", val(*i, *v)));
        }
        src.push_str("/></svg>");
        let src: &str = &src;
        parse(src, |root, _| {
            let e = Element::new(root.first_child().unwrap().first_child().unwrap()).unwrap();
            run(&e, model, input, cx)
        })
        .unwrap_or_else(|e| fail("parse", format!("{e}")))
    }
    fn render(&self, i: &Input) -> String {
        let a: Vec<String> = i.initial.iter().map(|(k, v)| format!("{}={}", key(*k), val(*k, *v))).collect();
        let ops: Vec<String> = i
            .ops
            .iter()
            .map(|o| match o {
                Op::Set(k, v) | Op::SetNamed(k, v) | Op::ReplaceMut(k, v) => format!("set {}={:?}", key(*k), val(*k, *v)),
                Op::Remove(k) | Op::RemoveNamed(k) => format!("remove {}", key(*k)),
                Op::Add(t) => format!("class+ {}", tok(*t)),
                Op::Del(t) => format!("class- {}", tok(*t)),
                Op::Toggle(t) => format!("class~ {}", tok(*t)),
                Op::Replace(t, u) => format!("class {}->{}", tok(*t), tok(*u)),
                o => format!("{o:?}"),
            })
            .collect();
        format!("<rect {}> then {}", a.join(" "), ops.join("; "))
    }
}

fn run<'i>(e: &Element<'i, '_>, mut m: Vec<Entry>, input: &Input, cx: &mut Cx) -> Check {
    let mut kept = e.class_list();
    let mut changes = 0;
    compare(e, &m, "parsing")?;
    for (n, op) in input.ops.iter().enumerate() {
        let before = m.clone();
        let mut ret: Option<(bool, bool)> = None;
        match op {
            Op::Set(k, v) | Op::SetNamed(k, v) => {
                cx.label_if(m.iter().any(|x| x.0 == key(*k)), "overwrites");
                cx.label_if(
                    m.iter().any(|x| x.0 != key(*k) && x.0.rsplit(':').next() == key(*k).rsplit(':').next()),
                    "prefixed twin",
                );
                let a = Attr::new(attr_id(key(*k)), val(*k, *v));
                if let Op::Set(..) = op {
                    e.set_attribute(a);
                } else {
                    let old = e.attributes().set_named_item(a);
                    ret = Some((old.is_some(), before.iter().any(|x| x.0 == key(*k))));
                }
                set(&mut m, key(*k), val(*k, *v));
            }
            Op::ReplaceMut(k, v) => {
                let a = e.attributes();
                let found = if let Some(mut r) = a.get_named_item_mut(&attr_id(key(*k))) {
                    *r = Attr::new(attr_id(key(*k)), val(*k, *v));
                    true
                } else {
                    false
                };
                if let Some(x) = m.iter_mut().find(|x| x.0 == key(*k)) {
                    x.1 = val(*k, *v).into();
                }
                ret = Some((found, before.iter().any(|x| x.0 == key(*k))));
            }
            Op::Remove(k) | Op::RemoveNamed(k) => {
                let had = m.iter().any(|x| x.0 == key(*k));
                cx.label_if(had, "removes present");
                let r = if let Op::Remove(_) = op {
                    e.remove_attribute(&attr_id(key(*k)))
                } else {
                    e.attributes().remove_named_item(&attr_id(key(*k)))
                };
                // An emptied class attribute may be present or absent.
                if key(*k) != "class" || tokens(&m).len() > 0 {
                    ret = Some((r.is_some(), had));
                }
                m.retain(|x| x.0 != key(*k));
            }
            Op::Retain(bits) => {
                let keep = |name: &str| bits >> (ATTRS.iter().position(|a| a.0 == name).unwrap_or(0) % 20) & 1 == 1;
                e.attributes().retain(|a| {
                    let n = match a.prefix().value() {
                        Some(p) => format!("{p}:{}", a.local_name()),
                        None => a.local_name().to_string(),
                    };
                    keep(&n)
                });
                m.retain(|x| keep(&x.0));
            }
            Op::Sort(order, front) => {
                cx.label_if(m.len() >= 3, "sort of 3+");
                let mut o: Vec<String> = vec![];
                for i in order {
                    let n = ORDER[*i as usize % ORDER.len()].to_string();
                    if !o.contains(&n) {
                        o.push(n);
                    }
                }
                e.attributes().sort(&o, *front);
                m.sort_by_key(|(n, _)| {
                    let (p, l) = match n.split_once(':') {
                        Some((p, l)) => (Some(p.to_string()), l.to_string()),
                        None => (None, n.clone()),
                    };
                    let group = if *front && p.as_deref() == Some("xmlns") {
                        0
                    } else if p.is_some() {
                        1
                    } else {
                        2
                    };
                    let part = l.split('-').next().unwrap().to_string();
                    let at = o.iter().position(|x| *x == part).unwrap_or(usize::MAX);
                    (group, at, p, l)
                });
            }
            Op::SetFrom(list) => {
                // build the collection on a throw-away vector
                let v = std::cell::RefCell::new(vec![]);
                let at = oxvg_ast::attribute::Attributes(&v);
                let mut mm = vec![];
                for (k, x) in list {
                    at.set_named_item(Attr::new(attr_id(key(*k)), val(*k, *x)));
                    set(&mut mm, key(*k), val(*k, *x));
                }
                e.set_attributes(&at);
                m = mm;
            }
            _ => {
                let mut fresh = e.class_list();
                let l = if input.keep_list { &mut kept } else { &mut fresh };
                let mut t = tokens(&m);
                cx.label_if(t.iter().enumerate().any(|(i, x)| t[..i].contains(x)), "class listed twice");
                match op {
                    Op::Add(x) => {
                        l.add(Atom::from(tok(*x)));
                        if !t.iter().any(|y| y == tok(*x)) {
                            t.push(tok(*x).into());
                        }
                    }
                    Op::Del(x) => {
                        l.remove(tok(*x));
                        t.retain(|y| y != tok(*x));
                    }
                    Op::Toggle(x) => {
                        let r = l.toggle(Atom::from(tok(*x)));
                        let had = t.iter().any(|y| y == tok(*x));
                        ret = Some((r, !had));
                        if had {
                            t.retain(|y| y != tok(*x));
                        } else {
                            t.push(tok(*x).into());
                        }
                    }
                    Op::Replace(x, y) => {
                        cx.label("class replace");
                        let r = l.replace(tok(*x), Atom::from(tok(*y)));
                        let had = t.iter().any(|z| z == tok(*x));
                        ret = Some((r, had));
                        if had {
                            cx.label_if(t.iter().any(|z| z == tok(*y)), "replace by a present token");
                            // first of either becomes the new token, others go
                            let mut done = false;
                            t = t
                                .into_iter()
                                .filter_map(|z| {
                                    if z == tok(*x) || z == tok(*y) {
                                        if done {
                                            return None;
                                        }
                                        done = true;
                                        return Some(tok(*y).to_string());
                                    }
                                    Some(z)
                                })
                                .collect();
                        }
                    }
                    Op::RetainTokens(bits) => {
                        let keep = |z: &str| bits >> TOKENS.iter().position(|q| *q == z).unwrap() & 1 == 1;
                        l.retain(|c| keep(&c.0));
                        t.retain(|z| keep(z));
                    }
                    _ => unreachable!(),
                }
                set_tokens(&mut m, &t);
                // lookups of the class list
                let want = tokens(&m);
                let mut seen = vec![];
                l.for_each(|c| seen.push(c.0.to_string()));
                if seen != want {
                    return fail("class list iteration", format!("edit {n} {op:?}: class list iterates {seen:?}, expected {want:?}"));
                }
                if l.length() != want.len() || l.value() != want.join(" ") || l.keys().count() != want.len() {
                    return fail("class list length", format!("edit {n} {op:?}: length {} value {:?}, expected {want:?}", l.length(), l.value()));
                }
                for x in TOKENS {
                    if l.contains(x) != want.iter().any(|w| w == x) || e.has_class(x) != want.iter().any(|w| w == x) {
                        return fail("class list contains", format!("edit {n} {op:?}: contains({x:?}) = {}, tokens {want:?}", l.contains(x)));
                    }
                }
                for i in 0..=want.len() {
                    let got = l.item(i).map(|c| c.0.to_string());
                    if got.as_ref() != want.get(i) {
                        return fail("class list item", format!("edit {n} {op:?}: item({i}) = {got:?}, tokens {want:?}"));
                    }
                }
            }
        }
        if let Some((got, want)) = ret {
            if got != want {
                return fail("return value", format!("edit {n} {op:?} returned {got}, expected {want}; attributes before {before:?}"));
            }
        }
        if m != before {
            changes += 1;
        }
        compare(e, &m, &format!("edit {n} {op:?} on {before:?}"))?;
        // an emptied class attribute may stay or go; follow the implementation
        if !observed(e).iter().any(|x| x.0 == "class") {
            m.retain(|x| !(x.0 == "class" && x.1.is_empty()));
        }
    }
    if changes >= 4 {
        cx.nontrivial(serde_json::to_string(input).unwrap());
    }
    Ok(())
}

fn compare(e: &Element, m: &[Entry], what: &str) -> Check {
    let got = drop_empty_class(&observed(e));
    let want = drop_empty_class(m);
    if got != want {
        return fail("iteration", format!("after {what}: attributes are {got:?}, expected {want:?}"));
    }
    let a = e.attributes();
    if a.len() != observed(e).len() || a.is_empty() != observed(e).is_empty() || e.has_attributes() == a.is_empty() {
        return fail("length", format!("after {what}: len {} for {want:?}", a.len()));
    }
    for (k, _) in ATTRS {
        let w = want.iter().find(|x| x.0 == *k).map(|x| x.1.clone());
        if *k == "class" && w.is_none() {
            continue;
        }
        let id = attr_id(k);
        let s = |r: Option<std::cell::Ref<Attr>>| r.map(|r| r.to_value_string(PrinterOptions::default()).unwrap());
        let by_name = s(e.get_attribute(&id));
        let (p, l) = match k.split_once(':') {
            Some((p, l)) => (Some(p), l),
            None => (None, *k),
        };
        if by_name != w || e.has_attribute(&id) != w.is_some() || s(a.get_named_item(&id)) != w {
            return fail("lookup by name", format!("after {what}: lookup of {k} gives {by_name:?}, expected {w:?}"));
        }
        let got = a.get_named_item_mut(&id).map(|r| r.to_value_string(PrinterOptions::default()).unwrap());
        if got != w {
            return fail("mutable lookup", format!("after {what}: mutable lookup of {k} gives {got:?}, expected {w:?}"));
        }
        if p.is_none() {
            let got = s(e.get_attribute_local(&Atom::from(l)));
            if got != w {
                return fail("local lookup", format!("after {what}: local lookup of {k} gives {got:?}, expected {w:?}"));
            }
        } else {
            let ns = DECLS.iter().find(|d| Some(d.0) == p).unwrap().1;
            let got = s(e.get_attribute_ns(&NS::new(Atom::from(ns)), &Atom::from(l)));
            if got != w {
                return fail("namespace lookup", format!("after {what}: namespace lookup of {k} gives {got:?}, expected {w:?}"));
            }
        }
    }
    for i in 0..=a.len() {
        let got = a.item(i).map(|r| r.to_value_string(PrinterOptions::default()).unwrap());
        if got.is_some() != (i < a.len()) {
            return fail("item", format!("after {what}: item({i}) is {got:?} of {}", a.len()));
        }
    }
    let text = e.serialize().map_err(|x| Fail::new("serialise", format!("after {what}: {x}")))?;
    let mut doc = String::from("<rect");
    for (k, v) in &drop_empty_class(m) {
        doc.push_str(&format!(" {k}=\"{v}\""));
    }
    doc.push_str("/>");
    if text.trim().replace(" class=\"\"", "") != doc {
        return fail("written", format!("after {what}: written as {text}, expected {doc}"));
    }
    Ok(())
}

fn main() {
    pbt::engine::main(C09);
}
