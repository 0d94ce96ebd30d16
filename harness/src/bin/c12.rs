//! C12: rewriting style sheets and shared attributes leaves computed style unchanged.
use pbt::engine::*;
use pbt::{confgen, dom, jobs, stylegen};
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value};
use std::collections::BTreeMap;

#[derive(Clone, Serialize, Deserialize)]
struct Input {
    svg: String,
    config: Value,
}

struct C12;

const JOBS: &[&str] = &["mergeStyles", "inlineStyles", "minifyStyles", "convertStyleToAttrs", "moveElemsAttrsToGroup", "moveGroupAttrsToElems", "collapseGroups", "cleanupAttrs", "removeNonInheritableGroupAttrs"];
/// Properties that act on the element and all of its contents.
const GROUPING: &[&str] = &["opacity", "clip-path", "mask", "filter"];

/// Which of the conditions used here holds is decided by the bits of `env`.
fn holds(c: &str, env: u32) -> Result<bool, String> {
    let c: String = c.chars().filter(|c| !c.is_whitespace()).collect();
    let i = stylegen::CONDITIONS.iter().position(|x| x.chars().filter(|c| !c.is_whitespace()).eq(c.chars())).ok_or(format!("unexpected condition {c}"))?;
    Ok(env >> i & 1 == 1)
}

type Picture = BTreeMap<usize, BTreeMap<String, String>>;

/// Style of every painted element, by its number.
fn picture(d: &dom::Doc, env: u32) -> Result<Picture, String> {
    let mut rules = vec![];
    for r in &d.all_rules {
        let mut on = true;
        for c in &r.conditions {
            on &= holds(c, env)?;
        }
        if on {
            rules.push(r.clone());
        }
    }
    let mut styles: Vec<dom::Style> = vec![];
    let mut out = Picture::new();
    for (i, e) in d.els.iter().enumerate() {
        let parent = e.parent.map(|p| styles[p].clone()).unwrap_or_default();
        let st = dom::style_of(d, i, &parent, &rules);
        if matches!(e.name.as_str(), "path" | "rect" | "text" | "tspan") {
            let n: usize = e.get("data-n").and_then(|n| n.parse().ok()).ok_or("an element lost its number")?;
            let mut m: BTreeMap<String, String> = BTreeMap::new();
            for (k, v) in &st {
                if stylegen::PROPS.iter().any(|p| p.0 == k) && !GROUPING.contains(&k.as_str()) && k != "display" && !k.starts_with("stop-") && k != "overflow" {
                    m.insert(k.clone(), stylegen::norm(v));
                }
            }
            // effects of the element and the groups around it
            let mut chain: Vec<&dom::Style> = vec![&st];
            let mut at = e.parent;
            while let Some(p) = at {
                chain.push(&styles[p]);
                at = d.els[p].parent;
            }
            for g in GROUPING {
                let vs: Vec<String> = chain.iter().filter_map(|s| s.get(*g)).map(|v| stylegen::norm(v)).filter(|v| v != "none" && v != "1.00000").collect();
                if !vs.is_empty() {
                    m.insert(g.to_string(), vs.join(" then "));
                }
            }
            let mut at = Some(i);
            let mut ts = vec![];
            while let Some(p) = at {
                ts.extend(d.els[p].get("transform").map(|t| t.replace(' ', ",").replace("),", ")")));
                at = d.els[p].parent;
            }
            if !ts.is_empty() {
                ts.reverse();
                m.insert("transform".into(), ts.concat());
            }
            if chain.iter().any(|s| s.get("display").is_some_and(|v| v.trim() == "none")) {
                m.insert("display".into(), "none".into());
            }
            out.insert(n, m);
        }
        styles.push(st);
    }
    Ok(out)
}

impl Prop for C12 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> String {
        "the jobs changed the document and a painted element has a style".into()
    }
    fn cases(&self) -> (u64, u64) {
        (150_000, 3_000_000)
    }
    fn generate(&self, s: &mut Src, cx: &mut Cx) -> Input {
        let o = stylegen::Opt { conditions: s.chance(1, 2), structural: s.chance(1, 3), important: s.chance(1, 2), conflict: s.chance(1, 2), nested: false, groups: s.chance(1, 2) };
        let mut names: Vec<&str> = match s.weighted(&[5, 4]) {
            0 => vec![*s.pick(JOBS)],
            _ => JOBS.iter().copied().filter(|_| s.chance(1, 2)).collect(),
        };
        let mut g = stylegen::Gen::new(s, o);
        let svg = g.document(s);
        restrict(&mut names, &g, &svg, cx);
        let mut m = Map::new();
        for n in names {
            let mut c = confgen::job(s, n);
            if n == "inlineStyles" {
                // these ask for rules to be inlined although they are conditional
                c.as_object_mut().unwrap().insert("useMqs".into(), serde_json::json!([""]));
                c.as_object_mut().unwrap().remove("usePseudos");
            }
            m.insert(n.into(), c);
        }
        Input { svg, config: Value::Object(m) }
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Check {
        let j = jobs::config(i.config.clone()).map_err(|e| Fail::new("config", e))?;
        let out = guarded(|| Ok(jobs::run(&i.svg, &j)))?.map_err(|e| Fail::new("error", e))?;
        let a = dom::parse(&i.svg).map_err(|e| Fail::new("generator", e))?;
        let b = dom::parse(&out).map_err(|e| Fail::new("malformed", format!("{e}\n  output: {out}")))?;
        let mut styled = false;
        for env in [0, 1, 2, 5, 8, 14] {
            let pa = picture(&a, env).map_err(|e| Fail::new("generator", e))?;
            let pb = picture(&b, env).map_err(|e| Fail::new("output", format!("{e}\n  output: {out}")))?;
            styled |= pa.values().any(|m| !m.is_empty());
            if pa != pb {
                let n = pa.keys().chain(pb.keys()).find(|n| pa.get(n) != pb.get(n)).unwrap();
                let names: Vec<&String> = i.config.as_object().map(|m| m.keys().collect()).unwrap_or_default();
                let sig = if names.len() == 1 { names[0].clone() } else { culprit(i) };
                return fail(format!("style:{sig}"), format!("element {n} had {:?}, has {:?} (conditions {env:04b})\n  output: {out}", pa.get(n), pb.get(n)));
            }
        }
        let plain = jobs::run(&i.svg, &oxvg_optimiser::Jobs::none()).unwrap_or_default();
        for n in i.config.as_object().map(|m| m.keys().cloned().collect::<Vec<_>>()).unwrap_or_default() {
            cx.label_if(out != plain, &n);
            cx.label_if(i.config.as_object().unwrap().len() == 1 && out != plain, &format!("{n} alone"));
        }
        if styled && out != i.svg {
            cx.nontrivial((&i.svg, i.config.to_string()));
        }
        Ok(())
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![("inlineStyles alone", 2), ("mergeStyles alone", 4), ("minifyStyles alone", 12), ("convertStyleToAttrs alone", 15), ("moveElemsAttrsToGroup alone", 1), ("moveGroupAttrsToElems alone", 2), ("collapseGroups alone", 2)]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["conditions of at-rules are taken as free: the style is compared under six assignments of them".into()]
    }
    fn render(&self, i: &Input) -> String {
        format!("{} {}", i.config, i.svg)
    }
}

/// Leaves out jobs that have a known finding on such a document.
fn restrict(names: &mut Vec<&str>, g: &stylegen::Gen, svg: &str, cx: &mut Cx) {
    let before = names.len();
    if svg.contains(":not(") || svg.contains('[') || g.o.conflict {
        names.retain(|n| *n != "inlineStyles");
    }
    if svg.contains("[fill]") {
        names.retain(|n| !matches!(*n, "convertStyleToAttrs" | "moveGroupAttrsToElems" | "collapseGroups"));
    }
    let class_on_group = svg.split("<g").skip(1).any(|p| p.split('>').next().unwrap_or_default().contains(" class="));
    if g.o.groups && svg.contains("<style") && class_on_group {
        names.retain(|n| *n != "collapseGroups");
    }
    if g.o.groups && (svg.contains(":inherit") || svg.contains("opacity=\"inherit\"") || svg.split("<style").skip(1).any(about_structure)) {
        names.retain(|n| *n != "collapseGroups");
    }
    if g.o.conflict && g.o.important {
        names.retain(|n| !matches!(*n, "minifyStyles" | "mergeStyles"));
    }
    if names.len() < before {
        cx.exclude("jobs with a known finding on such documents");
    }
}

/// Whether a rule looks at more than the element itself, or is about groups.
fn about_structure(sheet: &str) -> bool {
    let sheet = sheet.split("</style").next().unwrap_or_default();
    let sheet = &sheet[sheet.find('>').unwrap_or(0) + 1..];
    sheet.split('{').filter_map(|p| p.rsplit('}').next()).any(|sel| {
        let sel = sel.trim();
        !sel.starts_with('@') && (sel.contains([' ', '>', '+', '~', ':']) || sel.split(',').any(|p| p.starts_with('g') || p.starts_with('*')))
    })
}

fn culprit(i: &Input) -> String {
    for (k, v) in i.config.as_object().unwrap() {
        let mut one = Map::new();
        one.insert(k.clone(), v.clone());
        let one = Input { svg: i.svg.clone(), config: Value::Object(one) };
        if C12.check(&one, &mut Cx::default()).is_err() {
            return k.clone();
        }
    }
    "combination".into()
}

fn main() {
    pbt::engine::main(C12)
}
