//! C11: computed style follows the CSS cascade.
use oxvg_ast::element::Element;
use oxvg_ast::parse::roxmltree::parse;
use oxvg_ast::style::{self, ComputedStyles};
use oxvg_collections::attribute::{AttrId, AttributeGroup};
use oxvg_collections::name::Prefix;
use oxvg_serialize::{PrinterOptions, ToValue as _};
use pbt::engine::*;
use pbt::{dom, stylegen};
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize)]
struct Input {
    svg: String,
}

struct C11;

#[derive(Debug, PartialEq, Clone)]
struct Want {
    /// Value as written.
    value: String,
    dynamic: bool,
    /// The declaration that wins says `inherit`.
    explicit: bool,
    source: &'static str,
}

/// The winning declaration for a property on an element, with inheritance for inherited properties.
fn expected(d: &dom::Doc, e: usize, prop: &str) -> Option<Want> {
    let mut at = Some(e);
    let mut explicit = false;
    let mut first = true;
    while let Some(i) = at {
        let all = dom::weighted(d, i, &d.all_rules);
        if let Some((rule, x)) = all.iter().rev().find(|(_, x)| x.name == prop) {
            let dynamic = rule.is_some_and(|r| !r.conditions.is_empty());
            if x.value == "inherit" {
                explicit = true;
                // without looking further, the answer "inherit" is right as well
                let rest = d.els[i].parent.and_then(|p| expected_inherit(d, p, prop));
                return Some(Want { value: rest.unwrap_or_default(), dynamic, explicit, source: "inherit" });
            }
            let source = match rule {
                Some(r) if !r.conditions.is_empty() => "condition",
                Some(_) if x.important => "important rule",
                Some(_) => "rule",
                None if x.important => "important inline",
                None => "attribute or inline",
            };
            return Some(Want { value: x.value.clone(), dynamic, explicit, source: if first { source } else { "inherited" } });
        }
        if !dom::INHERITED.contains(&prop) {
            return None;
        }
        first = false;
        at = d.els[i].parent;
    }
    let _ = explicit;
    None
}

fn expected_inherit(d: &dom::Doc, e: usize, prop: &str) -> Option<String> {
    expected(d, e, prop).map(|w| w.value)
}

fn by_number<'i, 'a>(root: Element<'i, 'a>) -> Vec<(usize, Element<'i, 'a>)> {
    root.breadth_first()
        .filter_map(|e| {
            let n = e.attributes().into_iter().find(|a| &**a.local_name() == "data-n").and_then(|a| a.to_value_string(PrinterOptions::default()).ok()?.parse().ok());
            n.map(|n| (n, e))
        })
        .collect()
}

impl Prop for C11 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> String {
        "some element has a property set by two or more declarations".into()
    }
    fn cases(&self) -> (u64, u64) {
        (80_000, 2_000_000)
    }
    fn generate(&self, s: &mut Src, _: &mut Cx) -> Input {
        let o = stylegen::Opt { conditions: s.chance(1, 2), structural: s.chance(1, 2), important: s.chance(1, 2), conflict: true, nested: true, groups: false };
        Input { svg: stylegen::Gen::new(s, o).document(s) }
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Check {
        let d = dom::parse(&i.svg).map_err(|e| Fail::new("generator", e))?;
        let numbers: Vec<Option<usize>> = d.els.iter().map(|e| e.get("data-n").and_then(|n| n.parse().ok())).collect();
        let r = guarded(|| {
            parse(&i.svg, |node, _| -> Result<Vec<(usize, &'static str, Option<(String, bool)>)>, Fail> {
                let root = Element::new(node).ok_or_else(|| Fail::new("root", "no document".to_string()))?;
                let sheets: Vec<_> = style::root(root).collect();
                let mut out = vec![];
                for (n, e) in by_number(root) {
                    let cs = ComputedStyles::default().with_all(e, &sheets).map_err(|e| Fail::new("error", e.to_string()))?;
                    for (p, _) in stylegen::PROPS {
                        let id: AttrId = AttributeGroup::Presentation.parse_attr_id(&Prefix::SVG, (*p).into());
                        let got = cs.get(&id).map(|(a, m)| (a.to_value_string(PrinterOptions::default()).unwrap_or("<error>".into()), m.is_dynamic()));
                        out.push((n, *p, got));
                    }
                }
                Ok(out)
            })
            .map_err(|e| Fail::new("parse", e.to_string()))
        })??;
        if r.len() != stylegen::PROPS.len() * numbers.iter().flatten().count() {
            return fail("elements", format!("{} results", r.len()));
        }
        let mut competing = false;
        for (n, p, got) in r {
            let e = numbers.iter().position(|x| *x == Some(n)).unwrap();
            let want = expected(&d, e, p);
            competing |= dom::weighted(&d, e, &d.all_rules).iter().filter(|(_, x)| x.name == p).count() > 1;
            if let Some(w) = &want {
                cx.label(w.source);
            }
            let ok = match (&want, &got) {
                (None, None) => true,
                // nothing above it sets the property
                (Some(w), None) => w.explicit && w.value.is_empty(),
                (Some(w), Some((v, dynamic))) => {
                    let same = stylegen::norm(v) == stylegen::norm(&w.value);
                    (same || w.explicit && v == "inherit") && (*dynamic == w.dynamic || w.explicit)
                }
                (None, Some(_)) => false,
            };
            if !ok {
                let src = want.as_ref().map_or("unset", |w| w.source);
                return fail(format!("cascade:{src}"), format!("{p} of element {n} is {got:?}; the cascade gives {want:?}"));
            }
        }
        if competing {
            cx.nontrivial(&i.svg);
        }
        Ok(())
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![("rule", 300), ("important rule", 50), ("important inline", 20), ("condition", 50), ("inherited", 300), ("attribute or inline", 500), ("inherit", 100)]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "values are valid for their property; shorthands and style sheets with pseudo-classes the library does not know (an error is returned for them) are left out".into(),
            "for an explicit `inherit` both the keyword and the inherited value are accepted".into(),
        ]
    }
    fn render(&self, i: &Input) -> String {
        i.svg.clone()
    }
}

fn main() {
    pbt::engine::main(C11)
}
