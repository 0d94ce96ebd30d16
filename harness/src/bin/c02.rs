//! C02: the optimiser is total, repeatable and emits well-formed documents.
use pbt::engine::*;
use pbt::{confgen, jobs, odd};
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value, json};

#[derive(Clone, Serialize, Deserialize)]
struct Input {
    svg: String,
    config: Value,
}

struct C02;

fn parse(t: &str) -> Result<roxmltree::Document<'_>, String> {
    roxmltree::Document::parse_with_options(t, roxmltree::ParsingOptions { allow_dtd: true, ..Default::default() }).map_err(|e| e.to_string())
}

impl Prop for C02 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> String {
        "the document is accepted and optimising it changed it".into()
    }
    fn cases(&self) -> (u64, u64) {
        (120_000, 2_500_000)
    }
    fn generate(&self, s: &mut Src, cx: &mut Cx) -> Input {
        let names = confgen::names();
        let config = match s.weighted(&[3, 4, 4]) {
            0 => json!("default"),
            1 => {
                let n = *s.pick(&names);
                let mut m = Map::new();
                m.insert(n.into(), confgen::job(s, n));
                Value::Object(m)
            }
            _ => {
                let mut m = Map::new();
                let k = 1 + s.n(6);
                for n in &names {
                    if s.chance(k, 8) {
                        m.insert(n.to_string(), confgen::job(s, n));
                    }
                }
                // the namespace that reused paths need is only written on defs (known finding)
                if m.contains_key("reusePaths") && m.remove("convertOneStopGradients").is_some() {
                    cx.exclude("reusePaths after the xlink namespace was removed");
                }
                Value::Object(m)
            }
        };
        Input { svg: odd::document(s), config }
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Check {
        if let Err(e) = parse(&i.svg) {
            return fail("generator", format!("the document is not well-formed: {e}"));
        }
        let job = |c: &Value| if c == "default" { Ok(oxvg_optimiser::Jobs::default()) } else { jobs::config(c.clone()) };
        let j = job(&i.config).map_err(|e| Fail::new("config", format!("rejected: {e}")))?;
        let out = match guarded(|| Ok(jobs::run(&i.svg, &j)))? {
            Ok(o) => o,
            // documented: a failing check or a precision above the limit ends the run
            Err(e) if e.starts_with("optimise: ") => {
                cx.label(format!("error: {}", &e[10..].split(['`', ':']).next().unwrap_or("").chars().take(60).collect::<String>()));
                return Ok(());
            }
            Err(e) => return fail(format!("error:{}", e.split(':').next().unwrap_or("")), e),
        };
        // asked to remove the root element
        if !out.contains("<svg") && i.config.get("removeElementsByAttr").is_some() {
            return Ok(());
        }
        let d = match parse(&out) {
            Ok(d) => d,
            Err(e) => return fail(format!("malformed:{}", culprit(i, &job)), format!("{e}\n  output: {out}")),
        };
        if d.root_element().tag_name().name() != "svg" {
            return fail(format!("root:{}", culprit(i, &job)), format!("the root is {:?}\n  output: {out}", d.root_element().tag_name()));
        }
        let none = jobs::config(json!({})).unwrap();
        if let Err(e) = guarded(|| Ok(jobs::run(&out, &none)))? {
            return fail("reparse", format!("{e}\n  output: {out}"));
        }
        for _ in 0..2 {
            let again = guarded(|| Ok(jobs::run(&i.svg, &job(&i.config).unwrap())))?.unwrap_or_default();
            if again != out {
                return fail("repeat", format!("first:  {out}\n  second: {again}"));
            }
        }
        if out != i.svg {
            cx.nontrivial((&i.svg, i.config.to_string()));
        }
        cx.label_if(i.svg.contains("<?"), "processing instruction");
        cx.label_if(i.svg.contains("<h:") || i.svg.contains("<x:"), "foreign element");
        cx.label_if(!i.svg.is_ascii(), "non-ASCII");
        cx.label_if(i.svg.contains("<style"), "stylesheet");
        if let Value::Object(m) = &i.config {
            cx.label_if(m.len() > 1, "several jobs");
            if m.len() == 1 {
                cx.label(format!("alone {}", m.keys().next().unwrap()));
            }
        } else {
            cx.label("default preset");
        }
        Ok(())
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![("default preset", 100), ("several jobs", 100), ("processing instruction", 50), ("foreign element", 30), ("non-ASCII", 50), ("stylesheet", 100)]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["documents nest at most about 70 elements deep; errors a job documents (failing prechecks, precision above the limit) end the run and are not judged; a configuration that removes the root element is not judged".into()]
    }
    fn render(&self, i: &Input) -> String {
        format!("{} {}", i.config, i.svg)
    }
}

/// The first job after which the output is malformed.
fn culprit(i: &Input, job: &dyn Fn(&Value) -> Result<oxvg_optimiser::Jobs, String>) -> String {
    let Value::Object(m) = &i.config else { return "default".into() };
    for (k, v) in m {
        let mut one = Map::new();
        one.insert(k.clone(), v.clone());
        let bad = job(&Value::Object(one)).ok().and_then(|j| jobs::run(&i.svg, &j).ok()).is_some_and(|o| !parse(&o).is_ok_and(|d| d.root_element().tag_name().name() == "svg"));
        if bad {
            return k.clone();
        }
    }
    let none = jobs::run(&i.svg, &jobs::config(json!({})).unwrap());
    if none.is_ok_and(|o| parse(&o).is_err()) { "none".into() } else { "combination".into() }
}

fn main() {
    pbt::engine::main(C02)
}
