//! C18: lint reports exactly the violations present, with the configured severity.
use pbt::engine::{fail, guarded, Check, Cx, Fail, Prop, Src};
use pbt::lintgen::{self, Input, RULES};

struct C18;

impl Prop for C18 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> String {
        "the document contains at least one problem of an enabled rule".into()
    }
    fn cases(&self) -> (u64, u64) {
        (150_000, 4_000_000)
    }
    fn generate(&self, s: &mut Src, _cx: &mut Cx) -> Input {
        lintgen::input(s)
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Check {
        let got = guarded(|| lintgen::lint(i).map_err(|e| Fail::new("cannot be read", e)))?;
        let mut want: Vec<(String, u8)> = i.problems.iter().filter(|p| i.rules[p.rule] > 0).map(|p| (p.text.clone(), i.rules[p.rule])).collect();
        let mut have: Vec<(String, u8)> = got.iter().map(|g| (g.text.clone(), g.severity)).collect();
        want.sort();
        have.sort();
        for p in &i.problems {
            cx.label(RULES[p.rule]);
        }
        cx.label_if(want.is_empty(), "nothing to report");
        if !want.is_empty() {
            cx.nontrivial((&i.source, &i.rules));
        }
        // Names of constructs do not tell which rule is at fault.
        let class = |t: &str| t.split('`').step_by(2).collect::<Vec<_>>().join("`").split('<').next().unwrap().to_string();
        if want != have {
            let mut h = have.clone();
            for w in &want {
                match h.iter().position(|x| x == w) {
                    Some(p) => {
                        h.remove(p);
                    }
                    None => match have.iter().find(|x| x.0 == w.0 && !want.contains(x)) {
                        Some(x) => return fail(format!("severity: {}", class(&w.0)), format!("{w:?} reported as {x:?}")),
                        None => return fail(format!("not reported: {}", class(&w.0)), w.0.clone()),
                    },
                }
            }
            return fail(format!("reported without reason: {}", class(&h[0].0)), h[0].0.clone());
        }
        let errors = want.iter().filter(|w| w.1 == 2).count();
        let warnings = want.len() - errors;
        let mut out = String::new();
        let totals = guarded(|| match lintgen::rules(&i.rules).lint_to(&mut out, &i.source) {
            Ok(()) => Ok((0, 0)),
            Err(oxvg_lint::error::LintingError::Reported { errors, warnings }) => Ok((errors, warnings)),
            Err(e) => fail("report cannot be written", e.to_string()),
        })?;
        if totals != (errors, warnings) {
            return fail("totals", format!("{totals:?} instead of {:?}", (errors, warnings)));
        }
        for (t, _) in &want {
            if !out.contains(t.as_str()) {
                return fail("report leaves a problem out", format!("{t}\n{out}"));
            }
        }
        let heads = out.matches("\u{1b}[31m× ").count() + out.matches("\u{1b}[33m⚠ ").count();
        if heads != want.len() {
            return fail("report has another number of problems", format!("{heads} instead of {}\n{out}", want.len()));
        }
        Ok(())
    }
    fn render(&self, i: &Input) -> String {
        format!("{:?}\n{}", i.rules, i.source)
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        RULES.iter().map(|r| (*r, 50)).collect()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["content models and attribute tables are those of SVG 1.1 and SVG 2 where these agree".into()]
    }
}

fn main() {
    pbt::engine::main(C18)
}
