//! C19: lint problems point at the source text they are about.
use pbt::engine::{fail, guarded, Check, Cx, Fail, Prop, Src};
use pbt::lintgen::{self, Input, RULES};

struct C19;

impl Prop for C19 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> String {
        "a problem is reported after a line break, a character of several bytes or text that looks like it".into()
    }
    fn cases(&self) -> (u64, u64) {
        (150_000, 4_000_000)
    }
    fn generate(&self, s: &mut Src, _cx: &mut Cx) -> Input {
        lintgen::input(s)
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Check {
        let src = &i.source;
        let got = guarded(|| lintgen::lint(i).map_err(|e| Fail::new("cannot be read", e)))?;
        let mut places: Vec<(String, usize, usize)> = vec![];
        for g in &got {
            let class = g.text.split('`').step_by(2).collect::<Vec<_>>().join("`");
            let class = class.split('<').next().unwrap().to_string();
            let Some(r) = &g.range else { return fail(format!("no location: {class}"), g.text.clone()) };
            if r.start > r.end || r.end > src.len() || !src.is_char_boundary(r.start) || !src.is_char_boundary(r.end) {
                return fail(format!("location outside the source: {class}"), format!("{} at {r:?}", g.text));
            }
            let want: Vec<_> = i.problems.iter().filter(|p| p.text == g.text).collect();
            if want.is_empty() {
                // Whether it should be reported at all is another property.
                continue;
            }
            if !want.iter().any(|p| p.start == r.start && p.end == r.end) {
                let reference = want.iter().any(|p| p.rule == 7 && src[p.start..p.end].contains('&'));
                let sig = if reference { "location of the rest of a path that holds a reference".to_string() } else { format!("location: {class}") };
                return fail(sig, format!("{} at {r:?} {:?} instead of {:?}", g.text, &src[r.clone()], want.iter().map(|p| (p.start, p.end, &src[p.start..p.end])).collect::<Vec<_>>()));
            }
            places.push((g.text.clone(), r.start, r.end));
        }
        places.sort();
        if let Some(p) = places.windows(2).find(|p| p[0] == p[1]) {
            return fail("two problems at one place", format!("{:?}", p[0]));
        }
        // The report shows line and column, and the line itself.
        let mut out = String::new();
        guarded(|| match lintgen::rules(&i.rules).lint_to(&mut out, src) {
            Ok(()) | Err(oxvg_lint::error::LintingError::Reported { .. }) => Ok(()),
            Err(e) => fail("report cannot be written", e.to_string()),
        })?;
        let mut shown: Vec<(String, String, String, usize)> = vec![];
        let mut head = String::new();
        let mut at = String::new();
        let mut line = String::new();
        for l in out.split('\n') {
            if let Some(h) = l.strip_prefix(" \u{1b}[31m× ").or_else(|| l.strip_prefix(" \u{1b}[33m⚠ ")) {
                head = h.trim_end_matches("\u{1b}[0m").to_string();
            } else if let Some((_, p)) = l.split_once("╭─[\u{1b}[34m\u{1b}[0m:") {
                at = p.trim_end_matches(']').to_string();
            } else if let Some((_, m)) = l.split_once(" · ") {
                if l.trim_start().starts_with('·') {
                    shown.push((head.clone(), at.clone(), line.clone(), m.matches('─').count()));
                }
            } else if let Some((_, t)) = l.split_once(" │ ") {
                line = t.to_string();
            }
        }
        let mut want = vec![];
        for g in &got {
            let r = g.range.clone().unwrap();
            let (st, e) = if r.is_empty() {
                let st = r.start + 1;
                let e = src[st..].find(|c: char| c.is_whitespace() || c == '>' || c == '/').map_or(src.len(), |e| st + e);
                (st, e)
            } else {
                (r.start, r.end)
            };
            let ls = src[..st].rfind('\n').map_or(0, |p| p + 1);
            let le = src[ls..].find('\n').map_or(src.len(), |p| ls + p);
            let ln = src[..st].matches('\n').count() + 1;
            let col = src[ls..st].chars().count();
            want.push((g.text.clone(), format!("{ln}:{col}"), src[ls..le].to_string(), if e <= le { src[st..e].chars().count() } else { 0 }));
        }
        if shown.len() != want.len() {
            return fail("report has another number of locations", format!("{} instead of {}\n{out}", shown.len(), want.len()));
        }
        // Problems can come in another order.
        want.sort();
        shown.sort();
        for (w, s) in want.iter().zip(&shown) {
            if w.0 != s.0 {
                return fail("report has other problems", format!("{w:?} {s:?}"));
            }
            if w.1 != s.1 {
                return fail("line and column", format!("{}: {} instead of {}", w.0, s.1, w.1));
            }
            if w.2 != s.2 {
                return fail("line shown", format!("{}: {:?} instead of {:?}", w.0, s.2, w.2));
            }
            if w.3 > 0 && w.3 != s.3 {
                return fail("length marked", format!("{}: {} instead of {}", w.0, s.3, w.3));
            }
        }
        let mut any = false;
        for g in &got {
            let st = g.range.as_ref().unwrap().start;
            cx.label_if(!src[..st].is_ascii(), "after characters of several bytes");
            cx.label_if(src[..st].contains("foo=\"bar\""), "after text that looks like a problem");
            cx.label_if(src[..st].contains('\n'), "after a line break");
            any |= !src[..st].is_ascii() || src[..st].contains('\n') || src[..st].contains("foo=\"bar\"");
        }
        for p in &i.problems {
            if i.rules[p.rule] > 0 {
                cx.label(RULES[p.rule]);
            }
        }
        if any {
            cx.nontrivial((&i.source, &i.rules));
        }
        Ok(())
    }
    fn render(&self, i: &Input) -> String {
        format!("{:?}\n{}", i.rules, i.source)
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        let mut r: Vec<_> = RULES.iter().map(|r| (*r, 50)).collect();
        r.extend([("after characters of several bytes", 200), ("after text that looks like a problem", 100), ("after a line break", 300)]);
        r
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["columns count characters from 0, as in the report's marks; problems of whole elements and of declarations are located at the start of the element's tag and shown at its name".into()]
    }
}

fn main() {
    pbt::engine::main(C19)
}
