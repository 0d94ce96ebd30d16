use pbt::actgen::{self, Input};
use pbt::engine::*;

struct C17;

impl Prop for C17 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> String {
        "the document was read again with at least two recorded actions".into()
    }
    fn cases(&self) -> (u64, u64) {
        (200_000, 4_000_000)
    }
    fn generate(&self, s: &mut Src, cx: &mut Cx) -> Input {
        actgen::input(s, cx, true)
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Check {
        let (_, again) = guarded(|| {
            actgen::run(i, cx).map_err(|f| if i.spaced && i.acts.iter().any(|a| matches!(a, actgen::Act::Reload)) { Fail::new(format!("white space between elements: {}", f.sig), f.msg) } else { f })
        })?;
        if again {
            cx.nontrivial(serde_json::to_string(i).unwrap());
        }
        Ok(())
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![("read again", 100), ("read again with a selection", 50), ("read after forgetting", 1), ("paths merged", 10), ("element inserted", 10)]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "whether an element takes an attribute or a child is only judged where SVG 1.1 and SVG 2 agree; a session that gets to another pair is followed up to there".into(),
            "regions of merged paths are compared at the centres of the cells of the unit grid all paths are drawn on, under the fill rule in effect".into(),
            "transforms are compared as matrices within 1e-3 of their size; style attributes by the declarations in effect; classes as lists".into(),
            "line breaks in arguments are not generated: the writer prints them as spaces".into(),
            "forgetting takes the state out of the document; the running session keeps its history, as the existing tests require, and embeds it again with the next selection".into(),
        ]
    }
    fn render(&self, i: &Input) -> String {
        format!("{}\n{}", actgen::print(i), i.acts.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join("\n"))
    }
}

fn main() {
    pbt::engine::main(C17)
}
