use pbt::actgen::{self, Input};
use pbt::engine::*;

struct C16;

impl Prop for C16 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> String {
        "an action changed the document".into()
    }
    fn cases(&self) -> (u64, u64) {
        (200_000, 4_000_000)
    }
    fn generate(&self, s: &mut Src, cx: &mut Cx) -> Input {
        actgen::input(s, cx, false)
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Check {
        let (changed, _) = guarded(|| {
            actgen::run(i, cx).map_err(|f| if i.spaced && i.acts.iter().any(|a| matches!(a, actgen::Act::Reload)) { Fail::new(format!("white space between elements: {}", f.sig), f.msg) } else { f })
        })?;
        if changed {
            cx.nontrivial(serde_json::to_string(i).unwrap());
        }
        Ok(())
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![("something selected", 300), ("attribute set", 40), ("attribute the element does not take", 20), ("class taken away", 10), ("element inserted", 20), ("insertion the parent does not take", 20), ("paths merged", 15), ("several paths merged", 5), ("selected again", 15), ("style set", 40)]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "whether an element takes an attribute or a child is only judged where SVG 1.1 and SVG 2 agree; a session that gets to another pair is followed up to there".into(),
            "regions of merged paths are compared at the centres of the cells of the unit grid all paths are drawn on, under the fill rule in effect".into(),
            "transforms are compared as matrices within 1e-3 of their size; style attributes by the declarations in effect; classes as lists".into(),
            "an insertion that no selected element takes leaves the selection as it was, as the action then has no effect".into(),
        ]
    }
    fn render(&self, i: &Input) -> String {
        format!("{}\n{}", actgen::print(i), i.acts.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join("\n"))
    }
}

fn main() {
    pbt::engine::main(C16)
}
