//! C01: optimising does not change what a document paints.
use oxvg_optimiser::Jobs;
use pbt::engine::*;
use pbt::render::{self, Rgba, Scene};
use pbt::{docgen, dom, jobs};
use serde::{Deserialize, Serialize};

/// Around a judged point the source has one colour within this distance (viewport units).
const EPS: f64 = 0.25;
/// Where curves may be replaced by fitted arcs.
const EPS_CURVED: f64 = 0.75;
/// Per channel; covers 8-bit colours, rounded opacities and smooth gradients over EPS.
const TOL: f64 = 0.06;

#[derive(Clone, Serialize, Deserialize)]
struct Input {
    svg: String,
    /// "default", "safe" or names of jobs, with parameters that differ from the default.
    jobs: Vec<String>,
    salt: u64,
}

struct C01;

fn pipeline(names: &[String]) -> Result<Jobs, String> {
    match names.first().map(|s| s.as_str()) {
        Some("default") => Ok(Jobs::default()),
        Some("safe") => Ok(Jobs::safe()),
        _ => jobs::named(names),
    }
}

fn samples(sc: &Scene, salt: u64) -> Vec<(f64, f64)> {
    let mut s = Src::random(salt ^ 0x5eed);
    let (w, h) = sc.size;
    let mut out = vec![];
    for _ in 0..60 {
        out.push((s.int(0, 10_000) as f64 / 10_000.0 * w, s.int(0, 10_000) as f64 / 10_000.0 * h));
    }
    if !sc.points.is_empty() {
        for _ in 0..120 {
            let p = sc.points[s.us(sc.points.len())];
            let r = [0.5, 1.0, 2.0, 5.0, 12.0][s.us(5)];
            let a = s.int(0, 6283) as f64 / 1000.0;
            out.push((p.0 + r * a.cos(), p.1 + r * a.sin()));
        }
    }
    out.retain(|p| p.0 >= 0.0 && p.1 >= 0.0 && p.0 <= w && p.1 <= h);
    out
}

struct Diff {
    p: (f64, f64),
    a: Rgba,
    b: Rgba,
    what: String,
}

fn compare(a: &Scene, b: &Scene, salt: u64, eps: f64) -> Result<Option<Diff>, String> {
    if (a.size.0 - b.size.0).abs() > 0.01 || (a.size.1 - b.size.1).abs() > 0.01 {
        return Err(format!("the image is {:?} instead of {:?}", b.size, a.size));
    }
    for p in samples(a, salt) {
        let cb = b.at(p);
        if render::near(a.at(p), cb, TOL) {
            continue;
        }
        if let Some(ca) = a.stable_at(p, eps, TOL / 2.0) {
            let (mut wa, mut wb) = (vec![], vec![]);
            a.root.trace(p, &mut wa);
            b.root.trace(p, &mut wb);
            return Ok(Some(Diff { p, a: ca, b: cb, what: format!("before: {wa:?}, after: {wb:?}") }));
        }
    }
    Ok(None)
}

fn curved(src: &str) -> bool {
    src.split(" d=\"").skip(1).any(|d| d.split('"').next().is_some_and(|d| d.contains(['c', 'C', 's', 'S', 'q', 'Q', 't', 'T', 'a', 'A'])))
}

fn judge(src: &str, out: &str, salt: u64) -> Result<usize, String> {
    let da = dom::parse(src).map_err(|e| format!("source: {e}"))?;
    let db = dom::parse(out).map_err(|e| format!("output is not well-formed: {e}"))?;
    let (a, b) = (render::scene(&da), render::scene(&db));
    if a.truncated || b.truncated {
        return Ok(0);
    }
    match compare(&a, &b, salt, if curved(src) { EPS_CURVED } else { EPS })? {
        None => Ok(a.leaves),
        Some(d) => Err(format!("at ({:.2}, {:.2}) {} became {}; {}", d.p.0, d.p.1, render::rgba(d.a), render::rgba(d.b), d.what)),
    }
}

/// Switches that leave the picture as it is whichever way they are set.
const SWITCHES: &[(&str, &[&str])] = &[
    ("applyTransforms", &["applyTransformsStroked"]),
    ("cleanupIds", &["remove", "minify"]),
    ("cleanupNumericValues", &["leadingZero", "defaultPx", "convertToPx"]),
    ("cleanupListOfValues", &["leadingZero", "defaultPx", "convertToPx"]),
    (
        "convertPathData",
        &["closeSegments", "uniteSegments", "joinNodes", "removeEmptySegments", "removeZeroSegments", "removeCloseLine", "straightCurves", "arcCurves", "smartArcRounding"],
    ),
    ("convertShapeToPath", &["convertArcs"]),
    ("convertStyleToAttrs", &["keepImportant"]),
    ("convertTransform", &["convertToShorts", "matrixToTransform", "shortRotate", "removeUseless", "collapseIntoOne"]),
    ("inlineStyles", &["onlyMatchedOnce", "removeMatchedSelectors"]),
    ("removeEmptyText", &["text", "tspan", "tref"]),
    (
        "removeHiddenElems",
        &[
            "isHidden", "displayNone", "opacityZero", "circleRZero", "ellipseRxZero", "ellipseRyZero", "rectWidthZero", "rectHeightZero", "patternWidthZero", "patternHeightZero",
            "imageWidthZero", "imageHeightZero", "pathEmptyD", "polylineEmptyPoints", "polygonEmptyPoints",
        ],
    ),
    ("removeUnknownsAndDefaults", &["unknownContent", "unknownAttrs", "defaultAttrs", "defaultMarkupDeclarations", "uselessOverrides", "keepDataAttrs", "keepAriaAttrs", "keepRoleAttr"]),
    ("removeUselessStrokeAndFill", &["stroke", "fill", "removeNone"]),
];

fn base(n: &str) -> &str {
    n.split(' ').next().unwrap_or(n)
}

fn switched(s: &mut Src, n: &str) -> String {
    match SWITCHES.iter().find(|w| w.0 == n) {
        Some((_, params)) if s.chance(1, 3) => {
            let mut m = serde_json::Map::new();
            for p in *params {
                if s.chance(1, 2) {
                    m.insert(p.to_string(), s.chance(1, 2).into());
                }
            }
            format!("{n} {}", serde_json::Value::Object(m))
        }
        _ => n.to_string(),
    }
}

/// Names the job that changes the picture.
fn culprit(i: &Input) -> (String, String) {
    let names: Vec<String> = match i.jobs.first().map(|s| s.as_str()) {
        Some("default" | "safe") => jobs::DEFAULT.iter().map(|s| s.to_string()).collect(),
        _ => {
            let all = jobs::all();
            let mut v = i.jobs.clone();
            v.sort_by_key(|n| all.iter().position(|a| a.0 == base(n)));
            v
        }
    };
    let mut cur = i.svg.clone();
    for n in names {
        let Ok(next) = jobs::named(&[n.clone()]).and_then(|j| jobs::run(&cur, &j)) else { continue };
        for salt in [i.salt, 1, 2, 3] {
            if let Err(e) = judge(&cur, &next, salt) {
                return (base(&n).to_string(), format!("{e}\n  job input:  {cur}\n  job output: {next}"));
            }
        }
        cur = next;
    }
    ("combination".into(), String::new())
}

/// Features left out, for investigation only.
fn banned() -> Vec<&'static str> {
    let v = std::env::var("C01_BAN").unwrap_or_default();
    docgen::FEATURES.iter().copied().filter(|f| v.split(',').any(|b| b == *f)).collect()
}

/// Jobs that take elements out, add them or move them between parents.
const RESTRUCTURING: &[&str] = &[
    "removeMetadata", "removeEditorsNSData", "removeUselessDefs", "removeUnknownsAndDefaults", "removeHiddenElems", "removeEmptyText", "collapseGroups", "removeEmptyContainers", "mergePaths",
    "sortDefsChildren", "removeDesc", "reusePaths", "removeScripts", "removeOffCanvasPaths", "mergeStyles", "inlineStyles", "minifyStyles", "convertShapeToPath", "moveElemsAttrsToGroup",
    "convertOneStopGradients",
];

/// Leaves out jobs that have a known finding on documents like this one.
fn restrict(names: Vec<String>, svg: &str, g: &docgen::Gen, cx: &mut Cx) -> Vec<String> {
    let mut out: Vec<&str> = vec![];
    if !svg.contains("xmlns:xlink") || names.iter().any(|n| base(n) == "convertOneStopGradients") {
        out.push("reusePaths");
    }
    if svg.contains("<use") && svg.contains("marker-") {
        out.extend(["mergePaths", "convertPathData"]);
    }
    if svg.contains("marker-") {
        out.push("removeOffCanvasPaths");
    }
    if svg.contains("marker-mid") {
        out.push("convertPathData");
    }
    if svg.contains("marker-") && continues_after_close(svg) {
        out.extend(["mergePaths", "convertPathData"]);
    }
    if svg.contains("viewBox") && (svg.contains("width") || svg.contains("height")) {
        out.push("removeOffCanvasPaths");
    }
    if svg.contains("<use") && svg.contains("url(#") {
        out.push("mergePaths");
    }
    if svg.contains("<use") && ((svg.contains("<clipPath") && svg.contains("opacity")) || svg.contains("visibility")) {
        out.push("removeHiddenElems");
    }
    if (svg.contains("stroke=") || svg.contains("stroke:")) && (svg.contains("rgba(") || svg.contains("hsla(") || svg.contains("stroke-opacity")) {
        out.push("mergePaths");
    }
    if svg.contains("Transform=") && svg.contains("href=") {
        out.push("removeEmptyAttrs");
    }
    if svg.contains("<use") && grouped_class(svg) {
        out.push("collapseGroups");
    }
    if svg.contains("<style") {
        ignorant(svg, g, &mut out);
    }
    let names: Vec<String> = match names[..] {
        [ref n] if n == "default" || n == "safe" => {
            if !out.iter().any(|o| jobs::DEFAULT.contains(o)) {
                return names;
            }
            jobs::DEFAULT.iter().map(|n| n.to_string()).collect()
        }
        _ => names,
    };
    let before = names.len();
    let names: Vec<String> = names.into_iter().filter(|n| !out.contains(&base(n)) && !switch_out(n, svg)).collect();
    if names.len() < before {
        cx.exclude("jobs with a known finding on such documents");
    }
    names
}

/// Parameters that have a known finding on documents like this one.
fn switch_out(n: &str, svg: &str) -> bool {
    let on = |p: &str| n.contains(&format!("\"{p}\":true"));
    let capped = svg.contains("round") || svg.contains("square");
    (on("convertArcs") && (svg.contains("marker-") || svg.contains("stroke-dasharray") || svg.contains("r=\"0") || svg.contains("rx=\"0") || svg.contains("ry=\"0"))) || (on("removeCloseLine") && svg.contains("<use")) || (on("closeSegments") && (svg.contains("<use") || capped))
}

fn continues_after_close(svg: &str) -> bool {
    svg.split(" d=\"").skip(1).any(|t| {
        let d = t.split('"').next().unwrap_or("");
        let mut rest = d;
        while let Some(at) = rest.find(['z', 'Z']) {
            rest = rest[at + 1..].trim_start();
            if rest.chars().next().is_some_and(|c| !matches!(c, 'm' | 'M')) {
                return true;
            }
        }
        false
    })
}

fn grouped_class(svg: &str) -> bool {
    svg.split("<g").skip(1).any(|t| t.split('>').next().is_some_and(|t| t.contains(" class=")))
}

fn ignorant(svg: &str, g: &docgen::Gen, out: &mut Vec<&str>) {
    out.push("convertOneStopGradients");
    if g.has("css-conflict") {
        out.push("inlineStyles");
        if svg.contains("!important") {
            out.push("minifyStyles");
        }
    }
    if g.has("css-siblings") && (g.has("pseudo") || g.has("css-combinators")) {
        out.extend(RESTRUCTURING);
    }
    if g.has("css-combinators") {
        out.extend(["collapseGroups", "reusePaths"]);
    }
    if g.has("css-type") {
        out.extend(["convertEllipseToCircle", "reusePaths", "mergePaths"]);
    }
    if svg.contains(":not(") || svg.contains(":is(") {
        out.push("inlineStyles");
    }
    if grouped_class(svg) {
        out.push("collapseGroups");
    }
}

impl Prop for C01 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> String {
        "the source paints at least one shape inside the viewport and the output differs from the input".into()
    }
    fn cases(&self) -> (u64, u64) {
        (200_000, 2_000_000)
    }
    fn generate(&self, s: &mut Src, cx: &mut Cx) -> Input {
        let salt = s.n(1 << 30);
        let all = jobs::all();
        let names = match s.weighted(&[4, 1, 5, 3]) {
            0 => vec!["default".to_string()],
            1 => vec!["safe".to_string()],
            2 => {
                let n = all[s.us(all.len())].0;
                vec![switched(s, n)]
            }
            _ => {
                let n = 2 + s.n(5);
                let picked: Vec<&str> = all.iter().filter(|_| s.chance(n, 12)).map(|a| a.0).collect();
                picked.into_iter().map(|n| switched(s, n)).collect()
            }
        };
        let (svg, g) = docgen::svg(s, &banned());
        let names = restrict(names, &svg, &g, cx);
        Input { svg, jobs: names, salt }
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Check {
        let j = pipeline(&i.jobs).map_err(|e| Fail::new("config", e))?;
        let out = guarded(|| jobs::run(&i.svg, &j).map_err(|e| Fail::new(format!("error:{}", e.split(':').next().unwrap_or("")), e)))?;
        match judge(&i.svg, &out, i.salt) {
            Ok(leaves) => {
                cx.label(format!("preset {}", if i.jobs.first().is_some_and(|j| j == "default" || j == "safe") { &i.jobs[0] } else if i.jobs.len() == 1 { "single job" } else { "several jobs" }));
                cx.label_if(i.jobs.iter().any(|j| j.contains(' ')), "parameters differ from the default");
                for (l, t) in [("has stylesheet", "<style"), ("has use", "<use"), ("has clip path", "clip-path"), ("has mask", "mask=\"url"), ("has gradient", "Gradient"), ("has marker", "<marker"), ("has text", "<text"), ("has transform", " transform=")] {
                    cx.label_if(i.svg.contains(t), l);
                }
                if leaves > 0 && out != i.svg {
                    cx.nontrivial((&i.svg, &i.jobs));
                }
                Ok(())
            }
            Err(e) => {
                let (n, detail) = culprit(i);
                fail(format!("paint:{n}"), format!("{e}\n  output: {out}\n  {n}: {detail}"))
            }
        }
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![("preset default", 50), ("parameters differ from the default", 30), ("has stylesheet", 50), ("has use", 50), ("has clip path", 30), ("has mask", 10), ("has gradient", 30), ("has marker", 10), ("has text", 30), ("has transform", 100)]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "colours are compared at up to 180 points per document, at which the source has one colour within 0.25 units (0.75 where path data has curves, which may be fitted by arcs), with a tolerance of 0.06 per channel".into(),
            "text is compared as a sequence of positioned characters with their style, images and filters as opaque tokens; animation, scripts and interaction are outside the property".into(),
            "jobs with a known finding on a document are left out of the selection for it (counted under excluded)".into(),
        ]
    }
    fn render(&self, i: &Input) -> String {
        format!("{:?} {}", i.jobs, i.svg)
    }
}

fn main() {
    pbt::engine::main(C01)
}
