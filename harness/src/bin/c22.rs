//! C22: a configuration selects exactly the jobs and parameters it names.
use oxvg_optimiser::{Extends, Jobs};
use pbt::engine::*;
use pbt::{confgen, jobs, odd};
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value, json};

#[derive(Clone, Serialize, Deserialize)]
enum Input {
    /// A preset, overlaid with jobs, without the omitted jobs.
    Overlay { extends: String, jobs: Value, omit: Vec<String> },
    /// A list of plugins as SVGO has them.
    Svgo { plugins: Vec<Value> },
    /// A job that is switched off.
    Off { job: String, svg: String },
    /// A name or parameter that is not one.
    Bad { text: String, plugin: bool },
}

struct C22;

/// The parameters each job has when none are given.
fn defaults() -> Map<String, Value> {
    let mut m = Map::new();
    let text = r#"
removeDoctype true
removeXMLProcInst true
removeComments {}
removeDeprecatedAttrs {"removeAny":false}
removeMetadata true
removeEditorsNSData {"additionalNamespaces":null}
cleanupAttrs {"newlines":true,"trim":true,"spaces":true}
mergeStyles true
inlineStyles {"onlyMatchedOnce":true,"removeMatchedSelectors":true,"useMqs":["","screen"],"usePseudos":[""]}
minifyStyles {"usage":true}
cleanupIds {"remove":true,"minify":true,"preserve":null,"preservePrefixes":null,"force":false}
removeUselessDefs true
cleanupNumericValues {"floatPrecision":3,"defaultPx":true,"convertToPx":true}
convertColors {"method":null}
removeUnknownsAndDefaults {"unknownContent":true,"unknownAttrs":true,"defaultAttrs":true,"defaultMarkupDeclarations":true,"uselessOverrides":true,"keepDataAttrs":true,"keepAriaAttrs":true,"keepRoleAttr":false}
removeNonInheritableGroupAttrs true
removeUselessStrokeAndFill {"stroke":true,"fill":true,"removeNone":false}
cleanupEnableBackground true
removeHiddenElems {"isHidden":null,"displayNone":null,"opacityZero":null,"circleRZero":null,"ellipseRxZero":null,"ellipseRyZero":null,"rectWidthZero":null,"rectHeightZero":null,"patternWidthZero":null,"patternHeightZero":null,"imageWidthZero":null,"imageHeightZero":null,"pathEmptyD":null,"polylineEmptyPoints":null,"polygonEmptyPoints":null}
removeEmptyText {"text":null,"tspan":null,"tref":null}
convertShapeToPath {"convertArcs":false,"floatPrecision":3}
convertEllipseToCircle true
moveElemsAttrsToGroup true
moveGroupAttrsToElems true
collapseGroups true
applyTransforms {"transformPrecision":null,"applyTransformsStroked":false}
convertPathData {"closeSegments":false,"uniteSegments":false,"joinNodes":true,"removeEmptySegments":true,"removeZeroSegments":true,"removeCloseLine":false,"straightCurves":true,"arcCurves":true,"smartArcRounding":true,"tolerance":{"positional":0.001,"angular":0.001,"precision":3}}
convertTransform {"convertToShorts":true,"degPrecision":null,"floatPrecision":3,"transformPrecision":5,"matrixToTransform":true,"shortRotate":true,"removeUseless":true,"collapseIntoOne":true}
removeEmptyAttrs true
removeEmptyContainers true
removeUnusedNS true
mergePaths {"force":false}
sortAttrs {"order":null,"xmlnsOrder":null}
sortDefsChildren true
removeDesc {"removeAny":false}
precheck {"failFast":true,"precleanChecks":false}
cleanupListOfValues {"floatPrecision":3,"defaultPx":true,"convertToPx":true}
convertStyleToAttrs {"keepImportant":false}
prefixIds {"delim":"__","prefix":true,"prefixIds":true,"prefixClassNames":true}
removeElementsByAttr {"id":[],"class":[]}
removeXlink {"includeLegacy":false}
convertOneStopGradients true
removeDimensions true
removeOffCanvasPaths true
removeRasterImages true
removeScripts true
removeStyleElement true
removeTitle true
removeViewBox true
removeXMLNS true
reusePaths true
addAttributesToSVGElement {"attributes":{}}
addClassesToSVGElement {"classNames":null,"className":null}
removeAttributesBySelector []
removeAttrs {"attrs":[],"elemSeparator":":","preserveCurrentColor":false}
"#;
    for l in text.lines().filter(|l| !l.is_empty()) {
        let (k, v) = l.split_once(' ').unwrap();
        m.insert(k.to_string(), serde_json::from_str(v).unwrap());
    }
    m
}

/// The parameters of a job for which some are given.
fn full(name: &str, given: &Value, defaults: &Map<String, Value>) -> Value {
    match (defaults.get(name), given) {
        (Some(Value::Object(d)), Value::Object(g)) => {
            let mut d = d.clone();
            for (k, v) in g {
                // listed by the generator, but the job has no such parameter
                if k == "leadingZero" || v.is_null() {
                    continue;
                }
                d.insert(k.clone(), v.clone());
            }
            Value::Object(d)
        }
        _ => given.clone(),
    }
}

/// Name of the field, which is how jobs to omit are given.
fn snake(name: &str) -> String {
    let mut out = String::new();
    for c in name.chars() {
        if c.is_ascii_uppercase() {
            out.push('_');
        }
        out.push(c.to_ascii_lowercase());
    }
    out
}

/// Without parameters that are null, which is the same as leaving them out, and with numbers of one kind.
fn tidy(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let mut m: Map<String, Value> = m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), tidy(v))).collect();
            if let Some(Value::Array(set)) = m.get_mut("additionalNamespaces") {
                set.sort_by_key(Value::to_string);
                set.dedup();
            }
            for v in m.values_mut() {
                *v = tidy(v);
            }
            Value::Object(m)
        }
        Value::Array(a) => Value::Array(a.iter().map(tidy).collect()),
        Value::Number(n) => json!(n.as_f64()),
        _ => v.clone(),
    }
}

fn differ(want: &Map<String, Value>, got: &Value) -> Option<(String, String)> {
    let Value::Object(got) = got else { return Some(("shape".into(), got.to_string())) };
    for (k, v) in want {
        match got.get(k) {
            None => return Some((format!("{k} missing"), format!("expected {v}"))),
            Some(g) if tidy(g) != tidy(v) => return Some((format!("{k} parameters"), format!("expected {v}, found {g}"))),
            _ => {}
        }
    }
    for (k, v) in got {
        if !want.contains_key(k) {
            return Some((format!("{k} unexpected"), v.to_string()));
        }
    }
    None
}

impl Prop for C22 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn cases(&self) -> (u64, u64) {
        (400_000, 12_000_000)
    }
    fn rule(&self) -> String {
        "a preset or list with at least one job that is given parameters or left out, a switched off job on a document, or a name that is refused".into()
    }
    fn generate(&self, s: &mut Src, _: &mut Cx) -> Input {
        let names = confgen::names();
        match s.weighted(&[6, 6, 3, 1]) {
            0 => {
                let mut m = Map::new();
                for n in s.list(0, 4, 12, |s| *s.pick(&names)) {
                    m.insert(n.to_string(), confgen::job(s, n));
                }
                let omit = s.list(0, 2, 6, |s| {
                    let given: Vec<&String> = m.keys().collect();
                    if !given.is_empty() && s.chance(1, 3) { snake(given[s.us(given.len())]) } else { snake(s.pick(&names)) }
                });
                Input::Overlay { extends: s.pick(&["none", "default", "safe"]).to_string(), jobs: Value::Object(m), omit }
            }
            1 => Input::Svgo {
                plugins: s.list(0, 4, 8, |s| {
                    let n = *s.pick(&names);
                    match s.us(8) {
                        0 => json!("preset-default"),
                        1 | 2 => json!(n),
                        3 => json!({"name": n}),
                        4 => {
                            let mut p = Map::new();
                            if s.chance(1, 2) {
                                p.insert("makeArcs".into(), [json!(false), json!({"threshold": 2.5, "tolerance": 0.5}), json!({"threshold": 1, "tolerance": 0.25})][s.us(3)].clone());
                            }
                            for k in ["convertToZ", "collapseRepeated", "removeUseless", "straightCurves", "smartArcRounding", "applyTransforms", "applyTransformsStroked", "utilizeAbsolute", "lineShorthands"] {
                                if s.chance(1, 3) {
                                    p.insert(k.into(), json!(s.chance(1, 2)));
                                }
                            }
                            if s.chance(1, 3) {
                                p.insert("floatPrecision".into(), json!(s.int(0, 6)));
                            }
                            if s.chance(1, 3) {
                                p.insert("transformPrecision".into(), json!(s.int(0, 8) as f64));
                            }
                            json!({"name": "convertPathData", "params": p})
                        }
                        _ if n == "convertPathData" => json!({"name": n, "params": {}}),
                        _ => json!({"name": n, "params": confgen::job(s, n)}),
                    }
                }),
            },
            2 => {
                let job = s.pick(confgen::FLAGS).to_string();
                Input::Off { job, svg: odd::document(s) }
            }
            _ => {
                let n = *s.pick(&names);
                let t = match s.us(4) {
                    0 => snake(n),
                    1 => n.to_lowercase(),
                    2 => format!("{n}s"),
                    _ => n[1..].to_string(),
                };
                let t = if names.contains(&t.as_str()) { format!("{n}{n}") } else { t };
                Input::Bad { text: t, plugin: s.chance(1, 2) }
            }
        }
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Result<(), Fail> {
        let defaults = defaults();
        let value = |j: &Jobs| serde_json::to_value(j).map_err(|e| Fail::new("serialise", e.to_string()));
        let round = |j: &Jobs| -> Result<(), Fail> {
            let a = value(j)?;
            let text = serde_json::to_string(j).map_err(|e| Fail::new("serialise", e.to_string()))?;
            let b: Jobs = serde_json::from_str(&text).map_err(|e| Fail::new("read back", format!("{e}: {text}")))?;
            let b = value(&b)?;
            if tidy(&a) != tidy(&b) {
                return fail("round trip", format!("{a} became {b}"));
            }
            Ok(())
        };
        match i {
            Input::Overlay { extends, jobs: given, omit } => {
                let e: Extends = serde_json::from_value(json!(extends)).map_err(|e| Fail::new("preset name", e.to_string()))?;
                let given_jobs: Jobs = serde_json::from_value(given.clone()).map_err(|e| Fail::new("refused", format!("{e}: {given}")))?;
                // the given jobs alone
                let mut want: Map<String, Value> = Map::new();
                for (k, v) in given.as_object().unwrap() {
                    want.insert(k.clone(), full(k, v, &defaults));
                }
                if let Some((s, m)) = differ(&want, &value(&given_jobs)?) {
                    return fail(format!("given: {s}"), m);
                }
                let mut base: Map<String, Value> = match extends.as_str() {
                    "none" => Map::new(),
                    e => {
                        let mut m: Map<String, Value> = jobs::DEFAULT.iter().map(|n| (n.to_string(), defaults[*n].clone())).collect();
                        if e == "safe" {
                            m.insert("precheck".into(), defaults["precheck"].clone());
                        }
                        m
                    }
                };
                if let Some((s, m)) = differ(&base, &value(&e.jobs())?) {
                    return fail(format!("preset {extends}: {s}"), m);
                }
                let mut changed = 0;
                for (k, v) in want {
                    changed += 1;
                    base.insert(k, v);
                }
                let mut resolved = e.extend(&given_jobs);
                if let Some((s, m)) = differ(&base, &value(&resolved)?) {
                    return fail(format!("extend: {s}"), m);
                }
                for o in omit {
                    resolved.omit(o);
                    let before = base.len();
                    base.retain(|k, _| snake(k) != *o);
                    cx.label_if(base.len() < before, "omitted");
                    changed += before - base.len();
                }
                if let Some((s, m)) = differ(&base, &value(&resolved)?) {
                    return fail(format!("omit: {s}"), m);
                }
                round(&resolved)?;
                cx.label(format!("extends {extends}"));
                cx.label_if(given.as_object().unwrap().keys().any(|k| extends != "none" && jobs::DEFAULT.contains(&k.as_str())), "overrides the preset");
                if changed > 0 {
                    cx.nontrivial((extends, given.to_string(), omit));
                }
            }
            Input::Svgo { plugins } => {
                let got = Jobs::from_svgo_plugin_config(Some(plugins.clone())).map_err(|e| Fail::new("refused plugins", e.to_string()))?;
                let mut want: Map<String, Value> = Map::new();
                for p in plugins {
                    let (name, params) = match p {
                        Value::String(n) => (n.as_str(), None),
                        p => (p["name"].as_str().unwrap(), p.get("params")),
                    };
                    if name == "preset-default" {
                        cx.label("preset-default");
                        for n in jobs::DEFAULT {
                            want.insert(n.to_string(), defaults[*n].clone());
                        }
                        continue;
                    }
                    if name == "convertPathData" {
                        cx.label("convertPathData");
                        // one plugin of SVGO stands for two jobs, and its parameters have other names
                        let empty = Map::new();
                        let p = params.and_then(Value::as_object).unwrap_or(&empty);
                        let flag = |k: &str| p.get(k).and_then(Value::as_bool);
                        let mut path = defaults["convertPathData"].as_object().unwrap().clone();
                        for (svgo, own) in [
                            ("convertToZ", "closeSegments"), ("collapseRepeated", "joinNodes"), ("removeUseless", "removeEmptySegments"), ("removeUseless", "removeZeroSegments"),
                            ("straightCurves", "straightCurves"), ("smartArcRounding", "smartArcRounding"),
                        ] {
                            if let Some(b) = flag(svgo) {
                                path.insert(own.into(), json!(b));
                            }
                        }
                        match p.get("makeArcs") {
                            Some(Value::Bool(false)) => {
                                path.insert("arcCurves".into(), json!(false));
                            }
                            Some(a) => path["tolerance"]["positional"] = a["threshold"].clone(),
                            // as if it was off, which a test of the repository expects
                            None if params.is_some() => {
                                path.insert("arcCurves".into(), json!(false));
                            }
                            None => {}
                        }
                        if let Some(n) = p.get("floatPrecision") {
                            path["tolerance"]["precision"] = n.clone();
                        }
                        want.insert(name.into(), Value::Object(path));
                        if flag("applyTransforms") != Some(false) {
                            want.insert(
                                "applyTransforms".into(),
                                json!({"transformPrecision": p.get("transformPrecision").cloned().unwrap_or(Value::Null), "applyTransformsStroked": flag("applyTransformsStroked").unwrap_or(false)}),
                            );
                        }
                        continue;
                    }
                    cx.label(if params.is_some() { "plugin with parameters" } else { "plugin by name" });
                    want.insert(name.into(), params.map_or_else(|| defaults[name].clone(), |p| full(name, p, &defaults)));
                }
                if let Some((s, m)) = differ(&want, &value(&got)?) {
                    return fail(format!("plugins: {s}"), m);
                }
                round(&got)?;
                let none = Jobs::from_svgo_plugin_config(None).map_err(|e| Fail::new("no plugins", e.to_string()))?;
                if plugins.is_empty() {
                    let base: Map<String, Value> = jobs::DEFAULT.iter().map(|n| (n.to_string(), defaults[*n].clone())).collect();
                    if let Some((s, m)) = differ(&base, &value(&none)?) {
                        return fail(format!("no plugin list: {s}"), m);
                    }
                }
                if !want.is_empty() {
                    cx.nontrivial(json!(plugins).to_string());
                }
            }
            Input::Off { job, svg } => {
                let j = jobs::config(json!({job: false})).map_err(|e| Fail::new("refused", e))?;
                let on = jobs::config(json!({job: true})).map_err(|e| Fail::new("refused", e))?;
                let plain = jobs::run(svg, &Jobs::none());
                let off = jobs::run(svg, &j);
                if plain.is_err() {
                    return Ok(());
                }
                if plain != off {
                    return fail(format!("{job} off"), format!("{off:?} instead of {plain:?}"));
                }
                cx.label("off");
                cx.label_if(jobs::run(svg, &on) != plain, "off matters");
                cx.nontrivial((job, svg));
            }
            Input::Bad { text, plugin } => {
                cx.label("unknown name");
                let plugins = if *plugin { vec![json!({"name": text})] } else { vec![json!(text)] };
                // words run together differently name the same job: `removeXMLNS` and `remove_x_m_l_n_s`
                if Jobs::from_svgo_plugin_config(Some(plugins)).is_ok() && !confgen::names().iter().any(|n| snake(n) == *text) {
                    return fail("unknown plugin", text.clone());
                }
                let mut j = Jobs::default();
                let before = value(&j)?;
                if !confgen::names().iter().any(|n| snake(n) == *text) {
                    j.omit(text);
                    if value(&j)? != before {
                        return fail("omit unknown", text.clone());
                    }
                }
                cx.nontrivial((text, plugin));
            }
        }
        Ok(())
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![
            ("extends none", 50), ("extends default", 50), ("extends safe", 50), ("omitted", 100), ("overrides the preset", 50), ("preset-default", 80), ("convertPathData", 80), ("plugin with parameters", 100),
            ("plugin by name", 100), ("off", 100), ("off matters", 30), ("unknown name", 30),
        ]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["a parameter given as null is the same as one left out; jobs to omit are named in snake case, as the interface documents".into()]
    }
    fn render(&self, i: &Input) -> String {
        serde_json::to_string(i).unwrap()
    }
}

fn main() {
    pbt::engine::main(C22)
}
