//! Running the optimiser through its public interface.
use oxvg_ast::{
    parse::roxmltree::{ParsingOptions, parse_with_options},
    serialize::Node as _,
    visitor::Info,
};
use oxvg_optimiser::Jobs;
use serde_json::{Map, Value, json};

/// Jobs in the order they run, with the configuration that is used for them here.
pub fn all() -> Vec<(&'static str, Value)> {
    let mut v: Vec<(&'static str, Value)> = vec![
        ("cleanupListOfValues", json!({})),
        ("convertOneStopGradients", json!(true)),
        ("convertStyleToAttrs", json!({})),
        ("removeOffCanvasPaths", json!(true)),
        ("removeScripts", json!(true)),
        ("removeViewBox", json!(true)),
        ("reusePaths", json!(true)),
    ];
    v.extend(DEFAULT.iter().map(|n| (*n, Value::Null)));
    v.push(("removeXlink", json!({})));
    v
}

pub const DEFAULT: &[&str] = &[
    "removeDoctype", "removeXMLProcInst", "removeComments", "removeDeprecatedAttrs", "removeMetadata", "removeEditorsNSData", "cleanupAttrs", "mergeStyles", "inlineStyles",
    "minifyStyles", "cleanupIds", "removeUselessDefs", "cleanupNumericValues", "convertColors", "removeUnknownsAndDefaults", "removeNonInheritableGroupAttrs",
    "removeUselessStrokeAndFill", "cleanupEnableBackground", "removeHiddenElems", "removeEmptyText", "convertShapeToPath", "convertEllipseToCircle", "moveElemsAttrsToGroup",
    "moveGroupAttrsToElems", "collapseGroups", "applyTransforms", "convertPathData", "convertTransform", "removeEmptyAttrs", "removeEmptyContainers", "removeUnusedNS", "mergePaths",
    "sortAttrs", "sortDefsChildren", "removeDesc",
];

/// Builds a pipeline of the named jobs. Parameters may follow a name after a space.
pub fn named(names: &[String]) -> Result<Jobs, String> {
    let defaults = serde_json::to_value(Jobs::default()).map_err(|e| e.to_string())?;
    let all = all();
    let mut m = Map::new();
    for n in names {
        if let Some((n, params)) = n.split_once(' ') {
            m.insert(n.to_string(), serde_json::from_str(params).map_err(|e| e.to_string())?);
            continue;
        }
        let v = match all.iter().find(|a| a.0 == n) {
            Some((_, Value::Null)) => defaults.get(n).cloned().unwrap_or(Value::Bool(true)),
            Some((_, v)) => v.clone(),
            None => return Err(format!("no job {n}")),
        };
        m.insert(n.clone(), v);
    }
    serde_json::from_value(Value::Object(m)).map_err(|e| e.to_string())
}

pub fn config(v: Value) -> Result<Jobs, String> {
    serde_json::from_value(v).map_err(|e| e.to_string())
}

/// Parses, optimises and serialises a document. The error tells which of the steps failed.
pub fn run(src: &str, jobs: &Jobs) -> Result<String, String> {
    parse_with_options(src, ParsingOptions { allow_dtd: true, ..ParsingOptions::default() }, |dom, allocator| {
        jobs.run(dom, &Info::new(allocator)).map_err(|e| format!("optimise: {e}"))?;
        dom.serialize().map_err(|e| format!("serialise: {e}"))
    })
    .map_err(|e| format!("parse: {e}"))?
}

/// As [`run`], but keeping whitespace and spelling in the output.
pub fn run_verbatim(src: &str, jobs: &Jobs) -> Result<String, String> {
    parse_with_options(src, ParsingOptions { allow_dtd: true, ..ParsingOptions::default() }, |dom, allocator| {
        jobs.run(dom, &Info::new(allocator)).map_err(|e| format!("optimise: {e}"))?;
        dom.serialize_with_options(oxvg_ast::serialize::Options::original()).map_err(|e| format!("serialise: {e}"))
    })
    .map_err(|e| format!("parse: {e}"))?
}
