//! Generator of job configurations: any job with any documented parameter.
use crate::engine::Src;
use serde_json::{Map, Value, json};

#[derive(Clone, Copy)]
enum P {
    B,
    /// integer range
    I(i64, i64),
    /// null or float
    F,
    Ids,
    Class,
    Names,
    Text,
    Pick(&'static [&'static str]),
    OptPick(&'static [&'static str]),
    Prefix,
    Usage,
    Tolerance,
}
use P::*;

/// Jobs with an object of parameters; every parameter is optional.
const OBJECTS: &[(&str, &[(&str, P)])] = &[
    ("precheck", &[("failFast", B), ("precleanChecks", B)]),
    ("applyTransforms", &[("transformPrecision", F), ("applyTransformsStroked", B)]),
    ("cleanupAttrs", &[("newlines", B), ("trim", B), ("spaces", B)]),
    ("cleanupIds", &[("remove", B), ("minify", B), ("preserve", Ids), ("preservePrefixes", Ids), ("force", B)]),
    ("cleanupListOfValues", &[("floatPrecision", I(0, 6)), ("leadingZero", B), ("defaultPx", B), ("convertToPx", B)]),
    ("cleanupNumericValues", &[("floatPrecision", I(0, 6)), ("leadingZero", B), ("defaultPx", B), ("convertToPx", B)]),
    ("convertColors", &[("method", OptPick(&["lightning", "currentColor"]))]),
    (
        "convertPathData",
        &[
            ("closeSegments", B), ("uniteSegments", B), ("joinNodes", B), ("removeEmptySegments", B), ("removeZeroSegments", B), ("removeCloseLine", B), ("straightCurves", B), ("arcCurves", B),
            ("smartArcRounding", B), ("tolerance", Tolerance),
        ],
    ),
    ("convertShapeToPath", &[("convertArcs", B), ("floatPrecision", I(0, 6))]),
    ("convertStyleToAttrs", &[("keepImportant", B)]),
    (
        "convertTransform",
        &[("convertToShorts", B), ("degPrecision", I(0, 5)), ("floatPrecision", I(0, 6)), ("transformPrecision", I(0, 7)), ("matrixToTransform", B), ("shortRotate", B), ("removeUseless", B), ("collapseIntoOne", B)],
    ),
    ("inlineStyles", &[("onlyMatchedOnce", B), ("removeMatchedSelectors", B), ("useMqs", Pick(&["", "screen", "print"])), ("usePseudos", Pick(&["", ":hover", ":first-child"]))]),
    ("mergePaths", &[("force", B)]),
    ("minifyStyles", &[("usage", Usage)]),
    ("prefixIds", &[("delim", Text), ("prefix", Prefix), ("prefixIds", B), ("prefixClassNames", B)]),
    ("removeDeprecatedAttrs", &[("removeAny", B)]),
    ("removeDesc", &[("removeAny", B)]),
    ("removeElementsByAttr", &[("id", Ids), ("class", Class)]),
    ("removeEmptyText", &[("text", B), ("tspan", B), ("tref", B)]),
    (
        "removeHiddenElems",
        &[
            ("isHidden", B), ("displayNone", B), ("opacityZero", B), ("circleRZero", B), ("ellipseRxZero", B), ("ellipseRyZero", B), ("rectWidthZero", B), ("rectHeightZero", B), ("patternWidthZero", B),
            ("patternHeightZero", B), ("imageWidthZero", B), ("imageHeightZero", B), ("pathEmptyD", B), ("polylineEmptyPoints", B), ("polygonEmptyPoints", B),
        ],
    ),
    ("removeUnknownsAndDefaults", &[("unknownContent", B), ("unknownAttrs", B), ("defaultAttrs", B), ("defaultMarkupDeclarations", B), ("uselessOverrides", B), ("keepDataAttrs", B), ("keepAriaAttrs", B), ("keepRoleAttr", B)]),
    ("removeUselessStrokeAndFill", &[("stroke", B), ("fill", B), ("removeNone", B)]),
    ("removeXlink", &[("includeLegacy", B)]),
    ("sortAttrs", &[("order", Names), ("xmlnsOrder", OptPick(&["front", "alphabetical"]))]),
];
/// Jobs switched by a boolean.
pub const FLAGS: &[&str] = &[
    "cleanupEnableBackground", "collapseGroups", "convertEllipseToCircle", "convertOneStopGradients", "mergeStyles", "moveElemsAttrsToGroup", "moveGroupAttrsToElems", "removeDimensions", "removeDoctype",
    "removeEmptyAttrs", "removeEmptyContainers", "removeMetadata", "removeNonInheritableGroupAttrs", "removeOffCanvasPaths", "removeRasterImages", "removeScripts", "removeStyleElement", "removeTitle",
    "removeUnusedNS", "removeUselessDefs", "removeViewBox", "removeXMLNS", "removeXMLProcInst", "reusePaths", "sortDefsChildren",
];
const OTHERS: &[&str] = &["addAttributesToSVGElement", "addClassesToSVGElement", "removeAttributesBySelector", "removeAttrs", "removeComments", "removeEditorsNSData"];

pub fn names() -> Vec<&'static str> {
    let mut v: Vec<&'static str> = OBJECTS.iter().map(|o| o.0).collect();
    v.extend(FLAGS);
    v.extend(OTHERS);
    v
}

const IDS: &[&str] = &["i1", "i2", "a", "i", "Layer_1", "gradient", "é"];

fn value(s: &mut Src, p: P) -> Value {
    match p {
        B => json!(s.chance(1, 2)),
        I(a, b) => json!(s.int(a, b)),
        F => [json!(null), json!(1.0), json!(5.0), json!(1000.0)][s.us(4)].clone(),
        Ids => json!(s.list(0, 2, 3, |s| s.pick(IDS).to_string())),
        Class => json!(s.list(0, 2, 3, |s| s.pick(crate::docgen::CLASSES).to_string())),
        Names => json!(s.list(0, 3, 5, |s| s.pick(&["id", "d", "x", "fill", "stroke", "width", "xlink", "transform", "style"]).to_string())),
        Text => json!(*s.pick(&["", "_", "__", "-", "é"])),
        Pick(v) => json!(s.list(0, 2, 3, |s| s.pick(v).to_string())),
        OptPick(v) => json!(*s.pick(v)),
        Prefix => [json!("p"), json!(""), json!(true), json!(false), json!("é"), json!(null)][s.us(6)].clone(),
        Usage => [json!(true), json!(false), json!("force")][s.us(3)].clone(),
        Tolerance => json!({"positional": s.pick(&[0.001, 0.1, 0.00001]), "angular": s.pick(&[0.001, 0.1]), "precision": s.int(0, 6)}),
    }
}

/// A configuration of the job.
pub fn job(s: &mut Src, name: &str) -> Value {
    if let Some((_, ps)) = OBJECTS.iter().find(|o| o.0 == name) {
        let mut m = Map::new();
        for (k, p) in *ps {
            if s.chance(1, 3) {
                m.insert(k.to_string(), value(s, *p));
            }
        }
        return Value::Object(m);
    }
    if FLAGS.contains(&name) {
        return json!(!s.chance(1, 10));
    }
    match name {
        "addAttributesToSVGElement" => {
            let mut m = Map::new();
            for (k, v) in s.list(0, 2, 3, |s| {
                let k = s.pick(&["focusable", "fill", "width", "data-icon", "xmlns:xlink", "role"]).to_string();
                let v = if k == "xmlns:xlink" { "http://www.w3.org/1999/xlink" } else { *s.pick(&["", "false", "red", "1em", "<&\">"]) };
                (k, v.to_string())
            }) {
                m.insert(k, json!(v));
            }
            json!({"attributes": m})
        }
        "addClassesToSVGElement" => match s.us(3) {
            0 => json!({"className": s.pick(&["a", "b c", ""])}),
            1 => json!({"classNames": s.list(0, 2, 3, |s| s.pick(&["a", "new", "é"]).to_string())}),
            _ => json!({"className": "one", "classNames": ["two", "a"]}),
        },
        "removeAttributesBySelector" => json!(s.list(0, 2, 2, |s| json!({"selector": s.pick(&["path", "[fill]", "g > *", ".a", "#i1", ":not(g)", "*:first-child"]),
            "attributes": s.list(0, 2, 3, |s| s.pick(&["fill", "id", "class", "style", "d", "x", "transform", "xlink:href"]).to_string())}))),
        "removeAttrs" => {
            let mut m = Map::new();
            m.insert("attrs".into(), json!(s.list(0, 2, 3, |s| s.pick(&["fill", "(fill|stroke)", "path:fill", "*:id", "g:.*", "(f|s).*", "*:fill:red", "rect:(x|y):.*", "stroke:.*"]).to_string())));
            if s.chance(1, 4) {
                m.insert("elemSeparator".into(), json!(s.pick(&[":", ",", "|"])));
            }
            if s.chance(1, 3) {
                m.insert("preserveCurrentColor".into(), json!(s.chance(1, 2)));
            }
            Value::Object(m)
        }
        "removeComments" => match s.us(3) {
            0 => json!({}),
            1 => json!({"preservePatterns": null}),
            _ => json!({"preservePatterns": s.list(0, 2, 2, |s| s.pick(&["^!", "a", "^ *keep", "."]).to_string())}),
        },
        _ => match s.us(3) {
            0 | 1 => json!({}),
            _ => json!({"additionalNamespaces": s.list(0, 1, 2, |s| s.pick(&["urn:x", "http://www.w3.org/1999/xlink", "http://example.com"]).to_string())}),
        },
    }
}
