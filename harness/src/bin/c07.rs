//! C07: typed attribute values keep their meaning when parsed and printed.
use oxvg_ast::parse::roxmltree::parse;
use oxvg_ast::serialize::{Node as _, Options};
use pbt::engine::{fail, guarded, Check, Cx, Fail, Prop, Src};
use pbt::{colors, gens, render, xml};
use serde::{Deserialize, Serialize};

/// How the value of an attribute is read.
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Number,
    Integer,
    Length,
    LengthAuto,
    NumOptNum,
    Numbers,
    Lengths,
    NumbersSemi,
    Splines,
    Orient,
    AnimRotate,
    /// Keywords that are compared with their case.
    Enum(&'static [&'static str]),
    /// Keywords of a CSS property.
    Css(&'static [&'static str]),
    Opacity,
    Color,
    Paint,
    Refs,
    Dashes,
    FontSize,
    FontWeight,
    FontFamily,
    Spacing,
    BaselineShift,
    Clock,
    ClockOr(&'static str),
    RepeatCount,
    Begin,
    ViewBox,
    Par,
    RefX,
    RefY,
    Points,
    Transform,
    Tokens,
    Percentage,
    Verbatim,
    Decoration,
    PaintOrder,
    Origin,
}
use K::*;

const UNITS: K = Enum(&["userSpaceOnUse", "objectBoundingBox"]);
const TF: K = Enum(&["true", "false"]);

const TABLE: &[(&str, &str, K)] = &[
    ("feFuncR", "amplitude", Number),
    ("feFuncG", "exponent", Number),
    ("feFuncR", "intercept", Number),
    ("feFuncB", "slope", Number),
    ("feFuncA", "offset", Number),
    ("feDistantLight", "azimuth", Number),
    ("feDistantLight", "elevation", Number),
    ("feConvolveMatrix", "bias", Number),
    ("feConvolveMatrix", "divisor", Number),
    ("feDiffuseLighting", "diffuseConstant", Number),
    ("feDiffuseLighting", "surfaceScale", Number),
    ("feSpecularLighting", "specularConstant", Number),
    ("feSpecularLighting", "specularExponent", Number),
    ("feComposite", "k1", Number),
    ("feComposite", "k2", Number),
    ("feComposite", "k3", Number),
    ("feComposite", "k4", Number),
    ("feOffset", "dx", Number),
    ("feOffset", "dy", Number),
    ("feDisplacementMap", "scale", Number),
    ("feTurbulence", "seed", Number),
    ("fePointLight", "x", Number),
    ("feSpotLight", "z", Number),
    ("feSpotLight", "pointsAtX", Number),
    ("feSpotLight", "limitingConeAngle", Number),
    ("path", "pathLength", Number),
    ("font", "horiz-adv-x", Number),
    ("font-face", "units-per-em", Number),
    ("font-face", "ascent", Number),
    ("feTurbulence", "numOctaves", Integer),
    ("feConvolveMatrix", "targetX", Integer),
    ("g", "tabindex", Integer),
    ("rect", "x", Length),
    ("rect", "y", Length),
    ("rect", "width", LengthAuto),
    ("rect", "height", LengthAuto),
    ("rect", "rx", LengthAuto),
    ("ellipse", "ry", LengthAuto),
    ("circle", "r", Length),
    ("circle", "cx", Length),
    ("line", "x1", Length),
    ("line", "y2", Length),
    ("linearGradient", "x1", Length),
    ("linearGradient", "y2", Length),
    ("radialGradient", "cx", Length),
    ("radialGradient", "r", Length),
    ("radialGradient", "fx", Length),
    ("radialGradient", "fr", Length),
    ("svg", "x", Length),
    ("svg", "width", LengthAuto),
    ("use", "y", Length),
    ("image", "width", LengthAuto),
    ("pattern", "x", Length),
    ("pattern", "height", Length),
    ("mask", "x", Length),
    ("filter", "width", Length),
    ("feFlood", "x", Length),
    ("feImage", "height", Length),
    ("marker", "markerWidth", Length),
    ("marker", "markerHeight", Length),
    ("text", "textLength", Length),
    ("textPath", "startOffset", Length),
    ("feTurbulence", "baseFrequency", NumOptNum),
    ("feConvolveMatrix", "kernelUnitLength", NumOptNum),
    ("feConvolveMatrix", "order", NumOptNum),
    ("feMorphology", "radius", NumOptNum),
    ("feGaussianBlur", "stdDeviation", NumOptNum),
    ("feDropShadow", "stdDeviation", NumOptNum),
    ("feConvolveMatrix", "kernelMatrix", Numbers),
    ("feColorMatrix", "values", Numbers),
    ("feFuncR", "tableValues", Numbers),
    ("text", "rotate", Numbers),
    ("tspan", "rotate", Numbers),
    ("text", "x", Lengths),
    ("text", "y", Lengths),
    ("tspan", "x", Lengths),
    ("text", "dx", Lengths),
    ("tspan", "dy", Lengths),
    ("animate", "keyTimes", NumbersSemi),
    ("animateMotion", "keyPoints", NumbersSemi),
    ("animate", "keySplines", Splines),
    ("marker", "orient", Orient),
    ("animateMotion", "rotate", AnimRotate),
    ("marker", "refX", RefX),
    ("marker", "refY", RefY),
    ("symbol", "refX", RefX),
    ("symbol", "refY", RefY),
    ("svg", "viewBox", ViewBox),
    ("symbol", "viewBox", ViewBox),
    ("pattern", "viewBox", ViewBox),
    ("svg", "preserveAspectRatio", Par),
    ("image", "preserveAspectRatio", Par),
    ("polygon", "points", Points),
    ("polyline", "points", Points),
    ("g", "transform", Transform),
    ("path", "transform", Transform),
    ("linearGradient", "gradientTransform", Transform),
    ("pattern", "patternTransform", Transform),
    ("stop", "offset", Percentage),
    ("animate", "dur", ClockOr("indefinite|media")),
    ("animate", "min", ClockOr("media")),
    ("set", "max", ClockOr("media")),
    ("animate", "repeatDur", ClockOr("indefinite")),
    ("animate", "repeatCount", RepeatCount),
    ("animate", "begin", Begin),
    ("set", "end", Begin),
    ("animateTransform", "begin", Begin),
    ("g", "class", Tokens),
    ("g", "systemLanguage", Verbatim),
    ("g", "id", Verbatim),
    ("g", "lang", Verbatim),
    ("g", "data-x", Verbatim),
    ("g", "aria-label", Verbatim),
    ("g", "aria-labelledby", Tokens),
    ("g", "aria-describedby", Tokens),
    ("a", "href", Verbatim),
    ("a", "target", Verbatim),
    ("a", "download", Verbatim),
    ("a", "type", Verbatim),
    ("use", "href", Verbatim),
    ("image", "href", Verbatim),
    ("animate", "attributeName", Verbatim),
    ("animate", "from", Verbatim),
    ("animate", "to", Verbatim),
    ("animate", "by", Verbatim),
    ("animate", "values", Verbatim),
    ("script", "type", Verbatim),
    ("feOffset", "in", Verbatim),
    ("feBlend", "in2", Verbatim),
    ("feOffset", "result", Verbatim),
    ("svg", "version", Verbatim),
    ("g", "onclick", Verbatim),
    ("g", "unknown", Verbatim),
    // keywords of attributes
    ("animate", "additive", Enum(&["replace", "sum"])),
    ("animate", "accumulate", Enum(&["none", "sum"])),
    ("animate", "attributeType", Enum(&["XML", "CSS", "auto"])),
    ("animate", "calcMode", Enum(&["discrete", "linear", "paced", "spline"])),
    ("animate", "fill", Enum(&["freeze", "remove"])),
    ("animate", "restart", Enum(&["always", "whenNotActive", "never"])),
    ("animateTransform", "type", Enum(&["translate", "scale", "rotate", "skewX", "skewY"])),
    ("clipPath", "clipPathUnits", UNITS),
    ("filter", "filterUnits", UNITS),
    ("filter", "primitiveUnits", UNITS),
    ("linearGradient", "gradientUnits", UNITS),
    ("mask", "maskUnits", UNITS),
    ("mask", "maskContentUnits", UNITS),
    ("pattern", "patternUnits", UNITS),
    ("pattern", "patternContentUnits", UNITS),
    ("marker", "markerUnits", Enum(&["strokeWidth", "userSpaceOnUse"])),
    ("linearGradient", "spreadMethod", Enum(&["pad", "reflect", "repeat"])),
    ("text", "lengthAdjust", Enum(&["spacing", "spacingAndGlyphs"])),
    ("textPath", "method", Enum(&["align", "stretch"])),
    ("textPath", "spacing", Enum(&["auto", "exact"])),
    ("textPath", "side", Enum(&["left", "right"])),
    (
        "feBlend",
        "mode",
        Enum(&["normal", "multiply", "screen", "overlay", "darken", "lighten", "color-dodge", "color-burn", "hard-light", "soft-light", "difference", "exclusion", "hue", "saturation", "color", "luminosity"]),
    ),
    ("feComposite", "operator", Enum(&["over", "in", "out", "atop", "xor", "lighter", "arithmetic"])),
    ("feMorphology", "operator", Enum(&["erode", "dilate"])),
    ("feTurbulence", "type", Enum(&["fractalNoise", "turbulence"])),
    ("feTurbulence", "stitchTiles", Enum(&["stitch", "noStitch"])),
    ("feColorMatrix", "type", Enum(&["matrix", "saturate", "hueRotate", "luminanceToAlpha"])),
    ("feFuncR", "type", Enum(&["identity", "table", "discrete", "linear", "gamma"])),
    ("feDisplacementMap", "xChannelSelector", Enum(&["R", "G", "B", "A"])),
    ("feDisplacementMap", "yChannelSelector", Enum(&["R", "G", "B", "A"])),
    ("feConvolveMatrix", "edgeMode", Enum(&["duplicate", "wrap", "none"])),
    ("feConvolveMatrix", "preserveAlpha", TF),
    ("svg", "zoomAndPan", Enum(&["disable", "magnify"])),
    ("text", "xml:space", Enum(&["default", "preserve"])),
    ("image", "crossorigin", Enum(&["anonymous", "use-credentials"])),
    ("g", "role", Enum(&["img", "button", "none", "presentation", "group", "link", "list", "listitem", "graphics-document", "graphics-object", "graphics-symbol"])),
    ("g", "aria-hidden", Enum(&["true", "false", "undefined"])),
    ("g", "aria-live", Enum(&["assertive", "off", "polite"])),
    // presentation attributes
    ("g", "clip-rule", Css(&["nonzero", "evenodd"])),
    ("path", "fill-rule", Css(&["nonzero", "evenodd"])),
    ("g", "color-interpolation", Css(&["auto", "sRGB", "linearRGB"])),
    ("feFlood", "color-interpolation-filters", Css(&["auto", "sRGB", "linearRGB"])),
    ("g", "color-rendering", Css(&["auto", "optimizeSpeed", "optimizeQuality"])),
    ("text", "direction", Css(&["ltr", "rtl"])),
    ("g", "display", Css(&["inline", "block", "none", "contents", "table", "inline-block", "flex", "list-item"])),
    ("text", "dominant-baseline", Css(&["auto", "ideographic", "alphabetic", "hanging", "mathematical", "central", "middle", "text-after-edge", "text-before-edge"])),
    ("tspan", "alignment-baseline", Css(&["auto", "baseline", "before-edge", "text-before-edge", "middle", "central", "after-edge", "text-after-edge", "ideographic", "alphabetic", "hanging", "mathematical"])),
    ("text", "font-style", Css(&["normal", "italic", "oblique"])),
    ("text", "font-variant", Css(&["normal", "small-caps", "none"])),
    ("text", "font-stretch", Css(&["normal", "ultra-condensed", "extra-condensed", "condensed", "semi-condensed", "semi-expanded", "expanded", "extra-expanded", "ultra-expanded"])),
    ("image", "image-rendering", Css(&["auto", "optimizeSpeed", "optimizeQuality"])),
    ("svg", "overflow", Css(&["visible", "hidden", "scroll", "auto"])),
    ("g", "pointer-events", Css(&["bounding-box", "visiblePainted", "visibleFill", "visibleStroke", "visible", "painted", "fill", "stroke", "all", "none", "auto"])),
    ("path", "shape-rendering", Css(&["auto", "optimizeSpeed", "crispEdges", "geometricPrecision"])),
    ("path", "stroke-linecap", Css(&["butt", "round", "square"])),
    ("path", "stroke-linejoin", Css(&["miter", "miter-clip", "round", "bevel", "arcs"])),
    ("text", "text-anchor", Css(&["start", "middle", "end"])),
    ("text", "text-rendering", Css(&["auto", "optimizeSpeed", "optimizeLegibility", "geometricPrecision"])),
    ("text", "unicode-bidi", Css(&["normal", "embed", "isolate", "bidi-override", "isolate-override", "plaintext"])),
    ("path", "vector-effect", Css(&["none", "non-scaling-stroke", "non-scaling-size", "non-rotation", "fixed-position"])),
    ("g", "visibility", Css(&["visible", "hidden", "collapse"])),
    ("text", "writing-mode", Css(&["horizontal-tb", "vertical-rl", "vertical-lr", "lr", "lr-tb", "rl", "rl-tb", "tb", "tb-rl"])),
    ("mask", "mask-type", Css(&["luminance", "alpha"])),
    ("g", "cursor", Css(&["auto", "default", "none", "help", "pointer", "wait", "text", "move", "crosshair", "n-resize"])),
    ("g", "opacity", Opacity),
    ("path", "fill-opacity", Opacity),
    ("path", "stroke-opacity", Opacity),
    ("stop", "stop-opacity", Opacity),
    ("feFlood", "flood-opacity", Opacity),
    ("g", "color", Color),
    ("stop", "stop-color", Color),
    ("feFlood", "flood-color", Color),
    ("feDiffuseLighting", "lighting-color", Color),
    ("path", "fill", Paint),
    ("g", "fill", Paint),
    ("path", "stroke", Paint),
    ("g", "clip-path", Refs),
    ("g", "mask", Refs),
    ("g", "filter", Refs),
    ("path", "marker-start", Refs),
    ("path", "marker-mid", Refs),
    ("path", "marker-end", Refs),
    ("path", "marker", Refs),
    ("path", "stroke-dasharray", Dashes),
    ("path", "stroke-dashoffset", Length),
    ("path", "stroke-width", Length),
    ("path", "stroke-miterlimit", Number),
    ("text", "font-size", FontSize),
    ("text", "font-weight", FontWeight),
    ("text", "font-family", FontFamily),
    ("text", "letter-spacing", Spacing),
    ("text", "word-spacing", Spacing),
    ("tspan", "baseline-shift", BaselineShift),
    ("text", "text-decoration", Decoration),
    ("g", "paint-order", PaintOrder),
    ("g", "transform-origin", Origin),
];

/// A part of what a value means.
#[derive(Clone, Debug, PartialEq)]
enum T {
    /// Number and unit; lengths of absolute units are in px.
    N(f64, String),
    W(String),
    C([f64; 4]),
    /// Numbers whose slack depends on the largest of them.
    V(Vec<f64>),
}

fn same(a: &[T], b: &[T]) -> bool {
    // Numbers are kept with single precision and printed with six significant digits.
    let near = |x: f64, y: f64| x == y || (x - y).abs() <= 6e-6 * x.abs().max(y.abs()) + 1e-9;
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (T::N(x, u), T::N(y, v)) => near(*x, *y) && (u == v || *x == 0.0 && u != "num" && v != "num"),
            (T::W(x), T::W(y)) => x == y,
            // Colours are kept with eight bits for each channel.
            (T::C(x), T::C(y)) => x.iter().zip(y).all(|(x, y)| (x - y).abs() <= 0.51 / 255.0 + 1e-6),
            (T::V(x), T::V(y)) => {
                let m = x.iter().chain(y).fold(1.0f64, |m, v| m.max(v.abs()));
                x.len() == y.len() && x.iter().zip(y).all(|(x, y)| (x - y).abs() <= m * 3e-5)
            }
            _ => false,
        })
}

fn ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

/// Reads a number at the start of the text.
fn lead(s: &str) -> Option<(f64, &str)> {
    let b = s.as_bytes();
    let digits = |mut i: usize| {
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        i
    };
    let st = usize::from(matches!(b.first(), Some(b'+' | b'-')));
    let mut i = digits(st);
    let whole = i > st;
    let mut frac = false;
    if i < b.len() && b[i] == b'.' && digits(i + 1) > i + 1 {
        i = digits(i + 1);
        frac = true;
    }
    if !whole && !frac {
        return None;
    }
    if i < b.len() && (b[i] | 32) == b'e' {
        let j = i + 1 + usize::from(matches!(b.get(i + 1), Some(b'+' | b'-')));
        if digits(j) > j {
            i = digits(j);
        }
    }
    Some((s[..i].parse().ok()?, &s[i..]))
}

fn num(s: &str) -> Option<f64> {
    lead(s.trim_matches(ws)).filter(|n| n.1.is_empty()).map(|n| n.0)
}

/// Reads a length at the start of the text.
fn len(s: &str) -> Option<(T, &str)> {
    let (v, r) = lead(s)?;
    let e = r.find(|c: char| !(c.is_ascii_alphabetic() || c == '%')).unwrap_or(r.len());
    let u = r[..e].to_ascii_lowercase();
    let (v, u) = match u.as_str() {
        "" | "px" => (v, "px"),
        "pt" => (v * 4.0 / 3.0, "px"),
        "pc" => (v * 16.0, "px"),
        "in" => (v * 96.0, "px"),
        "cm" => (v * 96.0 / 2.54, "px"),
        "mm" => (v * 9.6 / 2.54, "px"),
        "q" => (v * 2.4 / 2.54, "px"),
        "%" | "em" | "ex" | "rem" | "ch" | "vw" | "vh" | "vmin" | "vmax" => (v, u.as_str()),
        _ => return None,
    };
    Some((T::N(v, u.to_string()), &r[e..]))
}

/// A list whose items are separated by white space and at most one comma.
fn comma_list<'a>(s: &'a str, item: impl Fn(&'a str) -> Option<(T, &'a str)>) -> Option<Vec<T>> {
    let mut rest = s.trim_matches(ws);
    let mut out = vec![];
    while !rest.is_empty() {
        if !out.is_empty() {
            rest = rest.trim_start_matches(ws);
            if let Some(r) = rest.strip_prefix(',') {
                rest = r.trim_start_matches(ws);
            }
        }
        let (t, r) = item(rest)?;
        out.push(t);
        rest = r;
    }
    Some(out)
}

fn plain(s: &str) -> Option<(T, &str)> {
    lead(s).map(|(v, r)| (T::N(v, "num".into()), r))
}

fn word(s: &str) -> T {
    T::W(s.to_string())
}

/// Seconds of a clock value.
fn clock(s: &str) -> Option<f64> {
    if s.starts_with(['+', '-']) || s.contains(['e', 'E']) {
        return None;
    }
    let parts: Vec<&str> = s.split(':').collect();
    let two = |p: &str| -> Option<f64> {
        let v = (p.len() == 2 && p.bytes().all(|b| b.is_ascii_digit())).then(|| p.parse::<f64>().unwrap())?;
        (v < 60.0).then_some(v)
    };
    let secs = |p: &str| -> Option<f64> {
        let (w, f) = p.split_once('.').unwrap_or((p, "0"));
        if f.is_empty() || !f.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        Some(two(w)? + format!("0.{f}").parse::<f64>().ok()?)
    };
    match parts.len() {
        3 => {
            if parts[0].is_empty() || !parts[0].bytes().all(|b| b.is_ascii_digit()) {
                return None;
            }
            Some(parts[0].parse::<f64>().ok()? * 3600.0 + two(parts[1])? * 60.0 + secs(parts[2])?)
        }
        2 => Some(two(parts[0])? * 60.0 + secs(parts[1])?),
        _ => {
            let (v, u) = lead(s)?;
            Some(
                v * match u {
                    "h" => 3600.0,
                    "min" => 60.0,
                    "s" | "" => 1.0,
                    "ms" => 0.001,
                    _ => return None,
                },
            )
        }
    }
}

fn begin(s: &str) -> Option<Vec<T>> {
    let mut out = vec![];
    for part in s.split(';') {
        let p = part.trim_matches(ws);
        if p.is_empty() {
            return None;
        }
        out.push(word(";"));
        if p == "indefinite" {
            out.push(word(p));
            continue;
        }
        if let Some(r) = p.strip_prefix("wallclock(") {
            out.push(T::W(format!("wallclock {}", r.strip_suffix(')')?.trim_matches(ws))));
            continue;
        }
        let signed = |p: &str| -> Option<f64> {
            let p = p.trim_matches(ws);
            if p.is_empty() {
                return Some(0.0);
            }
            let (s, r) = if let Some(r) = p.strip_prefix('-') { (-1.0, r) } else { (1.0, p.strip_prefix('+')?) };
            Some(s * clock(r.trim_start_matches(ws))?)
        };
        if let Some(v) = clock(p).or_else(|| if p.starts_with(['+', '-']) { signed(p) } else { None }) {
            out.push(T::N(v, "s".into()));
            continue;
        }
        if let Some(r) = p.strip_prefix("accessKey(") {
            let c = r.chars().next()?;
            let r = r[c.len_utf8()..].strip_prefix(')')?;
            out.push(T::W(format!("key {c}")));
            out.push(T::N(signed(r)?, "s".into()));
            continue;
        }
        // A name, an event, or both; a hyphen in an identifier is escaped
        let mut chars = p.char_indices().peekable();
        let mut end = p.len();
        while let Some((i, c)) = chars.next() {
            if c == '\\' {
                chars.next();
            } else if matches!(c, '+' | '-' | '(') || ws(c) {
                end = i;
                break;
            }
        }
        let (name, mut rest) = p.split_at(end);
        let (id, ev) = name.rsplit_once('.').map_or((None, name), |(a, b)| (Some(a), b));
        if ev.is_empty() || id == Some("") || name.contains([':', ',', '!', '%', '/']) || name.starts_with(|c: char| c.is_ascii_digit()) {
            return None;
        }
        let mut text = format!("{}|{ev}", id.unwrap_or(""));
        if ev == "repeat" && rest.starts_with('(') {
            let (n, r) = rest[1..].split_once(')')?;
            if n.is_empty() || !n.bytes().all(|b| b.is_ascii_digit()) {
                return None;
            }
            text += &format!("({})", n.parse::<u64>().ok()?);
            rest = r;
        }
        out.push(T::W(text));
        out.push(T::N(signed(rest)?, "s".into()));
    }
    Some(out)
}

fn url(s: &str) -> Option<(String, &str)> {
    let r = s.strip_prefix("url(")?;
    let r = r.trim_start_matches(ws);
    if let Some(q) = r.chars().next().filter(|c| matches!(c, '"' | '\'')) {
        let e = r[1..].find(q)? + 1;
        let rest = r[e + 1..].trim_start_matches(ws).strip_prefix(')')?;
        return Some((r[1..e].to_string(), rest));
    }
    let e = r.find(')')?;
    let u = r[..e].trim_end_matches(ws);
    if u.contains(|c: char| ws(c) || matches!(c, '"' | '\'' | '(')) {
        return None;
    }
    Some((u.to_string(), &r[e + 1..]))
}

fn color(s: &str) -> Option<T> {
    let l = s.to_ascii_lowercase();
    if l == "currentcolor" {
        return Some(word("currentcolor"));
    }
    render::color(s, [0.0; 4]).map(T::C)
}

/// What a value means, or nothing when it is not a value of its kind.
fn meaning(k: K, v: &str) -> Option<Vec<T>> {
    let t = v.trim_matches(ws);
    let l = t.to_ascii_lowercase();
    let presentation = matches!(
        k,
        Css(_) | Opacity | Color | Paint | Refs | Dashes | FontSize | FontWeight | FontFamily | Spacing | BaselineShift | Decoration | PaintOrder | Origin
    );
    if presentation && matches!(l.as_str(), "inherit" | "initial" | "unset") {
        return Some(vec![T::W(l)]);
    }
    let length = |s: &str| len(s).filter(|x| x.1.is_empty()).map(|x| x.0);
    let one = |t: Option<T>| t.map(|t| vec![t]);
    match k {
        Number => one(num(t).map(|n| T::N(n, "num".into()))),
        Integer => {
            if t.contains(['.', 'e', 'E']) {
                return None;
            }
            one(num(t).map(|n| T::N(n, "num".into())))
        }
        Length => one(length(t)),
        LengthAuto => one(if l == "auto" { Some(word("auto")) } else { length(t) }),
        NumOptNum => comma_list(t, plain).filter(|l| matches!(l.len(), 1 | 2)),
        Numbers => comma_list(t, plain),
        Lengths => comma_list(t, len),
        NumbersSemi => {
            let mut out = vec![];
            for p in t.split(';') {
                out.push(T::N(num(p)?, "num".into()));
            }
            Some(out)
        }
        Splines => {
            let mut out = vec![];
            for p in t.split(';') {
                let l = comma_list(p, plain)?;
                if l.len() != 4 {
                    return None;
                }
                out.extend(l);
            }
            Some(out)
        }
        Orient => match t {
            "auto" | "auto-start-reverse" => Some(vec![word(t)]),
            _ => {
                let (v, u) = lead(t)?;
                let f = match u.to_ascii_lowercase().as_str() {
                    "" | "deg" => 1.0,
                    "rad" => 180.0 / std::f64::consts::PI,
                    "grad" => 0.9,
                    "turn" => 360.0,
                    _ => return None,
                };
                Some(vec![T::N(v * f, "deg".into())])
            }
        },
        AnimRotate => match t {
            "auto" | "auto-reverse" => Some(vec![word(t)]),
            _ => one(num(t).map(|n| T::N(n, "num".into()))),
        },
        Enum(w) => w.contains(&t).then(|| vec![word(t)]),
        Css(w) => {
            let canon = match l.as_str() {
                // Old names of the same writing modes.
                "lr" | "lr-tb" | "rl" | "rl-tb" if w.contains(&"lr-tb") => "horizontal-tb",
                "100%" if w.contains(&"condensed") => return Some(vec![word("normal")]),
                "50%" if w.contains(&"condensed") => return Some(vec![word("ultra-condensed")]),
                "62.5%" if w.contains(&"condensed") => return Some(vec![word("extra-condensed")]),
                "75%" if w.contains(&"condensed") => return Some(vec![word("condensed")]),
                "87.5%" if w.contains(&"condensed") => return Some(vec![word("semi-condensed")]),
                "112.5%" if w.contains(&"condensed") => return Some(vec![word("semi-expanded")]),
                "125%" if w.contains(&"condensed") => return Some(vec![word("expanded")]),
                "150%" if w.contains(&"condensed") => return Some(vec![word("extra-expanded")]),
                "200%" if w.contains(&"condensed") => return Some(vec![word("ultra-expanded")]),
                "tb" | "tb-rl" if w.contains(&"lr-tb") => "vertical-rl",
                x => x,
            };
            w.iter().any(|w| w.eq_ignore_ascii_case(&l)).then(|| vec![word(canon)])
        }
        Opacity => {
            let v = match t.strip_suffix('%') {
                Some(p) => num(p)? / 100.0,
                None => num(t)?,
            };
            Some(vec![T::N(v.clamp(0.0, 1.0), "num".into())])
        }
        Percentage => Some(vec![T::N(
            match t.strip_suffix('%') {
                Some(p) => num(p)? / 100.0,
                None => num(t)?,
            },
            "num".into(),
        )]),
        Color => one(color(t)),
        Paint => match l.as_str() {
            "none" | "context-fill" | "context-stroke" => Some(vec![T::W(l)]),
            _ => {
                if let Some((u, r)) = url(t) {
                    let r = r.trim_matches(ws);
                    let mut out = vec![T::W(format!("url {u}"))];
                    match r.to_ascii_lowercase().as_str() {
                        "" => {}
                        "none" => out.push(word("none")),
                        _ => out.push(color(r)?),
                    }
                    return Some(out);
                }
                one(color(t))
            }
        },
        Refs => {
            if l == "none" {
                return Some(vec![word("none")]);
            }
            url(t).filter(|u| u.1.is_empty()).map(|u| vec![T::W(format!("url {}", u.0))])
        }
        Dashes => {
            if l == "none" {
                return Some(vec![word("none")]);
            }
            comma_list(t, len).filter(|l| !l.is_empty())
        }
        FontSize => {
            if ["xx-small", "x-small", "small", "medium", "large", "x-large", "xx-large", "smaller", "larger"].contains(&l.as_str()) {
                return Some(vec![T::W(l)]);
            }
            one(length(t))
        }
        FontWeight => Some(vec![match l.as_str() {
            "normal" => T::N(400.0, "num".into()),
            "bold" => T::N(700.0, "num".into()),
            "bolder" | "lighter" => T::W(l),
            _ => T::N(num(t).filter(|v| (1.0..=1000.0).contains(v))?, "num".into()),
        }]),
        FontFamily => {
            let mut out = vec![];
            for p in t.split(',') {
                let p = p.trim_matches(ws);
                if let Some(q) = p.chars().next().filter(|c| matches!(c, '"' | '\'')) {
                    let n = p[1..].strip_suffix(q)?;
                    if n.contains(['"', '\'', '\\']) {
                        return None;
                    }
                    let generic = ["serif", "sans-serif", "monospace"].contains(&n);
                    out.push(T::W(format!("{}{n}", if generic { "quoted " } else { "" })));
                } else {
                    if p.is_empty() || !p.split(ws).all(|w| w.is_empty() || w.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && w.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_')) {
                        return None;
                    }
                    out.push(T::W(p.split(ws).filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" ")));
                }
            }
            Some(out)
        }
        Spacing => {
            if l == "normal" {
                return Some(vec![T::N(0.0, "px".into())]);
            }
            one(length(t))
        }
        BaselineShift => {
            if l == "baseline" {
                return Some(vec![T::N(0.0, "px".into())]);
            }
            if ["sub", "super", "top", "center", "bottom"].contains(&l.as_str()) {
                return Some(vec![T::W(l)]);
            }
            one(length(t))
        }
        Clock => one(clock(t).map(|c| T::N(c, "s".into()))),
        ClockOr(w) => {
            if w.split('|').any(|w| w == t) {
                return Some(vec![word(t)]);
            }
            one(clock(t).map(|c| T::N(c, "s".into())))
        }
        RepeatCount => {
            if t == "indefinite" {
                return Some(vec![word(t)]);
            }
            one(num(t).filter(|v| *v > 0.0).map(|n| T::N(n, "num".into())))
        }
        Begin => begin(t),
        ViewBox => comma_list(t, plain).filter(|l| l.len() == 4),
        // As in path data, everything before the first error is drawn.
        Points => {
            let mut rest = t;
            let mut out = vec![];
            loop {
                if !out.is_empty() {
                    rest = rest.trim_start_matches(ws);
                    if let Some(r) = rest.strip_prefix(',') {
                        rest = r.trim_start_matches(ws);
                    }
                }
                let Some((v, r)) = plain(rest) else { break };
                out.push(v);
                rest = r;
            }
            if out.len() % 2 == 1 {
                out.pop();
            }
            Some(out)
        }
        Par => {
            let mut p = t.split(ws).filter(|p| !p.is_empty()).peekable();
            if p.peek() == Some(&"defer") {
                return None;
            }
            let align = p.next()?;
            let ok = align == "none"
                || align.len() == 8 && matches!(&align[..4], "xMin" | "xMid" | "xMax") && matches!(&align[4..], "YMin" | "YMid" | "YMax");
            let slice = match p.next() {
                None | Some("meet") => "meet",
                Some("slice") => "slice",
                _ => return None,
            };
            if !ok || p.next().is_some() {
                return None;
            }
            Some(vec![T::W(if align == "none" { "none".into() } else { format!("{align} {slice}") })])
        }
        RefX | RefY => {
            let w = if k == RefX { ["left", "center", "right"] } else { ["top", "center", "bottom"] };
            if w.contains(&t) {
                return Some(vec![word(t)]);
            }
            one(length(t))
        }
        Transform => render::transform(t).map(|m| vec![T::V(m.0.to_vec())]),
        Tokens => Some(t.split(ws).filter(|w| !w.is_empty()).map(word).collect()),
        Verbatim => Some(vec![word(t)]),
        Decoration => {
            if l == "none" {
                return Some(vec![word("none")]);
            }
            let mut w: Vec<&str> = l.split(ws).filter(|w| !w.is_empty()).collect();
            w.sort_unstable();
            (!w.is_empty() && w.windows(2).all(|p| p[0] != p[1]) && w.iter().all(|w| ["underline", "overline", "line-through", "blink"].contains(w))).then(|| w.iter().map(|w| word(w)).collect())
        }
        PaintOrder => {
            if l == "normal" {
                return Some(vec![word("fill"), word("stroke"), word("markers")]);
            }
            let mut w: Vec<&str> = l.split(ws).filter(|w| !w.is_empty()).collect();
            if w.is_empty() || w.iter().any(|x| !["fill", "stroke", "markers"].contains(x) || w.iter().filter(|y| y == &x).count() > 1) {
                return None;
            }
            for x in ["fill", "stroke", "markers"] {
                if !w.contains(&x) {
                    w.push(x);
                }
            }
            Some(w.into_iter().map(word).collect())
        }
        Origin => {
            let p: Vec<&str> = l.split(ws).filter(|w| !w.is_empty()).collect();
            let pct = |w: &str, a: &str, b: &str| -> Option<T> {
                if w == a {
                    Some(T::N(0.0, "%".into()))
                } else if w == b {
                    Some(T::N(100.0, "%".into()))
                } else if w == "center" {
                    Some(T::N(50.0, "%".into()))
                } else {
                    length(w)
                }
            };
            match p.as_slice() {
                [a] if matches!(*a, "top" | "bottom") => Some(vec![T::N(50.0, "%".into()), pct(a, "top", "bottom")?]),
                [a] => Some(vec![pct(a, "left", "right")?, T::N(50.0, "%".into())]),
                [a, b] => match (pct(a, "left", "right"), pct(b, "top", "bottom")) {
                    (Some(x), Some(y)) => Some(vec![x, y]),
                    _ => {
                        if len(a).is_some() || len(b).is_some() {
                            return None;
                        }
                        Some(vec![pct(b, "left", "right")?, pct(a, "top", "bottom")?])
                    }
                },
                _ => None,
            }
        }
    }
}

// ---------------------------------------------------------------- generation

fn number(s: &mut Src) -> String {
    match s.weighted(&[6, 3]) {
        0 => {
            let v = gens::coord(s);
            let t = format!("{}", v.abs());
            let t = match s.weighted(&[6, 2, 1, 1, 1]) {
                0 => t,
                1 => t.strip_prefix('0').filter(|r| r.starts_with('.')).map(str::to_string).unwrap_or(t),
                2 => format!("{:e}", v.abs()),
                3 => format!("0{t}"),
                _ => {
                    if t.contains('.') {
                        format!("{t}0")
                    } else {
                        format!("{t}.0")
                    }
                }
            };
            format!("{}{t}", if v < 0.0 { "-" } else if s.chance(1, 15) { "+" } else { "" })
        }
        _ => {
            // Within single precision and what is printed without loss of the small end.
            let n = gens::number_text(s);
            let v: f64 = n.parse().unwrap_or(0.0);
            if v != 0.0 && !(1e-6..1e15).contains(&v.abs()) { "0.25".into() } else { n }
        }
    }
}

fn unit_length(s: &mut Src) -> String {
    let mut n = number(s);
    if n.parse::<f64>().unwrap_or(0.0).abs() > 1e6 {
        // Percentages are kept as integers by the CSS library.
        n = "12".into();
    }
    let u = *s.pick(&["", "", "", "px", "%", "em", "ex", "pt", "pc", "in", "cm", "mm", "rem", "ch", "vw", "vh", "Q", "PX", "vmin", "vmax"]);
    format!("{n}{u}")
}

fn sep(s: &mut Src) -> &'static str {
    s.pick(&[" ", " ", ",", ", ", " ,", "  ", " , ", "\n"])
}

fn many(s: &mut Src, n: usize, f: impl Fn(&mut Src) -> String) -> String {
    let mut out = String::new();
    for i in 0..n {
        let v = f(s);
        if i > 0 {
            let tight = v.starts_with('-') && !out.ends_with(|c: char| matches!(c, 'e' | 'E')) && s.chance(1, 3);
            if !tight {
                out.push_str(sep(s));
            }
        }
        out.push_str(&v);
    }
    out
}

fn hex(s: &mut Src, n: usize) -> String {
    (0..n).map(|_| *s.pick(&['0', '1', '7', '8', 'a', 'b', 'c', 'f', 'F', 'A', '3', '3'])).collect()
}

fn color_text(s: &mut Src) -> String {
    match s.weighted(&[3, 2, 2, 1, 1, 2, 1, 1, 1, 1]) {
        0 => {
            let n = s.pick(colors::NAMES).0;
            match s.weighted(&[5, 1, 1]) {
                0 => n.into(),
                1 => n.to_uppercase(),
                _ => {
                    let mut c: Vec<char> = n.chars().collect();
                    c[0] = c[0].to_ascii_uppercase();
                    c.into_iter().collect()
                }
            }
        }
        1 => format!("#{}", hex(s, 3)),
        2 => {
            if s.chance(1, 3) {
                let h: String = (0..3).map(|_| hex(s, 1).repeat(2)).collect();
                format!("#{h}")
            } else {
                format!("#{}", hex(s, 6))
            }
        }
        3 => format!("#{}", hex(s, 4)),
        4 => format!("#{}", hex(s, 8)),
        5 => {
            let c: Vec<String> = (0..3).map(|_| s.int(0, 255).to_string()).collect();
            if s.chance(1, 4) { format!("rgb({})", c.join(" ")) } else { format!("rgb({})", c.join(s.pick(&[",", ", ", " , "]))) }
        }
        6 => {
            let c: Vec<String> = (0..3).map(|_| format!("{}%", s.int(0, 20) * 5)).collect();
            format!("rgb({})", c.join(","))
        }
        7 => {
            let c: Vec<String> = (0..3).map(|_| s.int(0, 255).to_string()).collect();
            format!("rgba({},{})", c.join(","), s.pick(&["1", "0", ".5", "0.25", "50%", "1.5"]))
        }
        8 => format!("hsl({},{}%,{}%)", s.int(0, 359), s.int(0, 10) * 10, s.int(0, 10) * 10),
        _ => s.pick(&["currentColor", "currentcolor", "transparent", "CURRENTCOLOR"]).to_string(),
    }
}

fn clock_text(s: &mut Src) -> String {
    match s.weighted(&[5, 2, 2]) {
        0 => {
            let n = match s.weighted(&[3, 2]) {
                0 => s.int(0, 200).to_string(),
                _ => format!("{}", s.int(1, 9999) as f64 / 100.0),
            };
            format!("{n}{}", s.pick(&["s", "s", "", "ms", "min", "h"]))
        }
        n => {
            let frac = if s.chance(1, 3) { format!(".{}", s.pick(&["5", "25", "05", "125", "50"])) } else { String::new() };
            let ms = format!("{:02}:{:02}{frac}", s.int(0, 59), s.int(0, 59));
            if n == 1 { ms } else { format!("{}:{ms}", s.pick(&["00", "01", "2", "10", "123", "09"])) }
        }
    }
}

fn begin_text(s: &mut Src) -> String {
    let n = 1 + s.weighted(&[5, 3, 1]);
    let mut out = String::new();
    for i in 0..n {
        if i > 0 {
            out.push_str(s.pick(&[";", "; ", " ; ", ";\n"]));
        }
        let offset = |s: &mut Src| {
            if s.chance(1, 2) {
                let c = clock_text(s);
                format!("{}{}{c}", s.pick(&["+", "-", " + ", " - ", "+ "]).trim_end_matches(|c| c == '\u{0}'), "")
            } else {
                String::new()
            }
        };
        match s.weighted(&[3, 3, 3, 1, 1, 1, 1]) {
            0 => {
                let c = clock_text(s);
                out += &format!("{}{c}", s.pick(&["", "", "+", "-"]));
            }
            1 => out += &format!("{}.{}{}", s.pick(&["a", "anim1", "b_2", "é"]), s.pick(&["begin", "end"]), offset(s)),
            2 => out += &format!("{}{}{}", s.pick(&["", "a.", "btn.", "b_2."]), s.pick(&["click", "mouseover", "focusin", "repeat", "beginEvent", "DOMActivate", "begin", "end"]), offset(s)),
            3 => out += &format!("{}repeat({}){}", s.pick(&["", "a.", "anim1."]), s.int(0, 12), offset(s)),
            4 => out += &format!("accessKey({}){}", s.pick(&["a", "A", "1", "é", "-"]), offset(s)),
            5 => out += s.pick(&["wallclock(2020-01-01T00:00:00Z)", "wallclock(10:20)", "wallclock(2003-05-29)"]),
            _ => out += "indefinite",
        }
    }
    out
}

fn url_text(s: &mut Src) -> String {
    let u = *s.pick(&["#a", "#a", "#b_1", "#é", "a.svg#b", "#a.b", "#a:b", "#-x"]);
    match s.weighted(&[4, 2, 2, 1]) {
        0 => format!("url({u})"),
        1 => format!("url('{u}')"),
        2 => format!("url(\"{u}\")"),
        _ => format!("url( {u} )"),
    }
}

fn case(s: &mut Src, w: &str) -> String {
    match s.weighted(&[8, 1, 1]) {
        0 => w.to_string(),
        1 => w.to_uppercase(),
        _ => w.to_lowercase(),
    }
}

fn value(s: &mut Src, k: K) -> String {
    let presentation = matches!(k, Css(_) | Opacity | Color | Paint | Refs | Dashes | FontSize | FontWeight | FontFamily | Spacing | BaselineShift | Decoration | PaintOrder);
    if presentation && s.chance(1, 12) {
        return s.pick(&["inherit", "initial", "unset"]).to_string();
    }
    match k {
        Number => number(s),
        Integer => {
            let v = match s.weighted(&[3, 2, 1]) {
                0 => s.int(0, 20),
                1 => s.int(0, 100_000),
                _ => s.int(0, 2_147_483_647),
            };
            format!("{}{v}", s.pick(&["", "", "-", "+", "0"]))
        }
        Length => unit_length(s),
        LengthAuto => {
            if s.chance(1, 8) {
                "auto".into()
            } else {
                unit_length(s)
            }
        }
        NumOptNum => {
            let n = s.us(2) + 1;
            many(s, n, number)
        }
        Numbers => {
            let n = 1 + s.us(8);
            many(s, n, number)
        }
        Lengths => {
            let n = 1 + s.us(5);
            many(s, n, unit_length)
        }
        NumbersSemi => {
            let n = 1 + s.us(5);
            (0..n).map(|_| number(s)).collect::<Vec<_>>().join(s.pick(&[";", "; ", " ; "]))
        }
        Splines => {
            let n = 1 + s.us(3);
            (0..n).map(|_| many(s, 4, |s| format!("{}", s.int(0, 20) as f64 / 20.0))).collect::<Vec<_>>().join(s.pick(&[";", "; ", " ; "]))
        }
        Orient => match s.weighted(&[1, 1, 4]) {
            0 => "auto".into(),
            1 => "auto-start-reverse".into(),
            _ => {
                let n = unit_length(s);
                let n = n.trim_end_matches(|c: char| c.is_ascii_alphabetic() || c == '%');
                format!("{n}{}", s.pick(&["", "", "deg", "rad", "grad", "turn"]))
            }
        },
        AnimRotate => match s.weighted(&[1, 1, 4]) {
            0 => "auto".into(),
            1 => "auto-reverse".into(),
            _ => number(s),
        },
        Enum(w) | Css(w) => {
            let w = *s.pick(w);
            case(s, w)
        }
        Opacity | Percentage => match s.weighted(&[3, 2, 1]) {
            0 => format!("{}", s.int(0, 100) as f64 / 100.0),
            1 => format!("{}%", s.int(0, 100)),
            _ => number(s),
        },
        Color => color_text(s),
        Paint => match s.weighted(&[6, 1, 1, 3, 2]) {
            0 => color_text(s),
            1 => s.pick(&["none", "NONE", "none"]).to_string(),
            2 => s.pick(&["context-fill", "context-stroke"]).to_string(),
            3 => url_text(s),
            _ => format!("{} {}", url_text(s), if s.chance(1, 3) { "none".into() } else { color_text(s) }),
        },
        Refs => {
            if s.chance(1, 5) {
                "none".into()
            } else {
                url_text(s)
            }
        }
        Dashes => {
            if s.chance(1, 6) {
                return "none".into();
            }
            let n = 1 + s.us(5);
            many(s, n, |s| unit_length(s).trim_start_matches('-').to_string())
        }
        FontSize => {
            if s.chance(1, 3) {
                s.pick(&["xx-small", "x-small", "small", "medium", "large", "x-large", "xx-large", "smaller", "larger"]).to_string()
            } else {
                unit_length(s).trim_start_matches('-').to_string()
            }
        }
        FontWeight => s.pick(&["normal", "bold", "bolder", "lighter", "100", "400", "700", "900", "250", "1", "1000", "Bold"]).to_string(),
        FontFamily => {
            let n = 1 + s.us(3);
            (0..n)
                .map(|_| *s.pick(&["serif", "sans-serif", "monospace", "Arial", "'Arial'", "\"Times New Roman\"", "Times New Roman", "'a b'", "\"serif\"", "'x1'", "cursive", "Open Sans", "'Foo-Bar'"]))
                .collect::<Vec<_>>()
                .join(s.pick(&[",", ", ", " , "]))
        }
        Spacing => {
            if s.chance(1, 4) {
                "normal".into()
            } else {
                unit_length(s)
            }
        }
        BaselineShift => {
            if s.chance(1, 2) {
                s.pick(&["baseline", "sub", "super", "top", "center", "bottom"]).to_string()
            } else {
                unit_length(s)
            }
        }
        Clock => clock_text(s),
        ClockOr(w) => {
            if s.chance(1, 4) {
                let w: Vec<&str> = w.split('|').collect();
                s.pick(&w).to_string()
            } else {
                clock_text(s)
            }
        }
        RepeatCount => {
            if s.chance(1, 3) {
                "indefinite".into()
            } else {
                number(s)
            }
        }
        Begin => begin_text(s),
        ViewBox => many(s, 4, number),
        Points => {
            let n = 1 + s.us(4);
            many(s, n * 2, number)
        }
        Par => {
            let a = if s.chance(1, 5) { "none".to_string() } else { format!("x{}Y{}", s.pick(&["Min", "Mid", "Max"]), s.pick(&["Min", "Mid", "Max"])) };
            format!("{a}{}", s.pick(&["", "", " meet", " slice", "  slice"]))
        }
        RefX => if s.chance(1, 3) { s.pick(&["left", "center", "right"]).to_string() } else { unit_length(s) },
        RefY => if s.chance(1, 3) { s.pick(&["top", "center", "bottom"]).to_string() } else { unit_length(s) },
        Transform => {
            let n = 1 + s.us(3);
            let mut out = String::new();
            for i in 0..n {
                if i > 0 {
                    out.push_str(s.pick(&["", " ", ", ", ","]));
                }
                let c = |s: &mut Src| {
                    let v = gens::coord(s);
                    format!("{v}")
                };
                let sc = |s: &mut Src| format!("{}", *s.pick(&[1.0, 2.0, 0.5, -1.0, 1.25, 0.1]));
                let an = |s: &mut Src| format!("{}", s.int(-12, 12) * 5);
                match s.weighted(&[3, 2, 2, 2, 1, 1, 1]) {
                    0 => {
                        let n = 1 + s.us(2);
                        out += &format!("translate({})", many(s, n, c));
                    }
                    1 => {
                        let n = 1 + s.us(2);
                        out += &format!("scale({})", many(s, n, sc));
                    }
                    2 => out += &format!("rotate({})", an(s)),
                    3 => out += &format!("rotate({}{}{})", an(s), sep(s), many(s, 2, c)),
                    4 => out += &format!("skewX({})", an(s)),
                    5 => out += &format!("skewY( {} )", an(s)),
                    _ => out += &format!("matrix({})", many(s, 6, sc)),
                }
            }
            out
        }
        Tokens => {
            let n = 1 + s.us(4);
            (0..n).map(|_| *s.pick(&["a", "b", "a-b", "é", "x1", "A", "a:b", "_"])).collect::<Vec<_>>().join(s.pick(&[" ", " ", "  ", "\n"]))
        }
        Verbatim => {
            let n = 1 + s.us(3);
            (0..n).map(|_| *s.pick(&["a", "#a", "10", " ", "é", "0.50", "url(#a)", ";", ",", "'", "\"", "<", "&", "RED", "  ", "+5", "in", "SourceGraphic", "http://a/?b=c", "1.10", "%20", "\\"])).collect()
        }
        Decoration => {
            if s.chance(1, 4) {
                return "none".into();
            }
            let mut w = vec!["underline", "overline", "line-through"];
            let n = 1 + s.us(3);
            (0..n).map(|_| w.remove(s.us(w.len()))).collect::<Vec<_>>().join(" ")
        }
        PaintOrder => {
            if s.chance(1, 5) {
                return "normal".into();
            }
            let mut w = vec!["fill", "stroke", "markers"];
            let n = 1 + s.us(3);
            (0..n).map(|_| w.remove(s.us(w.len()))).collect::<Vec<_>>().join(" ")
        }
        Origin => match s.weighted(&[2, 2, 2]) {
            0 => unit_length(s),
            1 => format!("{} {}", unit_length(s), unit_length(s)),
            _ => s.pick(&["left", "center", "right", "top", "bottom", "left top", "right bottom", "center 10px", "10% bottom", "top left"]).to_string(),
        },
    }
}

/// Text that is not a value, made from one.
fn spoil(s: &mut Src, v: &str) -> String {
    match s.weighted(&[3, 2, 2, 1, 1, 1, 1]) {
        0 => format!("{v} bogus"),
        1 => format!("{v}bogus"),
        2 => format!("bogus {v}"),
        3 => format!("{v},"),
        4 => format!(",{v}"),
        5 => s.pick(&["bogus", "10bogus", "1..2", "--1", "#ggg", "1,,2", "rgb(1", "1 2 bogus", "Infinity", "NaN", "0x10", "1e", "!", "{}", "a b c"]).to_string(),
        _ => format!("{v} {v} !"),
    }
}

#[derive(Serialize, Deserialize, Clone)]
struct Input {
    el: String,
    attr: String,
    value: String,
}

struct C07;

fn escape(v: &str) -> String {
    v.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;").replace('\n', "&#10;").replace('\t', "&#9;")
}

fn print(el: &str, attr: &str, v: &str, minify: bool) -> Result<String, Fail> {
    let doc = if el == "svg" {
        format!(r#"<svg xmlns="http://www.w3.org/2000/svg" {attr}="{}"/>"#, escape(v))
    } else {
        format!(r#"<svg xmlns="http://www.w3.org/2000/svg"><{el} {attr}="{}"/></svg>"#, escape(v))
    };
    let out: String = guarded(|| match parse(&doc, |d, _| d.serialize_with_options(Options { minify, ..Options::original() })) {
        Ok(Ok(o)) => Ok(o),
        Ok(Err(e)) => fail(format!("{attr}: cannot be printed"), format!("{v:?}: {e}")),
        Err(e) => fail(format!("{attr}: cannot be read"), format!("{v:?}: {e}")),
    })?;
    let mut nodes = xml::parse(&out).map_err(|e| Fail::new(format!("{attr}: printed document cannot be read"), format!("{out}: {e}")))?;
    let root = xml::root(&mut nodes).ok_or_else(|| Fail::new("no root", out.clone()))?;
    let e = if el == "svg" {
        root
    } else {
        match root.kids.iter_mut().find_map(|n| if let xml::Node::El(e) = n { Some(e) } else { None }) {
            Some(e) => e,
            None => return Err(Fail::new("element lost", out)),
        }
    };
    match e.get(attr) {
        Some(v) => Ok(v.to_string()),
        None => Err(Fail::new(format!("{attr}: attribute lost"), format!("{v:?}: {out}"))),
    }
}

impl Prop for C07 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> String {
        "the value is valid for its attribute and is printed with a different spelling, or is not valid".into()
    }
    fn cases(&self) -> (u64, u64) {
        (2_000_000, 40_000_000)
    }
    fn generate(&self, s: &mut Src, _cx: &mut Cx) -> Input {
        let (el, attr, k) = *s.pick(TABLE);
        let mut v = value(s, k);
        if !matches!(k, Verbatim | Tokens) {
            if s.chance(1, 6) {
                v = spoil(s, &v);
                // Readers of points and of the mask shorthand differ on repeated commas.
                if (k == Points || k == Refs) && v.contains(",,") {
                    v = "bogus".into();
                }
            }
            if s.chance(1, 10) {
                v = s.pick(&[" {} ", "{} ", " {}", "\n{}"]).replace("{}", &v);
            }
        }
        Input { el: el.into(), attr: attr.into(), value: v }
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Check {
        let Some(&(_, _, k)) = TABLE.iter().find(|t| t.0 == i.el && t.1 == i.attr) else { return Ok(()) };
        let v = &i.value;
        let kind = format!("{k:?}").split('(').next().unwrap().to_string();
        let m = meaning(k, v);
        cx.label(&format!("{kind}{}", if m.is_some() { "" } else { ": not a value" }));
        for minify in [true, false] {
            let at = format!("{}{}", i.attr, if minify { "" } else { ", not minified" });
            let out = print(&i.el, &i.attr, v, minify)?;
            cx.label_if(out != *v, "printed differently");
            if out != *v || m.is_none() {
                cx.nontrivial((&i.attr, v));
            }
            match &m {
                Some(m) => {
                    let Some(n) = meaning(k, &out) else { return fail(format!("{at}: printed text is not a value"), format!("{} {}: {v:?} became {out:?}", i.el, i.attr)) };
                    if !same(m, &n) {
                        return fail(format!("{at}: meaning changed"), format!("{} {}: {v:?} became {out:?}: {m:?} and {n:?}", i.el, i.attr));
                    }
                }
                None => {
                    if out.trim_matches(ws) != v.trim_matches(ws) {
                        return fail(format!("{at}: text that is not a value changed"), format!("{} {}: {v:?} became {out:?}", i.el, i.attr));
                    }
                }
            }
            let again = print(&i.el, &i.attr, &out, minify)?;
            if again != out {
                return fail(format!("{at}: printing is not stable"), format!("{} {}: {v:?} became {out:?} then {again:?}", i.el, i.attr));
            }
        }
        Ok(())
    }
    fn render(&self, i: &Input) -> String {
        format!("<{} {}=\"{}\"/>", i.el, i.attr, escape(&i.value))
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![("printed differently", 50), ("Begin", 5), ("ClockOr", 5), ("Color", 5), ("Paint", 5), ("Length", 40), ("Number", 40), ("Css", 40), ("Enum: not a value", 5), ("Number: not a value", 5), ("Transform", 5), ("ViewBox", 4), ("Refs", 8)]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["numbers are kept with single precision and printed with six significant digits: 6e-6 of the value is allowed".into()]
    }
}

fn main() {
    pbt::engine::main(C07)
}
