//! Makes documents odd: unknown and misplaced elements, malformed values, foreign namespaces,
//! processing instructions, entities, non-ASCII text and deep nesting.
use crate::docgen::{self, E, K};
use crate::engine::Src;

const NAMES: &[&str] = &[
    "g", "foo", "svg", "x:bar", "style", "script", "a", "defs", "text", "tspan", "textPath", "tref", "title", "desc", "metadata", "foreignObject", "animate", "set", "animateTransform", "animateMotion", "mpath",
    "switch", "symbol", "use", "image", "path", "rect", "circle", "ellipse", "line", "polyline", "polygon", "clipPath", "mask", "pattern", "marker", "linearGradient", "radialGradient", "stop", "filter",
    "feGaussianBlur", "feImage", "view", "cursor", "font", "glyph", "missing-glyph", "h:div", "FOO", "é", "clippath", "solidColor", "hatch", "mesh",
];
const ATTRS: &[&str] = &[
    "id", "class", "style", "d", "points", "transform", "x", "y", "width", "height", "rx", "ry", "r", "cx", "cy", "x1", "y2", "viewBox", "preserveAspectRatio", "fill", "stroke", "stroke-width", "stroke-dasharray",
    "opacity", "fill-opacity", "display", "visibility", "clip-path", "mask", "filter", "marker-start", "marker", "href", "xlink:href", "xlink:title", "xlink:type", "xml:space", "xml:lang", "xmlns:z", "x:foo", "foo",
    "data-x", "aria-label", "role", "onclick", "onload", "begin", "end", "dur", "values", "keyTimes", "keySplines", "attributeName", "from", "to", "by", "repeatCount", "offset", "stop-color", "gradientUnits", "gradientTransform",
    "patternTransform", "spreadMethod", "font-family", "font-size", "text-anchor", "baseline-shift", "enable-background", "version", "baseProfile", "contentScriptType", "requiredFeatures", "systemLanguage", "color",
    "color-interpolation", "overflow", "clip", "cursor", "markerWidth", "orient", "refX", "stdDeviation", "result", "in", "in2", "tableValues", "dx", "dy", "rotate", "textLength", "media", "type", "lang", "tabindex",
    "transform-origin", "vector-effect", "paint-order", "mix-blend-mode", "é",
];
const VALUES: &[&str] = &[
    "", " ", "0", "-1", "1e9", "1e400", "-1e-400", "NaN", "inf", "none", "inherit", "auto", "red", "#fff", "#ffff", "#12", "rgb(1,2", "hsl(0 0% 0%)", "url(#i1)", "url(#)", "url()", "url('#i2')", "#i1", "#", "i1", "javascript:alert(1)",
    "M0 0", "M0 0L1 1", "M0", "L1 1", "M0 0 1e40 1e40Z", "M0 0A1 1 0 1 1 5 5", "10,20 30", "1 2 3 4", "0 0 0 0", "0 0 10", "-5 -5 1e30 1", "translate(1)", "matrix(1 0 0)", "matrix(0 0 0 0 0 0)", "rotate(1e30)", "skewX(90)", "scale(0)",
    "scale(-1)", "translate(1,2) foo(3)", "50%", "1em", "1foo", "calc(1px + 2px)", "var(--x)", "fill:red", "fill:", "fill:red;;stroke:", ":", "{}", "}", "a b  c", "a\tb", "a\nb", "é", "\u{1F600}", "&", "<", "\"", "'", "a;b:c", "@import", "/*",
    "fill:url(#i1)!important", "i1.click", "i1.end+1s; 2s", "indefinite", "wallclock(2000)", "1s", "00:01", "-.5", ".5", "+5", "5.", "0x10", "1,2,,3", "foo.png", "a.jpg", "data:image/png;base64,AAAA", "http://www.w3.org/2000/svg",
    "preserve", "default", "true", "replicate", "sRGB", "linearRGB", "new 0 0 10 10", "accumulate", "1.0", "1.1", "xMidYMid meet", "slice", "text/css", "text/ecmascript", "screen", "print", "sum", "paced", "0;1", "0 0 1 1;0 0 1 1",
];
const TEXTS: &[&str] = &["", " ", "x", " a  b ", "é\u{1F600}", "]]>", "a &amp; b", "\n\t", "{", "}", "a{fill:red}", "#i1{fill:url(#i2)}", "@media print{.a{fill:red}}", "a{", "<b>", "--", "alert(1)", "@import url(a.css);.a{fill:red}", "\u{A0}", "&#9;", ".a:hover{fill:red}", "@font-face{font-family:x;src:url(#i1)}", "@keyframes k{from{fill:red}}", "*{fill:red!important}"];
const RAW: &[&str] = &["<?pi data?>", "<?xml-stylesheet href=\"a.css\"?>", "<![CDATA[x]]>", "<![CDATA[<a>&]]>", "<!-- c -->", "<!---->", "<!--! keep -->", "&#169;", "&lt;", "<?x?>", "<!-- a - - b -->"];

fn count(e: &E) -> usize {
    1 + e.kids.iter().map(|k| if let K::E(e) = k { count(e) } else { 0 }).sum::<usize>()
}

fn nth(e: &mut E, mut n: usize) -> &mut E {
    if n == 0 {
        return e;
    }
    n -= 1;
    for k in e.kids.iter_mut() {
        if let K::E(e) = k {
            let c = count(e);
            if n < c {
                return nth(e, n);
            }
            n -= c;
        }
    }
    unreachable!()
}

fn mutate(s: &mut Src, root: &mut E) {
    let n = count(root);
    let at = s.us(n);
    let e = nth(root, at);
    match s.weighted(&[6, 2, 2, 2, 1, 1, 1, 1]) {
        0 => {
            let (k, v) = (*s.pick(ATTRS), *s.pick(VALUES));
            e.set(k, if k == "xmlns:z" { "urn:z" } else { v });
        }
        1 if at > 0 => e.name = s.pick(NAMES).to_string(),
        2 => {
            let i = s.us(e.kids.len() + 1);
            let mut c = E::new(s.pick(NAMES));
            if s.chance(1, 2) {
                c.set(s.pick(&["id", "class", "fill", "href", "style", "transform"]), *s.pick(VALUES));
            }
            if s.chance(1, 3) {
                c.kids.push(K::T(s.pick(TEXTS).to_string()));
            }
            e.kids.insert(i, K::E(c));
        }
        3 => {
            let i = s.us(e.kids.len() + 1);
            e.kids.insert(i, K::T(s.pick(TEXTS).to_string()));
        }
        4 => {
            let i = s.us(e.kids.len() + 1);
            e.kids.insert(i, K::Raw(s.pick(RAW).to_string()));
        }
        5 if !e.kids.is_empty() => {
            let i = s.us(e.kids.len());
            e.kids.remove(i);
        }
        6 => {
            // deep nesting
            let mut kids = std::mem::take(&mut e.kids);
            for _ in 0..s.int(1, 60) {
                let mut g = E::new("g");
                g.kids = kids;
                kids = vec![K::E(g)];
            }
            e.kids = kids;
        }
        _ => {
            if !e.attrs.is_empty() {
                let i = s.us(e.attrs.len());
                if !e.attrs[i].0.starts_with("xmlns") {
                    e.attrs[i].1 = s.pick(VALUES).to_string();
                }
            }
        }
    }
}

/// A well-formed document with an `svg` root.
pub fn document(s: &mut Src) -> String {
    let mut g = docgen::Gen::new(s, &[]);
    let mut root = g.document(s);
    for (p, u) in [("x", "urn:x"), ("h", "http://www.w3.org/1999/xhtml"), ("xlink", "http://www.w3.org/1999/xlink")] {
        root.set(&format!("xmlns:{p}"), u);
    }
    for _ in 0..s.us(12) {
        mutate(s, &mut root);
    }
    let mut out = String::new();
    if s.chance(1, 6) {
        out.push_str(s.pick(&["<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>\n", "<!-- c -->", "<?pi x?>", "\n"]));
    }
    if s.chance(1, 10) {
        out.push_str(s.pick(&["<!DOCTYPE svg>", "<!DOCTYPE svg PUBLIC \"-//W3C//DTD SVG 1.1//EN\" \"http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd\">", "<!DOCTYPE svg [<!ENTITY e \"x\">]>"]));
    }
    root.print(&mut out);
    if s.chance(1, 10) {
        out.push_str(s.pick(&["\n", "<!-- end -->", "<?end?>"]));
    }
    out
}
