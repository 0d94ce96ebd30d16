//! C13: rewriting transforms keeps the coordinate mapping.
use oxvg_optimiser::Jobs;
use pbt::engine::*;
use pbt::render::{self, M};
use pbt::{dom, geom, jobs, svgpath};
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value, json};

#[derive(Clone, Serialize, Deserialize)]
struct Input {
    /// Name of the attribute holding the list.
    attr: String,
    list: String,
    /// Path data and other attributes, when the transform is applied to a path.
    path: Option<(String, String)>,
    config: Value,
}

struct C13;

type Func = (String, Vec<f64>);

fn funcs(s: &str) -> Option<Vec<Func>> {
    let mut out = vec![];
    let mut rest = s.trim();
    while !rest.is_empty() {
        let open = rest.find('(')?;
        let close = open + rest[open..].find(')')?;
        out.push((rest[..open].trim().to_string(), render::numbers(&rest[open + 1..close])?));
        rest = rest[close + 1..].trim_start();
        rest = rest.strip_prefix(',').unwrap_or(rest).trim_start();
    }
    Some(out)
}

fn matrix(f: &Func) -> Option<M> {
    let a: Vec<String> = f.1.iter().map(|v| format!("{v:?}")).collect();
    render::transform(&format!("{}({})", f.0, a.join(" ")))
}

fn product(fs: &[Func]) -> Option<M> {
    fs.iter().try_fold(M::translate(0.0, 0.0), |m, f| Some(m.mul(&matrix(f)?)))
}

fn norm(m: &M) -> f64 {
    m.0[..4].iter().map(|v| v.abs()).sum()
}

struct Units {
    float: f64,
    deg: f64,
    transform: f64,
}

/// How far a point within `r` of the origin may move when the arguments are rounded by one unit each.
fn allowed(fs: &[Func], u: &Units, r: f64) -> f64 {
    let mut total = 0.0;
    for (i, f) in fs.iter().enumerate() {
        let Some(outer) = product(&fs[..i]) else { return f64::INFINITY };
        let Some(inner) = product(&fs[i + 1..]) else { return f64::INFINITY };
        let reach = norm(&inner) * r + inner.0[4].abs() + inner.0[5].abs();
        let angle = u.deg.to_radians();
        let own = match f.0.as_str() {
            "translate" => 2.0 * u.float,
            "scale" => u.transform * reach,
            "rotate" => {
                let (x, y) = (f.1.get(1).copied().unwrap_or(0.0), f.1.get(2).copied().unwrap_or(0.0));
                angle * (reach + x.abs() + y.abs()) + 4.0 * u.float
            }
            "skewX" | "skewY" => {
                let t = f.1.first().copied().unwrap_or(0.0).to_radians();
                let near = (t.cos().abs() - angle).max(1e-9);
                angle / (near * near) * reach
            }
            _ => 2.0 * u.transform * reach + 2.0 * u.float,
        };
        total += norm(&outer) * own;
    }
    total
}

fn num(s: &mut Src, v: f64) -> String {
    let mut t = format!("{v}");
    if s.chance(1, 6) && t.contains("0.") {
        t = t.replacen("0.", ".", 1);
    }
    if s.chance(1, 20) && v.is_sign_positive() {
        t = format!("+{t}");
    }
    if s.chance(1, 20) {
        t = format!("{v:e}");
    }
    t
}

fn angle(s: &mut Src) -> f64 {
    match s.weighted(&[4, 3, 2, 1]) {
        0 => *s.pick(&[30.0, 45.0, 90.0, -90.0, 180.0, 60.0, -45.0, 0.0, 270.0, 360.0]),
        1 => s.int(-180, 180) as f64,
        2 => s.int(-1800, 1800) as f64 / 10.0,
        _ => s.int(-3_600_000, 3_600_000) as f64 / 10_000.0,
    }
}

fn skew(s: &mut Src) -> f64 {
    match s.weighted(&[4, 2, 1]) {
        0 => *s.pick(&[30.0, 45.0, -45.0, 10.0, 0.0, 60.0]),
        1 => s.int(-70, 70) as f64,
        _ => s.int(-7000, 7000) as f64 / 100.0,
    }
}

fn offset(s: &mut Src) -> f64 {
    match s.weighted(&[3, 3, 2, 1]) {
        0 => s.int(-20, 20) as f64,
        1 => s.int(-500, 500) as f64 / 10.0,
        2 => s.int(-50_000, 50_000) as f64 / 1000.0,
        _ => 0.0,
    }
}

fn factor(s: &mut Src) -> f64 {
    match s.weighted(&[4, 3, 2]) {
        0 => *s.pick(&[2.0, 1.0, -1.0, 0.5, 3.0, -2.0, 1.5]),
        1 => s.int(1, 40) as f64 / 10.0,
        _ => s.int(-4000, 4000) as f64 / 1000.0,
    }
}

fn func(s: &mut Src, previous: &[Func]) -> Func {
    let one = |n: &str, a: Vec<f64>| (n.to_string(), a);
    match s.weighted(&[4, 3, 4, 3, 1, 1, 3, 1]) {
        0 => one("translate", vec![offset(s), offset(s)]),
        1 => one("translate", vec![offset(s)]),
        2 => one("rotate", vec![angle(s)]),
        3 => one("rotate", vec![angle(s), offset(s), offset(s)]),
        4 => one("skewX", vec![skew(s)]),
        5 => one("skewY", vec![skew(s)]),
        6 => {
            if s.chance(1, 2) {
                one("scale", vec![factor(s)])
            } else {
                one("scale", vec![factor(s), factor(s)])
            }
        }
        _ => match s.weighted(&[2, 2, 2]) {
            // a product of others, rounded to some digits
            0 => {
                let fs: Vec<Func> = (0..1 + s.us(3)).map(|_| simple(s)).collect();
                let digits = 10f64.powi(s.int(2, 7) as i32);
                let m = product(&fs).unwrap();
                one("matrix", m.0.iter().map(|v| (v * digits).round() / digits).collect())
            }
            1 => one("matrix", (0..6).map(|i| if i < 4 { factor(s) } else { offset(s) }).collect()),
            _ => match previous.first() {
                // undoes the first function of the list
                Some((n, a)) if n == "translate" => one("translate", a.iter().map(|v| -v).collect()),
                _ => one("matrix", vec![1.0, 0.0, 0.0, 1.0, 0.0, 0.0]),
            },
        },
    }
}

fn simple(s: &mut Src) -> Func {
    match s.us(5) {
        0 => ("translate".into(), vec![offset(s), offset(s)]),
        1 => ("rotate".into(), vec![angle(s)]),
        2 => ("scale".into(), vec![factor(s), factor(s)]),
        3 => ("skewX".into(), vec![skew(s)]),
        _ => ("skewY".into(), vec![skew(s)]),
    }
}

fn list(s: &mut Src, mean: usize) -> String {
    let mut fs: Vec<Func> = vec![];
    let n = 1 + s.weighted(match mean {
        1 => &[6, 3, 2, 1],
        _ => &[3, 4, 3, 2],
    });
    for _ in 0..n {
        let f = func(s, &fs);
        fs.push(f);
    }
    if s.chance(1, 12) {
        // a rotation about a point, spelt out
        let (x, y) = (offset(s), offset(s));
        fs = vec![("translate".into(), vec![x, y]), ("rotate".into(), vec![angle(s)]), ("translate".into(), vec![-x, -y])];
    }
    if s.chance(1, 8) {
        // one matrix, from functions
        let fs2: Vec<Func> = (0..1 + s.us(4)).map(|_| simple(s)).collect();
        let digits = 10f64.powi(s.int(1, 7) as i32);
        fs = vec![("matrix".into(), product(&fs2).unwrap().0.iter().map(|v| (v * digits).round() / digits).collect())];
    }
    let tidy = s.chance(1, 2);
    let mut t = String::new();
    for (i, (n, a)) in fs.iter().enumerate() {
        if i > 0 {
            t += if tidy { " " } else { s.pick(&["", ",", " ", " , ", "\n"]) };
        }
        t += n;
        t += if !tidy && s.chance(1, 8) { " (" } else { "(" };
        if !tidy && s.chance(1, 8) {
            t.push(' ');
        }
        for (k, v) in a.iter().enumerate() {
            let v = num(s, *v);
            if k > 0 {
                if !tidy && v.starts_with(['-', '+']) && s.chance(1, 2) {
                } else {
                    t += if tidy { " " } else { s.pick(&[" ", ",", ", ", " ,", "  "]) };
                }
            }
            t += &v;
        }
        if !tidy && s.chance(1, 8) {
            t.push(' ');
        }
        t.push(')');
    }
    t
}

fn path(s: &mut Src) -> String {
    let c = |s: &mut Src| s.int(-200, 200) as f64 / 10.0;
    let mut t = String::new();
    for i in 0..1 + s.weighted(&[4, 2, 1]) {
        let m = if s.chance(1, 3) { 'm' } else { 'M' };
        if i == 0 || s.chance(4, 5) || !t.ends_with(['z', 'Z']) {
            t += &format!("{m}{} {}", c(s), c(s));
        }
        for _ in 0..1 + s.us(5) {
            let rel = s.chance(1, 2);
            let k = *s.pick(&['L', 'H', 'V', 'C', 'S', 'Q', 'T', 'A', 'L', 'A']);
            let n = svgpath::arity(k);
            let mut a: Vec<f64> = (0..n).map(|_| c(s)).collect();
            if k == 'A' {
                a[0] = s.int(1, 300) as f64 / 10.0;
                a[1] = if s.chance(1, 3) { a[0] } else { (a[0] * *s.pick(&[0.4, 0.5, 0.7, 1.5, 2.0, 2.5]) * 100.0).round() / 100.0 };
                a[2] = if s.chance(1, 2) { 0.0 } else { s.int(-180, 180) as f64 };
                a[3] = s.us(2) as f64;
                a[4] = s.us(2) as f64;
            }
            let k = if rel { k.to_ascii_lowercase() } else { k };
            t.push(k);
            t += &a.iter().map(|v| format!("{v}")).collect::<Vec<_>>().join(" ");
        }
        if s.chance(1, 2) {
            t.push('Z');
        }
    }
    t
}

impl Prop for C13 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> String {
        "the list is valid and not the identity".into()
    }
    fn cases(&self) -> (u64, u64) {
        (1_000_000, 15_000_000)
    }
    fn generate(&self, s: &mut Src, _cx: &mut Cx) -> Input {
        match s.weighted(&[2, 5, 4]) {
            0 => Input { attr: s.pick(&["transform", "gradientTransform", "patternTransform"]).to_string(), list: list(s, 2), path: None, config: json!({}) },
            1 => {
                let mut m = Map::new();
                for k in ["convertToShorts", "matrixToTransform", "shortRotate", "removeUseless", "collapseIntoOne"] {
                    if s.chance(1, 3) {
                        m.insert(k.into(), s.chance(1, 2).into());
                    }
                }
                if s.chance(1, 2) {
                    m.insert("floatPrecision".into(), s.int(1, 6).into());
                }
                if s.chance(1, 2) {
                    m.insert("transformPrecision".into(), s.int(2, 7).into());
                }
                if s.chance(1, 2) {
                    m.insert("degPrecision".into(), s.int(1, 5).into());
                }
                Input { attr: s.pick(&["transform", "gradientTransform", "patternTransform"]).to_string(), list: list(s, 2), path: None, config: json!({ "convertTransform": m }) }
            }
            _ => {
                let mut extra = String::new();
                if s.chance(1, 3) {
                    extra += " stroke=\"red\"";
                    if s.chance(1, 2) {
                        extra += &format!(" stroke-width=\"{}\"", s.int(1, 50) as f64 / 10.0);
                    }
                    if s.chance(1, 4) {
                        extra += s.pick(&[" stroke-dasharray=\"4 2\"", " stroke-dasharray=\"3\" stroke-dashoffset=\"1\"", " stroke-dashoffset=\"2\""]);
                    }
                }
                let list = if extra.is_empty() || s.chance(1, 3) {
                    list(s, 1)
                } else {
                    let k = factor(s);
                    match s.us(3) {
                        0 => format!("scale({k})"),
                        1 => format!("translate({} {}) scale({k} {})", offset(s), offset(s), -k),
                        _ => format!("rotate({}) scale({k})", angle(s)),
                    }
                };
                Input { attr: "transform".into(), list, path: Some((path(s), extra)), config: json!({ "applyTransforms": {} }) }
            }
        }
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Check {
        let before = funcs(&i.list).ok_or_else(|| Fail::new("generator", "list"))?;
        let m = product(&before).ok_or_else(|| Fail::new("generator", "function"))?;
        let esc = i.list.replace('\n', "&#10;");
        let el = match &i.path {
            Some((d, extra)) => format!("<path d=\"{d}\" {}=\"{esc}\"{extra}/>", i.attr),
            None => match i.attr.as_str() {
                "transform" => format!("<g transform=\"{esc}\"/>"),
                "gradientTransform" => format!("<linearGradient gradientTransform=\"{esc}\"/>"),
                _ => format!("<pattern patternTransform=\"{esc}\"/>"),
            },
        };
        let svg = format!("<svg xmlns=\"http://www.w3.org/2000/svg\">{el}</svg>");
        let j = if i.config.as_object().is_some_and(|m| m.is_empty()) { Jobs::none() } else { jobs::config(i.config.clone()).map_err(|e| Fail::new("config", e))? };
        let out = jobs::run(&svg, &j).map_err(|e| Fail::new("error", e))?;
        let d = dom::parse(&out).map_err(|e| Fail::new("malformed", e))?;
        let e = d.els.get(1).ok_or_else(|| Fail::new("element gone", out.clone()))?;
        let text = e.get(&i.attr).unwrap_or("");
        let bad = |what: &str, got: &str| fail(what, format!("{:?} -> {text:?}: {got}\n  output: {out}", i.list));
        let Some(after) = funcs(text) else { return bad("unreadable", "not a transform list") };
        let Some(n) = product(&after) else { return bad("unreadable", "not a transform list") };
        if m != M::translate(0.0, 0.0) {
            cx.nontrivial((&i.attr, &i.list, &i.path, i.config.to_string()));
        }
        cx.label_if(before.len() > 1, "several functions");
        cx.label_if(before.iter().any(|f| f.0 == "matrix"), "matrix");
        cx.label_if(before.iter().any(|f| f.0 == "rotate" && f.1.len() == 3), "rotation about a point");
        let scale = 1.0 + before.iter().map(|f| matrix(f).unwrap().0.iter().map(|v| v.abs()).fold(1.0, f64::max)).product::<f64>();
        // values are printed with six digits
        let largest = before.iter().chain(&after).flat_map(|f| f.1.iter()).map(|v| v.abs()).fold(1.0, f64::max);
        let slack = 1e-5 * scale + allowed(&before, &Units { float: 1e-5 * largest.max(10.0), deg: 1e-3, transform: 1e-5 * largest }, 14.2);
        let points = [(0.0, 0.0), (10.0, 0.0), (0.0, 10.0), (10.0, -10.0), (-7.0, 9.0)];
        let far = points.iter().map(|p| geom::dist(m.apply(*p), n.apply(*p))).fold(0.0, f64::max);
        if let Some((data, extra)) = &i.path {
            cx.label("applied to a path");
            let src = svgpath::read(data);
            let res = svgpath::read(e.get("d").unwrap_or(""));
            if res.error.is_some() {
                return bad("path unreadable", "");
            }
            if geom::min_arc_chord(&src.cmds) < 1e-3 {
                cx.exclude("arc that ends where it starts");
                return Ok(());
            }
            if text == "" {
                cx.label("transform gone");
                cx.label_if(!extra.is_empty(), "stroked and gone");
            } else if far > slack * 10.0 {
                return bad("kept transform", &format!("a point moves by {far}"));
            }
            // arcs keep their flags and get new radii, so they are compared as curves
            let eps = 1e-3 * scale + if res.cmds.iter().any(|c| matches!(c.c, 'A' | 'a')) { 1e-2 * scale } else { 0.0 };
            let a: Vec<Vec<geom::P>> = geom::flatten(&src.cmds, eps * 0.1 / norm(&m).max(1e-3)).iter().map(|s| s.pts.iter().map(|p| m.apply(*p)).collect()).collect();
            let b: Vec<Vec<geom::P>> = geom::flatten(&res.cmds, eps * 0.1 / norm(&n).max(1e-3)).iter().map(|s| s.pts.iter().map(|p| n.apply(*p)).collect()).collect();
            if a.len() != b.len() {
                return bad("subpaths", &format!("{} -> {:?}", data, e.get("d")));
            }
            if m.det().abs() < 1e-3 {
                cx.exclude("transform that flattens the plane");
                return Ok(());
            }
            for (p, q) in a.iter().zip(&b) {
                if !geom::frechet_within(p, q, eps) {
                    return bad("path moved", &format!("by more than {eps}: {data} -> {:?}", e.get("d")));
                }
            }
            if extra.contains("stroke=") {
                let was = dom::parse(&svg).map_err(|e| Fail::new("generator", e))?;
                let size = |e: &dom::El, m: &M, k: &str, default: f64| -> Vec<f64> { e.get(k).and_then(render::numbers).unwrap_or(vec![default]).iter().map(|v| v * m.det().abs().sqrt()).collect() };
                for (k, default) in [("stroke-width", 1.0), ("stroke-dasharray", 0.0), ("stroke-dashoffset", 0.0)] {
                    let (x, y) = (size(&was.els[1], &m, k, default), size(e, &n, k, default));
                    if x.len() != y.len() || x.iter().zip(&y).any(|(x, y)| (x - y).abs() > 1e-3 * scale) {
                        return bad("stroke", &format!("{k} {x:?} -> {y:?}"));
                    }
                }
                let similar = (m.0[0] - m.0[3]).abs() + (m.0[1] + m.0[2]).abs() < slack || (m.0[0] + m.0[3]).abs() + (m.0[1] - m.0[2]).abs() < slack;
                if text == "" && !similar {
                    return bad("stroke", "the stroke is no longer distorted");
                }
            }
            return Ok(());
        }
        let Some(c) = i.config.get("convertTransform") else {
            cx.label("printed");
            if far > slack {
                return bad("printing", &format!("a point moves by {far}"));
            }
            return Ok(());
        };
        cx.label("converted");
        cx.label_if(text != i.list && after.len() < before.len(), "fewer functions");
        cx.label_if(after.iter().any(|f| f.0 != "matrix") && before.iter().all(|f| f.0 == "matrix"), "matrix decomposed");
        let get = |k: &str, d: i64| c.get(k).and_then(Value::as_i64).unwrap_or(d) as i32;
        let (f, t) = (get("floatPrecision", 3), get("transformPrecision", 5));
        let deg = c.get("degPrecision").and_then(Value::as_i64).map_or_else(|| f.min(t - 2).max(0), |v| v as i32);
        let u = Units { float: 10f64.powi(-f), deg: 10f64.powi(-deg), transform: 10f64.powi(-t) };
        let direct = allowed(&after, &u, 14.2).max(allowed(&before, &u, 14.2));
        // a matrix may be replaced by functions that multiply to it within the precision of numbers
        let merged = 14.2 * u.float * norm(&m).max(4.0) + 5.0 * u.float * (m.0[4].abs() + m.0[5].abs()).max(2.0) + 30.0 * u.transform;
        let eps = slack + direct + merged;
        if far > eps {
            return bad("mapping", &format!("a point moves by {far}, allowed {eps}"));
        }
        if eps > 10.0 {
            cx.exclude("rounding alone may move points by more than 10");
        }
        Ok(())
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![("several functions", 300), ("matrix", 50), ("rotation about a point", 100), ("applied to a path", 200), ("transform gone", 100), ("stroked and gone", 20), ("printed", 50), ("converted", 200), ("fewer functions", 50), ("matrix decomposed", 5)]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "allowed movement of points within 14 units of the origin: one unit in the last configured place of every rounded argument, carried through the other functions, plus the number precision times the size of the matrix where matrices are decomposed, plus 1e-5 of the scale for single-precision arithmetic".into(),
            "applied to a path: distance of the curves at most 1e-3 (1.1e-2 with arcs) of the scale".into(),
        ]
    }
    fn render(&self, i: &Input) -> String {
        format!("{}={:?} {} {}", i.attr, i.list, i.path.as_ref().map(|p| format!("d={:?}{}", p.0, p.1)).unwrap_or_default(), i.config)
    }
}

fn main() {
    pbt::engine::main(C13)
}
