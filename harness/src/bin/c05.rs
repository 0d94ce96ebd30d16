//! C05: optimising a path keeps the geometry it draws.
use oxvg_path::geometry::Tolerance;
use oxvg_path::optimize::Options;
use oxvg_path::{Path, parser::Parse as _};
use pbt::engine::*;
use pbt::geom::{self, Sub};
use pbt::svgpath::{self, Cmd};
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize)]
struct Input {
    d: String,
    opts: u16,
    precision: i32,
    /// Positional and angular tolerance; the default of 1e-3 when absent.
    tol: Option<f64>,
}

struct C05;

fn opts_text(o: u16) -> String {
    format!("{:?}", Options::from_bits_truncate(o))
}

/// Writes commands as text with every token separated.
fn text(cmds: &[Cmd]) -> String {
    cmds.iter()
        .map(|c| {
            let mut t = c.c.to_string();
            for (i, a) in c.a.iter().enumerate() {
                if i > 0 {
                    t.push(' ');
                }
                t += &format!("{a}");
            }
            t
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn coord(s: &mut Src) -> f64 {
    let v = match s.weighted(&[6, 3, 2, 1]) {
        0 => s.int(0, 40) as f64,
        1 => s.int(0, 500) as f64 / 10.0,
        2 => s.int(0, 50_000) as f64 / 1000.0,
        _ => s.int(0, 500_000_000) as f64 / 1e7,
    };
    if s.chance(1, 4) { -v } else { v }
}

const K: f64 = 0.552_284_749_831;

/// Commands of a path; keeps track of the current point so that special shapes can be built.
/// Last control and end point of a curve; they can lie on each other, on the current point and on the start.
fn ends(s: &mut Src, cx: &mut Cx, cur: (f64, f64), start: (f64, f64)) -> ((f64, f64), (f64, f64)) {
    let (c, d) = ((coord(s), coord(s)), (coord(s), coord(s)));
    let d = match s.weighted(&[6, 1, 1]) {
        0 => d,
        1 => {
            cx.label("curve back to its start");
            cur
        }
        _ => start,
    };
    let c = match s.weighted(&[6, 1, 1]) {
        0 => c,
        1 => cur,
        _ => d,
    };
    (c, d)
}

fn generate_path(s: &mut Src, cx: &mut Cx) -> Vec<Cmd> {
    let mut out = vec![];
    let mut cur = (0.0, 0.0);
    let mut start = (0.0, 0.0);
    let r6 = |v: f64| (v * 1e7).round() / 1e7;
    let push = |out: &mut Vec<Cmd>, rel: bool, cur: (f64, f64), c: char, a: Vec<f64>| {
        // `a` holds absolute coordinates
        let mut a = a;
        if rel {
            match c {
                'H' => a[0] -= cur.0,
                'V' => a[0] -= cur.1,
                'A' => {
                    a[5] -= cur.0;
                    a[6] -= cur.1;
                }
                _ => {
                    for (i, v) in a.iter_mut().enumerate() {
                        *v -= if i % 2 == 0 { cur.0 } else { cur.1 };
                    }
                }
            }
            for v in a.iter_mut() {
                *v = r6(*v);
            }
        }
        out.push(Cmd { c: if rel { c.to_ascii_lowercase() } else { c }, a });
    };
    let nsub = 1 + s.weighted(&[6, 3, 1]);
    for i in 0..nsub {
        let skip_move = i > 0 && out.last().is_some_and(|c: &Cmd| c.c == 'Z' || c.c == 'z') && s.chance(1, 4);
        cx.label_if(skip_move, "subpath without move");
        if !skip_move {
            let p = if i > 0 && s.chance(1, 4) { if s.chance(1, 2) { cur } else { start } } else { (coord(s), coord(s)) };
            let rel = s.chance(1, 3);
            push(&mut out, rel, cur, 'M', vec![p.0, p.1]);
            cur = p;
            start = p;
        }
        let mut prev = cur; // previous point, for collinear continuations
        let mut ctl: Option<(f64, f64)> = None;
        let n = s.us(7);
        for _ in 0..n {
            let rel = s.chance(1, 2);
            let old = cur;
            let mut nctl = None;
            match s.weighted(&[5, 3, 3, 5, 3, 3, 3, 4, 3, 2, 2, 2, 2]) {
                0 => {
                    cur = match s.weighted(&[6, 2, 1, 1]) {
                        0 => (coord(s), coord(s)),
                        1 => {
                            cx.label("collinear line");
                            let k = *s.pick(&[1.0, 2.0, 0.5, -0.5, -2.0]);
                            (r6(cur.0 + k * (cur.0 - prev.0)), r6(cur.1 + k * (cur.1 - prev.1)))
                        }
                        2 => {
                            cx.label("zero-length line");
                            cur
                        }
                        _ => {
                            cx.label("line to start");
                            start
                        }
                    };
                    push(&mut out, rel, old, 'L', vec![cur.0, cur.1]);
                }
                1 => {
                    cur.0 = coord(s);
                    push(&mut out, rel, old, 'H', vec![cur.0]);
                }
                2 => {
                    cur.1 = coord(s);
                    push(&mut out, rel, old, 'V', vec![cur.1]);
                }
                3 => {
                    let b = (coord(s), coord(s));
                    let (c, d) = ends(s, cx, cur, start);
                    let b = match s.weighted(&[6, 1, 2]) {
                        0 => b,
                        1 => cur,
                        _ => ctl.map_or(b, |p: (f64, f64)| (r6(2.0 * cur.0 - p.0), r6(2.0 * cur.1 - p.1))),
                    };
                    cur = d;
                    nctl = Some(c);
                    push(&mut out, rel, old, 'C', vec![b.0, b.1, c.0, c.1, d.0, d.1]);
                }
                4 => {
                    let (c, d) = ends(s, cx, cur, start);
                    cur = d;
                    nctl = Some(c);
                    push(&mut out, rel, old, 'S', vec![c.0, c.1, d.0, d.1]);
                }
                5 => {
                    let (c, d) = ends(s, cx, cur, start);
                    let c = match (s.chance(1, 4), ctl) {
                        (true, Some(p)) => (r6(2.0 * cur.0 - p.0), r6(2.0 * cur.1 - p.1)),
                        _ => c,
                    };
                    cur = d;
                    nctl = Some(c);
                    push(&mut out, rel, old, 'Q', vec![c.0, c.1, d.0, d.1]);
                }
                6 => {
                    cur = if s.chance(1, 10) { cur } else { (coord(s), coord(s)) };
                    push(&mut out, rel, old, 'T', vec![cur.0, cur.1]);
                }
                7 => {
                    cur = if s.chance(1, 10) { cur } else { (coord(s), coord(s)) };
                    // radii below 1e-5 are taken as zero, as other implementations do
                    let radius = |s: &mut Src| (coord(s).abs() * 1000.0).round() / 1000.0;
                    let rx = radius(s);
                    let ry = (rx * *s.pick(&[1.0, 1.0, 1.0, 0.5, 2.0, 0.37, 1.7, 3.1, 0.0]) * 1000.0).round() / 1000.0;
                    let rot = *s.pick(&[0.0, 0.0, 30.0, 45.0, 90.0, -60.0, 180.0]);
                    push(&mut out, rel, old, 'A', vec![rx, ry, rot, s.us(2) as f64, s.us(2) as f64, cur.0, cur.1]);
                }
                8 => {
                    // a circular arc written as one to four quarter-turn cubics
                    cx.label("circle as cubics");
                    let r = 1.0 + coord(s).abs();
                    let k0 = s.us(4);
                    let cw = s.chance(1, 2);
                    let dir = |k: usize| [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)][k % 4];
                    let c = (cur.0 - dir(k0).0 * r, cur.1 - dir(k0).1 * r);
                    let m = 1 + s.us(4);
                    let step = if cw { 1 } else { 3 };
                    let mut k = k0;
                    for _ in 0..m {
                        let (u, v) = (dir(k), dir(k + step));
                        let at = |x: f64, y: f64| (r6(c.0 + (u.0 * x + v.0 * y) * r), r6(c.1 + (u.1 * x + v.1 * y) * r));
                        let (p1, p2, p3) = (at(1.0, K), at(K, 1.0), at(0.0, 1.0));
                        push(&mut out, rel, cur, 'C', vec![p1.0, p1.1, p2.0, p2.1, p3.0, p3.1]);
                        prev = cur;
                        cur = p3;
                        nctl = Some(p2);
                        k += step;
                    }
                }
                9 => {
                    // a cubic cut in two
                    cx.label("split cubic");
                    let (b, c, d) = ((coord(s), coord(s)), (coord(s), coord(s)), (coord(s), coord(s)));
                    let t = *s.pick(&[0.5, 0.25, 0.75]);
                    let l = |p: (f64, f64), q: (f64, f64)| (p.0 + (q.0 - p.0) * t, p.1 + (q.1 - p.1) * t);
                    let (ab, bc, cd) = (l(cur, b), l(b, c), l(c, d));
                    let (abc, bcd) = (l(ab, bc), l(bc, cd));
                    let m = l(abc, bcd);
                    push(&mut out, false, cur, 'C', vec![ab.0, ab.1, abc.0, abc.1, m.0, m.1].into_iter().map(r6).collect());
                    push(&mut out, false, m, 'C', vec![bcd.0, bcd.1, cd.0, cd.1, d.0, d.1].into_iter().map(r6).collect());
                    cur = d;
                    nctl = Some(cd);
                }
                10 => {
                    // a curve whose controls lie on its line, within it or beyond it
                    cx.label("straight curve");
                    let d = (coord(s), coord(s));
                    let at = |t: f64| (r6(cur.0 + (d.0 - cur.0) * t), r6(cur.1 + (d.1 - cur.1) * t));
                    let (t1, t2) = (*s.pick(&[0.0, 0.3, 0.5, 1.0, 1.5, -0.5]), *s.pick(&[1.0, 0.6, 0.5, 0.0, 2.0, -0.5]));
                    if s.chance(1, 3) {
                        let c = at(t1);
                        push(&mut out, rel, old, 'Q', vec![c.0, c.1, d.0, d.1]);
                    } else {
                        let (b, c) = (at(t1), at(t2));
                        push(&mut out, rel, old, 'C', vec![b.0, b.1, c.0, c.1, d.0, d.1]);
                    }
                    cur = d;
                }
                11 => {
                    // consecutive arcs of one circle
                    cx.label("chained arcs");
                    let r = 1.0 + coord(s).abs();
                    let a0 = s.int(0, 23) as f64 * 15.0;
                    let cw = s.chance(1, 2);
                    let sign = if cw { 1.0 } else { -1.0 };
                    let c = (cur.0 - r * a0.to_radians().cos(), cur.1 - r * a0.to_radians().sin());
                    let m = 1 + s.us(3);
                    let mut a = a0;
                    for _ in 0..m {
                        let turn = s.int(1, 20) as f64 * 15.0;
                        a += sign * turn;
                        let p = (r6(c.0 + r * a.to_radians().cos()), r6(c.1 + r * a.to_radians().sin()));
                        push(&mut out, rel, cur, 'A', vec![r, r, 0.0, (turn > 180.0) as i32 as f64, cw as i32 as f64, p.0, p.1]);
                        prev = cur;
                        cur = p;
                    }
                }
                _ => {
                    cx.label("tiny step");
                    let e = *s.pick(&[1.0, 0.1, 0.01, 0.001, 0.0004, 0.0001]);
                    cur = (r6(cur.0 + e * s.int(-9, 9) as f64), r6(cur.1 + e * s.int(-9, 9) as f64));
                    push(&mut out, rel, old, 'L', vec![cur.0, cur.1]);
                }
            }
            prev = old;
            ctl = nctl;
        }
        if s.chance(1, 2) {
            out.push(Cmd { c: if s.chance(1, 2) { 'Z' } else { 'z' }, a: vec![] });
            cur = start;
        }
    }
    out
}

impl Prop for C05 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> String {
        "the path has at least three commands, and the path, options and precision have not been seen before".into()
    }
    fn cases(&self) -> (u64, u64) {
        (140_000, 2_500_000)
    }
    fn generate(&self, s: &mut Src, cx: &mut Cx) -> Input {
        let cmds = generate_path(s, cx);
        let opts = match s.weighted(&[3, 2, 4]) {
            // the default job configuration
            0 => Options::JoinNodes | Options::RemoveEmptySegments | Options::RemoveNoopCommands | Options::StraightCurves | Options::ArcCurves | Options::SmartArcRounding,
            1 => Options::empty(),
            _ => {
                let mut o = Options::empty();
                for f in [Options::JoinNodes, Options::RemoveEmptySegments, Options::RemoveNoopCommands, Options::StraightCurves, Options::ArcCurves, Options::SmartArcRounding] {
                    o.set(f, s.chance(1, 2));
                }
                for f in [Options::CloseSegments, Options::RemoveCloseLine] {
                    o.set(f, s.chance(1, 6));
                }
                o
            }
        };
        // rounding the radii of a narrow ellipse to few digits is a different ellipse
        let narrow = cmds.iter().any(|c| matches!(c.c, 'A' | 'a') && c.a[0] != c.a[1]);
        let precision = if narrow { *s.pick(&[3, 3, 3, 2, 4, 6]) } else { *s.pick(&[3, 3, 3, 2, 4, 6, 1, 0]) };
        let tol = if precision == 3 || precision < 2 || s.chance(1, 4) { None } else { Some(10f64.powi(-precision)) };
        Input { d: text(&cmds), opts: opts.bits(), precision, tol }
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Check {
        let tol = i.tol.unwrap_or(1e-3);
        let opts = Options::from_bits_truncate(i.opts);
        let before = svgpath::read(&i.d);
        assert!(before.error.is_none());
        let path = Path::parse_string(&i.d).map_err(|e| Fail::new("reject", format!("{e:?}")))?;
        let t = Tolerance { positional: tol, angular: tol, precision: i.precision };
        let out = guarded(|| Ok(path.optimize(opts, &t).to_string()))?;
        let after = svgpath::read(&out);
        if after.error.is_some() {
            return fail("output unreadable", format!("{} -> {out}", i.d));
        }
        let n = before.cmds.len();
        let unit = tol + 10f64.powi(-i.precision);
        let arcs = opts.contains(Options::ArcCurves) || before.cmds.iter().any(|c| matches!(c.c, 'A' | 'a'));
        let mut eps = unit * (2.0 + n as f64);
        let a = geom::flatten(&before.cmds, eps * 0.2);
        let radius = a.iter().map(|s| s.radius).fold(0.0, f64::max);
        if arcs {
            eps += 0.1 + (2.0 * radius.min(100.0) * unit).sqrt();
        }
        if before.cmds.iter().any(|c| matches!(c.c, 'A' | 'a')) && geom::min_arc_chord(&before.cmds) < 1e-7 {
            // whether such an arc is a full turn or nothing depends on the last bit
            cx.exclude("arc with end points closer than 1e-7");
            return Ok(());
        }
        let b = geom::flatten(&after.cmds, eps * 0.2);
        if geom::min_large_arc_chord(&after.cmds) < 20.0 * unit {
            // rounding the end point of a nearly full turn rotates the circle about its start
            cx.exclude("nearly full turn written as one arc");
            return Ok(());
        }
        if opts.contains(Options::JoinNodes) {
            // three points are taken as collinear by the area they span
            eps += 2.4 * tol.sqrt();
        }
        if opts.contains(Options::ArcCurves) {
            // curves are fitted to circles with an error relative to the radius
            let fitted = b.iter().map(|s| s.radius).fold(0.0, f64::max);
            eps += (2.0 * fitted.min(100.0) * unit).sqrt();
            eps += 4.0 * tol * b.iter().map(|s| s.radius).fold(0.0, f64::max).min(2000.0);
        }
        eps *= if arcs { 1.0 + 0.5 * (i.precision < 2) as i32 as f64 } else { 0.5 };
        let strict = !opts.intersects(Options::CloseSegments | Options::RemoveCloseLine);
        cx.label_if(strict, "strict options");
        cx.label_if(arcs, "arc tolerance");
        cx.label_if(a.iter().any(|s| s.closed), "closed");
        cx.label_if(a.iter().any(|s| !s.closed), "open");
        if before.cmds.len() > 2 {
            cx.nontrivial((&i.d, i.opts, i.precision));
        }
        let kind = || {
            let mut k: Vec<char> = before.cmds.iter().map(|c| c.c.to_ascii_uppercase()).collect();
            k.sort();
            k.dedup();
            format!("{}{}", if arcs { "arc" } else { "plain" }, if tol > 0.01 { " coarse" } else { "" })
        };
        // Align the subpaths in order; a subpath no larger than the tolerance may be missing.
        let same = |x: &Sub, y: &Sub| -> Result<(), &'static str> {
            let gap = geom::dist(x.pts[0], *x.pts.last().unwrap());
            if strict && x.closed != y.closed && gap > eps {
                return Err("open/closed");
            }
            let (mut p, mut q) = (x.pts.clone(), y.pts.clone());
            if !strict {
                p.push(p[0]);
                q.push(q[0]);
            }
            if geom::frechet_within(&p, &q, eps) { Ok(()) } else { Err("shape") }
        };
        fn align(a: &[Sub], b: &[Sub], eps: f64, same: &dyn Fn(&Sub, &Sub) -> Result<(), &'static str>) -> Result<(), &'static str> {
            let mut why = "subpath count";
            match (a.first(), b.first()) {
                (None, None) => return Ok(()),
                (Some(p), Some(q)) => match same(p, q) {
                    Ok(()) => match align(&a[1..], &b[1..], eps, same) {
                        Ok(()) => return Ok(()),
                        Err(e) => why = e,
                    },
                    Err(e) => why = e,
                },
                _ => {}
            }
            if a.first().is_some_and(|p| geom::extent(&p.pts) <= eps) && align(&a[1..], b, eps, same).is_ok() {
                return Ok(());
            }
            if b.first().is_some_and(|p| geom::extent(&p.pts) <= eps) && align(a, &b[1..], eps, same).is_ok() {
                return Ok(());
            }
            Err(why)
        }
        if let Err(what) = align(&a, &b, eps, &same) {
            return fail(format!("{what} ({})", kind()), format!("differs by more than {eps}: {:?} -> {out:?} [{}] p={}", i.d, opts_text(i.opts), i.precision));
        }
        Ok(())
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![("strict options", 500), ("closed", 300), ("open", 300), ("chained arcs", 100), ("circle as cubics", 150), ("split cubic", 100), ("straight curve", 100), ("collinear line", 50), ("subpath without move", 30), ("zero-length line", 20)]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "allowed distance: half of (positional tolerance + rounding unit) per command, plus, where arcs are involved, twice that plus 0.1 + sqrt(2 * radius * unit) + 4 * tolerance * radius (joining nodes: plus 1.2 * sqrt(tolerance); arc radii are rounded, and curves are fitted to circles with a relative error)".into(),
            "a subpath that ends within the tolerance of its start may be closed (documented); with options documented as unsafe for strokes only the filled outline is compared".into(),
            "arc radii below 1e-5 and arcs with end points closer than 1e-7 are outside the property; ellipses narrower than about 3:1 are only generated with precision 2 or more".into(),
        ]
    }
    fn render(&self, i: &Input) -> String {
        format!("{} [{}] precision {} tolerance {:?}", i.d, opts_text(i.opts), i.precision, i.tol)
    }
}

fn main() {
    pbt::engine::main(C05);
}
