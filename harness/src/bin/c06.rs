//! C06: boolean path operations compute set operations on the filled regions.
use oxvg_path::geometry::Tolerance;
use oxvg_path::paths::{bool as boolean, segment};
use oxvg_path::{Path, parser::Parse as _};
use pbt::engine::*;
use pbt::geom;
use pbt::svgpath;
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize)]
struct Input {
    a: String,
    b: String,
    a_evenodd: bool,
    b_evenodd: bool,
    /// Sample points are drawn from this seed.
    seed: u64,
}

struct C06;

fn num(v: f64) -> String {
    format!("{}", (v * 1e4).round() / 1e4)
}

fn grid(s: &mut Src) -> f64 {
    match s.weighted(&[6, 2]) {
        0 => s.int(0, 20) as f64,
        _ => s.int(0, 200) as f64 / 10.0,
    }
}

/// One closed subpath.
fn shape(s: &mut Src, cx: &mut Cx) -> String {
    match s.weighted(&[5, 5, 3, 3, 3]) {
        0 => {
            let (x, y, w, h) = (grid(s), grid(s), 1.0 + grid(s), 1.0 + grid(s));
            cx.label("rectangle");
            if s.chance(1, 2) { format!("M{} {}h{}v{}h-{}z", num(x), num(y), num(w), num(h), num(w)) } else { format!("M{} {}v{}h{}v-{}z", num(x), num(y), num(h), num(w), num(h)) }
        }
        1 => {
            cx.label("polygon");
            let pts = s.list(3, 5, 8, |s| (grid(s), grid(s)));
            let mut t = String::new();
            for (i, p) in pts.iter().enumerate() {
                t += &format!("{}{} {}", if i == 0 { "M" } else { "L" }, num(p.0), num(p.1));
            }
            t + if s.chance(1, 5) { "" } else { "z" }
        }
        2 => {
            cx.label("circle of arcs");
            let (x, y, r) = (grid(s), grid(s), 1.0 + grid(s) / 2.0);
            let ry = if s.chance(1, 3) { 1.0 + grid(s) / 2.0 } else { r };
            let f = s.us(2);
            format!("M{} {}A{} {} 0 0 {f} {} {}A{} {} 0 0 {f} {} {}z", num(x - r), num(y), num(r), num(ry), num(x + r), num(y), num(r), num(ry), num(x - r), num(y))
        }
        3 => {
            cx.label("curves");
            let n = 1 + s.us(3);
            let start = (grid(s), grid(s));
            let mut t = format!("M{} {}", num(start.0), num(start.1));
            for _ in 0..n {
                match s.us(3) {
                    0 => t += &format!("L{} {}", num(grid(s)), num(grid(s))),
                    1 if s.chance(1, 8) => {
                        cx.label("curve that returns to its start");
                        t = format!("M{} {}C{} {} {} {} {} {}", num(start.0), num(start.1), num(grid(s)), num(grid(s)), num(grid(s)), num(grid(s)), num(start.0), num(start.1));
                        break;
                    }
                    1 => t += &format!("C{} {} {} {} {} {}", num(grid(s)), num(grid(s)), num(grid(s)), num(grid(s)), num(grid(s)), num(grid(s))),
                    _ => t += &format!("Q{} {} {} {}", num(grid(s)), num(grid(s)), num(grid(s)), num(grid(s))),
                }
            }
            if s.chance(3, 4) {
                t += &format!("L{} {}", num(grid(s)), num(grid(s)));
            }
            t += "z";
            t
        }
        _ => {
            cx.label("arc and lines");
            let (x, y) = (grid(s), grid(s));
            // half ellipses that are long and narrow move far when an end point moves a little
            let (rx, k) = (1.0 + grid(s), 0.5 + s.us(7) as f64 / 4.0);
            format!("M{} {}A{} {} 0 {} {} {} {}L{} {}z", num(x), num(y), num(rx), num(rx * k), s.us(2), s.us(2), num(grid(s)), num(grid(s)), num(grid(s)), num(grid(s)))
        }
    }
}

fn path(s: &mut Src, cx: &mut Cx) -> String {
    let n = 1 + s.weighted(&[6, 3, 1]);
    (0..n).map(|_| shape(s, cx)).collect()
}

const OPS: [&str; 4] = ["union", "intersection", "difference", "xor"];

impl Prop for C06 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> String {
        "both paths have filled points among the samples and some sample lies in both or in exactly one".into()
    }
    fn cases(&self) -> (u64, u64) {
        (45_000, 800_000)
    }
    fn generate(&self, s: &mut Src, cx: &mut Cx) -> Input {
        let a = path(s, cx);
        let b = match s.weighted(&[8, 1]) {
            0 => path(s, cx),
            _ => a.clone(),
        };
        cx.label_if(a == b, "identical");
        Input { a, b, a_evenodd: s.chance(1, 2), b_evenodd: s.chance(1, 2), seed: s.n(1 << 30) }
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Check {
        let t = Tolerance::default();
        let parse = |d: &str| segment::Path::from_svg(&Path::parse_string(d).expect("generated path"), &t);
        let flat = |d: &str| geom::flatten(&svgpath::read(d).cmds, 0.002);
        let (fa, fb) = (flat(&i.a), flat(&i.b));
        let curved = (i.a.clone() + &i.b).contains(['C', 'Q', 'A']);
        let margin = if curved { MARGIN_CURVED } else { 0.02 };
        let inside = |subs: &[geom::Sub], evenodd: bool, p: geom::P| {
            let w = geom::winding(subs, p);
            if evenodd { w % 2 != 0 } else { w != 0 }
        };
        // sample points away from the outlines: random ones, and ones near vertices and edges
        let mut src = Src::random(i.seed);
        let mut all: Vec<geom::P> = fa.iter().chain(&fb).flat_map(|s| s.pts.iter().copied()).collect();
        let (mut lo, mut hi) = ((f64::MAX, f64::MAX), (f64::MIN, f64::MIN));
        for p in &all {
            lo = (lo.0.min(p.0), lo.1.min(p.1));
            hi = (hi.0.max(p.0), hi.1.max(p.1));
        }
        if all.len() > 200 {
            all = (0..200).map(|_| all[src.us(all.len())]).collect();
        }
        let mut samples = vec![];
        for k in 0..120 {
            let u = |s: &mut Src| s.n(1 << 20) as f64 / (1 << 20) as f64;
            let p = if k % 2 == 0 {
                (lo.0 - 1.0 + (hi.0 - lo.0 + 2.0) * u(&mut src), lo.1 - 1.0 + (hi.1 - lo.1 + 2.0) * u(&mut src))
            } else {
                let q = all[src.us(all.len())];
                let r = margin * (1.2 + 4.0 * u(&mut src));
                let an = std::f64::consts::TAU * u(&mut src);
                (q.0 + r * an.cos(), q.1 + r * an.sin())
            };
            if geom::outline_dist(&fa, p) > margin && geom::outline_dist(&fb, p) > margin {
                samples.push((p, inside(&fa, i.a_evenodd, p), inside(&fb, i.b_evenodd, p)));
            }
        }
        let (n_a, n_b, both) = (samples.iter().filter(|s| s.1).count(), samples.iter().filter(|s| s.2).count(), samples.iter().filter(|s| s.1 && s.2).count());
        if n_a > 0 && n_b > 0 {
            cx.nontrivial((&i.a, &i.b, i.a_evenodd, i.b_evenodd));
        }
        cx.label_if(both > 0, "overlapping");
        cx.label_if(n_a > 0 && n_b > 0 && both == 0, "disjoint");
        cx.label_if(curved, "curved");
        let kind = if curved { "curved" } else { "polygons" };
        let (sa, sb) = (parse(&i.a), parse(&i.b));
        if both > 0 && !guarded(|| Ok(sa.intersects(&sb)))? {
            return fail(format!("overlap denied ({kind})"), format!("{:?} and {:?} overlap at {:?}", i.a, i.b, samples.iter().find(|s| s.1 && s.2).unwrap().0));
        }
        let wrap = |p: segment::Path, evenodd: bool| if evenodd { boolean::Path::evenodd(p) } else { boolean::Path::nonzero(p) };
        let (pa, pb) = (wrap(sa, i.a_evenodd), wrap(sb, i.b_evenodd));
        for op in OPS {
            let out = guarded(|| {
                let r = match op {
                    "union" => pa.union(&pb),
                    "intersection" => pa.intersection(&pb),
                    "difference" => pa.difference(&pb),
                    _ => pa.xor(&pb),
                };
                Ok(r.to_svg(&Tolerance { precision: 8, ..t }, false).to_string())
            })?;
            let read = svgpath::read(&out);
            if read.error.is_some() {
                return fail("output unreadable", format!("{op} of {:?} and {:?}: {out:?}", i.a, i.b));
            }
            let f = geom::flatten(&read.cmds, 0.002);
            for (p, x, y) in &samples {
                let want = match op {
                    "union" => *x || *y,
                    "intersection" => *x && *y,
                    "difference" => *x && !*y,
                    _ => x != y,
                };
                if inside(&f, false, *p) != want {
                    return fail(
                        format!("{op} wrong ({kind})"),
                        format!("{op} of {:?} ({}) and {:?} ({}) gives {out:?}, which {} {p:?}", i.a, if i.a_evenodd { "evenodd" } else { "nonzero" }, i.b, if i.b_evenodd { "evenodd" } else { "nonzero" }, if want { "misses" } else { "contains" }),
                    );
                }
            }
        }
        Ok(())
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![("overlapping", 300), ("disjoint", 20), ("curved", 200), ("identical", 50), ("rectangle", 200)]
    }
    fn render(&self, i: &Input) -> String {
        format!("{} ({}) with {} ({})", i.a, i.a_evenodd, i.b, i.b_evenodd)
    }
}

const MARGIN_CURVED: f64 = 0.3;

fn main() {
    pbt::engine::main(C06);
}
