//! Reference geometry: flattening of path commands, distances, winding numbers.
use crate::svgpath::Cmd;

pub type P = (f64, f64);

#[derive(Clone, Debug, Default)]
pub struct Sub {
    pub pts: Vec<P>,
    pub closed: bool,
    /// Number of drawing commands.
    pub n: usize,
    /// Largest arc radius in use.
    pub radius: f64,
}

fn cubic_steps(a: P, b: P, c: P, d: P, tol: f64) -> usize {
    let dd = |p: P, q: P, r: P| ((p.0 - 2.0 * q.0 + r.0).powi(2) + (p.1 - 2.0 * q.1 + r.1).powi(2)).sqrt();
    let m = dd(a, b, c).max(dd(b, c, d));
    ((m * 0.75 / tol).sqrt().ceil() as usize).clamp(1, 4000)
}

/// Implementation notes F.6 of SVG 1.1: centre parametrisation of an endpoint arc.
/// Returns (centre, rx, ry, phi, theta1, delta), or None for a line or nothing.
pub fn arc_centre(from: P, rx: f64, ry: f64, rot: f64, large: bool, sweep: bool, to: P) -> Option<(P, f64, f64, f64, f64, f64)> {
    if from == to || rx == 0.0 || ry == 0.0 {
        return None;
    }
    let (mut rx, mut ry) = (rx.abs(), ry.abs());
    let phi = rot.to_radians();
    let (s, c) = phi.sin_cos();
    let dx = (from.0 - to.0) / 2.0;
    let dy = (from.1 - to.1) / 2.0;
    let x1 = c * dx + s * dy;
    let y1 = -s * dx + c * dy;
    let l = x1 * x1 / (rx * rx) + y1 * y1 / (ry * ry);
    if l > 1.0 {
        rx *= l.sqrt();
        ry *= l.sqrt();
    }
    let num = (rx * rx * ry * ry - rx * rx * y1 * y1 - ry * ry * x1 * x1).max(0.0);
    let den = rx * rx * y1 * y1 + ry * ry * x1 * x1;
    let mut k = (num / den).sqrt();
    if large == sweep {
        k = -k;
    }
    let cx1 = k * rx * y1 / ry;
    let cy1 = -k * ry * x1 / rx;
    let cx = c * cx1 - s * cy1 + (from.0 + to.0) / 2.0;
    let cy = s * cx1 + c * cy1 + (from.1 + to.1) / 2.0;
    let t1 = ((y1 - cy1) / ry).atan2((x1 - cx1) / rx);
    let t2 = ((-y1 - cy1) / ry).atan2((-x1 - cx1) / rx);
    let mut d = t2 - t1;
    if sweep && d < 0.0 {
        d += std::f64::consts::TAU;
    } else if !sweep && d > 0.0 {
        d -= std::f64::consts::TAU;
    }
    Some(((cx, cy), rx, ry, phi, t1, d))
}

/// Flattens commands to polylines whose distance from the curves is at most about `tol`.
pub fn flatten(cmds: &[Cmd], tol: f64) -> Vec<Sub> {
    let mut out: Vec<Sub> = vec![];
    let mut cur: P = (0.0, 0.0);
    let mut start: P = (0.0, 0.0);
    // control point of the previous cubic / quadratic command
    let mut cc: Option<P> = None;
    let mut qc: Option<P> = None;
    let mut open = false;
    for cmd in cmds {
        let rel = cmd.c.is_ascii_lowercase();
        let o = if rel { cur } else { (0.0, 0.0) };
        let a = &cmd.a;
        let pt = |i: usize| (a[i] + o.0, a[i + 1] + o.1);
        let up = cmd.c.to_ascii_uppercase();
        if up == 'M' {
            cur = pt(0);
            start = cur;
            out.push(Sub { pts: vec![cur], ..Sub::default() });
            open = true;
            cc = None;
            qc = None;
            continue;
        }
        if up == 'Z' {
            if open {
                let s = out.last_mut().unwrap();
                s.closed = true;
                s.pts.push(start);
                s.n += 1;
            }
            open = false;
            cur = start;
            cc = None;
            qc = None;
            continue;
        }
        if !open {
            out.push(Sub { pts: vec![cur], ..Sub::default() });
            open = true;
        }
        let s = out.last_mut().unwrap();
        s.n += 1;
        let (mut ncc, mut nqc) = (None, None);
        match up {
            'L' => s.pts.push(pt(0)),
            'H' => s.pts.push((a[0] + o.0, cur.1)),
            'V' => s.pts.push((cur.0, a[0] + o.1)),
            'C' | 'S' | 'Q' | 'T' => {
                let (b, c, d);
                match up {
                    'C' => {
                        (b, c, d) = (pt(0), pt(2), pt(4));
                        ncc = Some(c);
                    }
                    'S' => {
                        b = cc.map_or(cur, |p| (2.0 * cur.0 - p.0, 2.0 * cur.1 - p.1));
                        (c, d) = (pt(0), pt(2));
                        ncc = Some(c);
                    }
                    _ => {
                        let q = if up == 'Q' { pt(0) } else { qc.map_or(cur, |p| (2.0 * cur.0 - p.0, 2.0 * cur.1 - p.1)) };
                        d = if up == 'Q' { pt(2) } else { pt(0) };
                        b = (cur.0 + (q.0 - cur.0) * 2.0 / 3.0, cur.1 + (q.1 - cur.1) * 2.0 / 3.0);
                        c = (d.0 + (q.0 - d.0) * 2.0 / 3.0, d.1 + (q.1 - d.1) * 2.0 / 3.0);
                        nqc = Some(q);
                    }
                }
                let n = cubic_steps(cur, b, c, d, tol);
                for i in 1..=n {
                    let t = i as f64 / n as f64;
                    let u = 1.0 - t;
                    let (w0, w1, w2, w3) = (u * u * u, 3.0 * u * u * t, 3.0 * u * t * t, t * t * t);
                    s.pts.push(if i == n { d } else { (w0 * cur.0 + w1 * b.0 + w2 * c.0 + w3 * d.0, w0 * cur.1 + w1 * b.1 + w2 * c.1 + w3 * d.1) });
                }
            }
            'A' => {
                let to = pt(5);
                if let Some((ce, rx, ry, phi, t1, d)) = arc_centre(cur, a[0], a[1], a[2], a[3] != 0.0, a[4] != 0.0, to) {
                    let r = rx.max(ry);
                    s.radius = s.radius.max(r);
                    let n = ((d.abs() / (8.0 * tol / r).sqrt().min(0.5)).ceil() as usize).clamp(1, 4000);
                    let (sp, cp) = phi.sin_cos();
                    for i in 1..n {
                        let t = t1 + d * i as f64 / n as f64;
                        let (x, y) = (rx * t.cos(), ry * t.sin());
                        s.pts.push((ce.0 + cp * x - sp * y, ce.1 + sp * x + cp * y));
                    }
                }
                s.pts.push(to);
            }
            _ => unreachable!(),
        }
        cur = *s.pts.last().unwrap();
        cc = ncc;
        qc = nqc;
    }
    out
}

pub fn dist(a: P, b: P) -> f64 {
    ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt()
}
pub fn seg_dist(p: P, a: P, b: P) -> f64 {
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let l = dx * dx + dy * dy;
    let t = if l == 0.0 { 0.0 } else { (((p.0 - a.0) * dx + (p.1 - a.1) * dy) / l).clamp(0.0, 1.0) };
    dist(p, (a.0 + t * dx, a.1 + t * dy))
}
pub fn line_dist(p: P, pts: &[P]) -> f64 {
    if pts.len() == 1 {
        return dist(p, pts[0]);
    }
    pts.windows(2).map(|w| seg_dist(p, w[0], w[1])).fold(f64::INFINITY, f64::min)
}
pub fn length(pts: &[P]) -> f64 {
    pts.windows(2).map(|w| dist(w[0], w[1])).sum()
}
/// Largest distance of a vertex from the first one.
pub fn extent(pts: &[P]) -> f64 {
    pts.iter().map(|p| dist(*p, pts[0])).fold(0.0, f64::max)
}

/// Discrete Fréchet-style ordered test: is there a monotone walk along `b` that keeps within
/// `eps` of a walk along `a`? Both polylines are first resampled to steps of at most `step`,
/// so the answer is exact up to `step`.
pub fn frechet_within(a: &[P], b: &[P], eps: f64) -> bool {
    // Free-space reachability over segments (Alt & Godau): reachable intervals on cell borders.
    let free = |p: P, s: P, e: P| -> Option<(f64, f64)> {
        let (dx, dy) = (e.0 - s.0, e.1 - s.1);
        let (fx, fy) = (s.0 - p.0, s.1 - p.1);
        let l2 = dx * dx + dy * dy;
        if l2 < 1e-30 {
            return (fx * fx + fy * fy <= eps * eps).then_some((0.0, 1.0));
        }
        let bq = fx * dx + fy * dy;
        let cq = fx * fx + fy * fy - eps * eps;
        let disc = bq * bq - l2 * cq;
        if disc < 0.0 {
            return None;
        }
        let r = disc.sqrt();
        let lo = ((-bq - r) / l2).max(0.0);
        let hi = ((-bq + r) / l2).min(1.0);
        (lo <= hi).then_some((lo, hi))
    };
    let fix = |v: &[P]| if v.len() == 1 { vec![v[0], v[0]] } else { v.to_vec() };
    let (a, b) = (fix(a), fix(b));
    let (n, m) = (a.len() - 1, b.len() - 1);
    if dist(a[0], b[0]) > eps || dist(a[n], b[m]) > eps {
        return false;
    }
    // left[j]: reachable part of (a_i, segment b_j); bottom: reachable part of (segment a_i, b_j)
    let mut left: Vec<Option<(f64, f64)>> = vec![None; m];
    let mut ok = true;
    for j in 0..m {
        let f = free(a[0], b[j], b[j + 1]);
        left[j] = match f {
            Some((lo, hi)) if ok && lo == 0.0 => {
                ok = hi >= 1.0;
                Some((lo, hi))
            }
            _ => {
                ok = false;
                None
            }
        };
        if !ok && left[j].is_none() {
            break;
        }
    }
    let mut bottom_ok = true;
    let mut reach = false;
    for i in 0..n {
        let mut bottom = match free(b[0], a[i], a[i + 1]) {
            Some((lo, hi)) if bottom_ok && lo == 0.0 => {
                bottom_ok = hi >= 1.0;
                Some((lo, hi))
            }
            _ => {
                bottom_ok = false;
                None
            }
        };
        let mut any = false;
        // only cells next to something reachable matter
        let lo = if bottom.is_some() { 0 } else { left.iter().position(Option::is_some).unwrap_or(m) };
        let hi = left.iter().rposition(Option::is_some).unwrap_or(0);
        for j in lo..m {
            if j > hi && bottom.is_none() {
                break;
            }
            let l = left[j];
            let (mut right, mut top) = (None, None);
            if l.is_some() || bottom.is_some() {
                let fr = free(a[i + 1], b[j], b[j + 1]);
                let ft = free(b[j + 1], a[i], a[i + 1]);
                right = match (bottom, l, fr) {
                    (Some(_), _, f) => f,
                    (None, Some((ll, _)), Some((lo, hi))) => {
                        let lo = lo.max(ll);
                        (lo <= hi).then_some((lo, hi))
                    }
                    _ => None,
                };
                top = match (l, bottom, ft) {
                    (Some(_), _, f) => f,
                    (None, Some((bl, _)), Some((lo, hi))) => {
                        let lo = lo.max(bl);
                        (lo <= hi).then_some((lo, hi))
                    }
                    _ => None,
                };
            }
            left[j] = right;
            any |= right.is_some() || top.is_some();
            bottom = top;
            if i == n - 1 && j == m - 1 {
                reach = right.is_some_and(|r| r.1 >= 1.0) || top.is_some_and(|r| r.1 >= 1.0);
            }
        }
        if !any && i < n - 1 && !bottom_ok {
            return false;
        }
    }
    reach
}

/// Winding number of closed-up subpaths around a point.
pub fn winding(subs: &[Sub], p: P) -> i32 {
    let mut w = 0;
    for s in subs {
        let n = s.pts.len();
        for i in 0..n {
            let (a, b) = (s.pts[i], s.pts[(i + 1) % n]);
            let cross = (b.0 - a.0) * (p.1 - a.1) - (b.1 - a.1) * (p.0 - a.0);
            if a.1 <= p.1 {
                if b.1 > p.1 && cross > 0.0 {
                    w += 1;
                }
            } else if b.1 <= p.1 && cross < 0.0 {
                w -= 1;
            }
        }
    }
    w
}
/// Distance of a point from the filled outline (subpaths closed up).
pub fn outline_dist(subs: &[Sub], p: P) -> f64 {
    let mut d = f64::INFINITY;
    for s in subs {
        let n = s.pts.len();
        for i in 0..n {
            d = d.min(seg_dist(p, s.pts[i], s.pts[(i + 1) % n]));
        }
    }
    d
}

/// Smallest non-zero distance between the end points of an arc command.
pub fn min_arc_chord(cmds: &[Cmd]) -> f64 {
    arc_chords(cmds).into_iter().map(|x| x.0).filter(|x| *x != 0.0).fold(f64::INFINITY, f64::min)
}
/// Smallest non-zero distance between the end points of an arc of more than half a turn.
pub fn min_large_arc_chord(cmds: &[Cmd]) -> f64 {
    arc_chords(cmds).into_iter().filter(|x| x.1 && x.0 != 0.0).map(|x| x.0).fold(f64::INFINITY, f64::min)
}
fn arc_chords(cmds: &[Cmd]) -> Vec<(f64, bool)> {
    let mut out = vec![];
    for (i, c) in cmds.iter().enumerate() {
        if matches!(c.c, 'A' | 'a') {
            let from = flatten(&cmds[..i], 1.0).last().map_or((0.0, 0.0), |s| *s.pts.last().unwrap());
            let to = if c.c == 'a' { (from.0 + c.a[5], from.1 + c.a[6]) } else { (c.a[5], c.a[6]) };
            out.push((dist(from, to), c.a[3] != 0.0));
        }
    }
    out
}

/// The vertices of a path (end points of its commands) in order, as markers see them.
pub fn vertices(cmds: &[Cmd]) -> Vec<P> {
    let mut out = vec![];
    let (mut cur, mut start): (P, P) = ((0.0, 0.0), (0.0, 0.0));
    for cmd in cmds {
        let o = if cmd.c.is_ascii_lowercase() { cur } else { (0.0, 0.0) };
        let a = &cmd.a;
        match cmd.c.to_ascii_uppercase() {
            'H' => cur.0 = a[0] + o.0,
            'V' => cur.1 = a[0] + o.1,
            'Z' => cur = start,
            _ => cur = (a[a.len() - 2] + o.0, a[a.len() - 1] + o.1),
        }
        if cmd.c.eq_ignore_ascii_case(&'M') {
            start = cur;
        }
        out.push(cur);
    }
    out
}
