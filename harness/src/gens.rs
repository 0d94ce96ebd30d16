//! Shared generators.
use crate::engine::Src;

/// A finite f64 covering the interesting regions of number printing.
pub fn number(s: &mut Src) -> f64 {
    let v = match s.weighted(&[5, 4, 3, 2, 2, 2, 2, 1]) {
        0 => s.int(0, 20) as f64,
        1 => s.int(0, 9999) as f64 / 100.0,
        2 => s.int(0, 999) as f64 / 1000.0,
        3 => s.int(0, 1_000_000) as f64 / 1000.0,
        4 => s.int(0, 99) as f64 / 10f64.powi(s.int(1, 12) as i32),
        5 => s.int(0, 99_999) as f64,
        6 => s.int(0, 999) as f64 * 10f64.powi(s.int(0, 30) as i32),
        _ => f64::from_bits(s.n(u64::MAX) & !(0x7ff << 52) | ((s.int(1023 - 40, 1023 + 60) as u64) << 52)).abs(),
    };
    if s.chance(1, 3) { -v } else { v }
}

/// A coordinate of ordinary drawings.
pub fn coord(s: &mut Src) -> f64 {
    let v = match s.weighted(&[5, 4, 2]) {
        0 => s.int(0, 100) as f64,
        1 => s.int(0, 1000) as f64 / 10.0,
        _ => s.int(0, 100_000) as f64 / 1000.0,
    };
    if s.chance(1, 4) { -v } else { v }
}

/// Spells a number in one of the ways the SVG grammar allows.
pub fn number_text(s: &mut Src) -> String {
    let v = number(s);
    let sign = if v < 0.0 { "-" } else if s.chance(1, 12) { "+" } else { "" };
    let a = v.abs();
    let body = match s.weighted(&[5, 2, 1, 1, 1]) {
        0 => format!("{a}"),
        1 => {
            let t = format!("{a}");
            match t.strip_prefix("0.") {
                Some(r) => format!(".{r}"),
                None => t,
            }
        }
        2 => {
            let t = format!("{a:e}");
            if s.chance(1, 2) { t.replace('e', "E") } else { t }
        }
        3 => {
            let t = format!("{a:e}");
            if t.contains("e-") { t } else { t.replace('e', "e+") }
        }
        _ => {
            let t = format!("{a}");
            if t.contains('.') { format!("0{t}00") } else { format!("00{t}.0") }
        }
    };
    format!("{sign}{body}")
}
