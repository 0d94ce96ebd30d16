//! C04: path data is read by the SVG grammar and written without changing its meaning.
use oxvg_path::command::Data;
use oxvg_path::{Path, parser::Parse as _};
use pbt::engine::*;
use pbt::{gens, svgpath};
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize)]
#[serde(untagged)]
enum Input {
    /// Text to read.
    Text(String),
    /// Commands to write: letter, numbers (as text), written as an implicit repetition.
    Cmds(Vec<(char, Vec<String>, bool)>),
}

struct C04;

fn conv(d: &Data) -> svgpath::Cmd {
    let (c, a): (char, &[f64]) = match d {
        Data::MoveTo(a) => ('M', a),
        Data::MoveBy(a) => ('m', a),
        Data::ClosePath => ('Z', &[]),
        Data::LineTo(a) => ('L', a),
        Data::LineBy(a) => ('l', a),
        Data::HorizontalLineTo(a) => ('H', a),
        Data::HorizontalLineBy(a) => ('h', a),
        Data::VerticalLineTo(a) => ('V', a),
        Data::VerticalLineBy(a) => ('v', a),
        Data::CubicBezierTo(a) => ('C', a),
        Data::CubicBezierBy(a) => ('c', a),
        Data::SmoothBezierTo(a) => ('S', a),
        Data::SmoothBezierBy(a) => ('s', a),
        Data::QuadraticBezierTo(a) => ('Q', a),
        Data::QuadraticBezierBy(a) => ('q', a),
        Data::SmoothQuadraticBezierTo(a) => ('T', a),
        Data::SmoothQuadraticBezierBy(a) => ('t', a),
        Data::ArcTo(a) => ('A', a),
        Data::ArcBy(a) => ('a', a),
        Data::Implicit(d) => return conv(d),
    };
    svgpath::Cmd { c, a: a.to_vec() }
}

fn build(c: char, a: &[f64]) -> Data {
    fn n<const N: usize>(a: &[f64]) -> [f64; N] {
        a.try_into().unwrap()
    }
    match c {
        'M' => Data::MoveTo(n(a)),
        'm' => Data::MoveBy(n(a)),
        'Z' => Data::ClosePath,
        'L' => Data::LineTo(n(a)),
        'l' => Data::LineBy(n(a)),
        'H' => Data::HorizontalLineTo(n(a)),
        'h' => Data::HorizontalLineBy(n(a)),
        'V' => Data::VerticalLineTo(n(a)),
        'v' => Data::VerticalLineBy(n(a)),
        'C' => Data::CubicBezierTo(n(a)),
        'c' => Data::CubicBezierBy(n(a)),
        'S' => Data::SmoothBezierTo(n(a)),
        's' => Data::SmoothBezierBy(n(a)),
        'Q' => Data::QuadraticBezierTo(n(a)),
        'q' => Data::QuadraticBezierBy(n(a)),
        'T' => Data::SmoothQuadraticBezierTo(n(a)),
        't' => Data::SmoothQuadraticBezierBy(n(a)),
        'A' => Data::ArcTo(n(a)),
        'a' => Data::ArcBy(n(a)),
        _ => unreachable!(),
    }
}

const LETTERS: &[char] = &['L', 'l', 'H', 'h', 'V', 'v', 'C', 'c', 'S', 's', 'Q', 'q', 'T', 't', 'A', 'a', 'Z', 'M', 'm'];

fn gap(s: &mut Src, out: &mut String, token: &str) {
    // separator needed between the text so far and `token`?
    let need = match (out.chars().last(), token.chars().next()) {
        (Some(p), Some(n)) => {
            let last_num = out.rsplit(|c: char| !(c.is_ascii_digit() || c == '.' || c == 'e' || c == 'E' || c == '-' || c == '+')).next().unwrap_or("");
            if n == '-' || n == '+' {
                matches!(p, 'e' | 'E')
            } else if n == '.' {
                // may follow directly if the current number already has a dot or exponent
                let cur = last_num.rsplit(['-', '+']).next().unwrap_or("");
                let has_exp = last_num.contains(['e', 'E']);
                !(cur.contains('.') || has_exp) && p.is_ascii_digit() || p == '.'
            } else {
                p.is_ascii_digit() || p == '.'
            }
        }
        _ => false,
    };
    let sep = match s.weighted(&[if need { 0 } else { 6 }, 6, 2, 1, 1, 1]) {
        0 => "",
        1 => " ",
        2 => ",",
        3 => "\n\t",
        4 => " , ",
        _ => "\r\n",
    };
    out.push_str(sep);
    out.push_str(token);
}

fn text(s: &mut Src) -> String {
    let mut out = String::new();
    if s.chance(1, 8) {
        out.push_str(s.pick(&[" ", "\n", "\t "]));
    }
    let mut prev: Option<char> = None;
    let groups = s.list(1, 5, 14, |s| {
        let letter = *s.pick(LETTERS);
        (letter, s.list(1, 2, 4, |s| gen_args(s, letter)), s.n(4), s.n(8))
    });
    for (k, (mut letter, sets, sp, sp2)) in groups.into_iter().enumerate() {
        if k == 0 && !letter.eq_ignore_ascii_case(&'m') {
            letter = if letter.is_ascii_lowercase() { 'm' } else { 'M' };
        }
        if sp == 1 {
            out.push(' ');
        }
        let mut l = letter;
        if l == 'Z' && sp2 % 2 == 1 {
            l = 'z';
        }
        out.push(l);
        if sp2 == 3 {
            out.push(' ');
        }
        if letter != 'Z' {
            for (j, set) in sets.into_iter().enumerate() {
                let want = svgpath::arity(letter);
                let mut set = set;
                set.truncate(want);
                while set.len() < want {
                    set.push("1".into());
                }
                for (q, t) in set.into_iter().enumerate() {
                    let is_flag = letter.eq_ignore_ascii_case(&'a') && (q == 3 || q == 4);
                    let t = if is_flag { if t.len() % 2 == 0 { "0".to_string() } else { "1".to_string() } } else { t };
                    let after_flag = letter.eq_ignore_ascii_case(&'a') && (q == 4 || q == 5);
                    if j == 0 && q == 0 {
                        out.push_str(&t);
                    } else if after_flag {
                        // flags may be followed directly by anything
                        let sep = match s.weighted(&[4, 4, 2, 1]) {
                            0 => "",
                            1 => " ",
                            2 => ",",
                            _ => " , ",
                        };
                        out.push_str(sep);
                        out.push_str(&t);
                    } else {
                        gap(s, &mut out, &t);
                    }
                }
            }
        }
        prev = Some(letter);
    }
    let _ = prev;
    if s.chance(1, 6) {
        out.push_str(s.pick(&[" ", "\n", " \t "]));
    }
    out
}

fn gen_args(s: &mut Src, letter: char) -> Vec<String> {
    (0..svgpath::arity(letter)).map(|_| gens::number_text(s)).collect()
}

fn mutate(s: &mut Src, mut t: String) -> String {
    let n = s.int(1, 2);
    for _ in 0..n {
        let chars: Vec<char> = t.chars().collect();
        if chars.is_empty() {
            break;
        }
        let i = s.us(chars.len());
        let junk = *s.pick(&['0', '1', '2', '.', '-', '+', 'e', ',', ' ', 'z', 'Z', 'M', 'L', 'x', 'a', 'B', '#', '\u{e9}', '\u{1F600}', '\u{a0}', '%']);
        let mut c = chars.clone();
        match s.n(3) {
            0 => {
                c.remove(i);
            }
            1 => c.insert(i, junk),
            _ => c[i] = junk,
        }
        t = c.into_iter().collect();
    }
    t
}

impl Prop for C04 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> String {
        "Grammar-derived path texts (every command, implicit repetition, elided separators, exponent and dot spellings), one- or two-character mutations of them, and command sequences built through the API with numbers over 1e-12..1e33. Non-trivial: at least two commands are read or written and at least one number is not an integer, or the text is invalid.".into()
    }
    fn cases(&self) -> (u64, u64) {
        (4_000_000, 40_000_000)
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![("text/valid", 200), ("text/invalid", 60), ("written", 200), ("arc", 100), ("implicit", 200)]
    }
    fn generate(&self, s: &mut Src, _cx: &mut Cx) -> Input {
        match s.weighted(&[4, 2, 3]) {
            0 => Input::Text(text(s)),
            1 => {
                let t = text(s);
                Input::Text(mutate(s, t))
            }
            _ => {
                let mut prev: Option<char> = None;
                let mut first = true;
                let v = s.list(1, 6, 30, |s| {
                    let mut c = *s.pick(LETTERS);
                    if first {
                        c = if c.is_ascii_lowercase() { 'm' } else { 'M' };
                        first = false;
                    }
                    let next = match prev {
                        Some('M') => Some('L'),
                        Some('m') => Some('l'),
                        Some('Z') => None,
                        p => p,
                    };
                    let mut implicit = false;
                    if let Some(n) = next {
                        if s.chance(1, 2) {
                            c = n;
                            implicit = s.chance(2, 3);
                        }
                    }
                    prev = Some(c);
                    let a: Vec<String> = (0..svgpath::arity(c))
                        .map(|k| {
                            if c.eq_ignore_ascii_case(&'a') && (k == 3 || k == 4) {
                                s.n(2).to_string()
                            } else {
                                format!("{:e}", gens::number(s))
                            }
                        })
                        .collect();
                    (c, a, implicit)
                });
                Input::Cmds(v)
            }
        }
    }
    fn check(&self, input: &Input, cx: &mut Cx) -> Check {
        match input {
            Input::Text(t) => {
                let r = svgpath::read(t);
                let lib = Path::parse_string(t);
                if r.error.is_none() && !r.ambiguous {
                    cx.label("text/valid");
                    let lib = match lib {
                        Ok(p) => p,
                        Err(e) => return fail("valid text rejected", format!("{e}")),
                    };
                    let got: Vec<_> = lib.0.iter().map(conv).collect();
                    if got != r.cmds {
                        return fail("commands differ", format!("read {got:?}, grammar says {:?}", r.cmds));
                    }
                    if lib.0.iter().any(Data::is_implicit) {
                        cx.label("implicit");
                    }
                    if r.cmds.len() >= 2 && r.cmds.iter().any(|c| c.a.iter().any(|v| v.fract() != 0.0)) {
                        cx.nontrivial(t);
                    }
                    write_check(&lib, &r.cmds, cx)?;
                } else if r.ambiguous {
                    cx.label("text/ambiguous");
                    cx.exclude("spelling on which SVG 1.1 and SVG 2 differ: only absence of a crash is checked");
                } else {
                    cx.label("text/invalid");
                    cx.nontrivial(t);
                    if let Ok(p) = lib {
                        return fail("invalid text accepted", format!("grammar error at byte {:?}; read {:?}", r.error, p.0));
                    }
                }
                if !r.ambiguous {
                    // the attribute keeps the valid prefix
                    let p = oxvg_collections::attribute::path::Path::parse_string(t);
                    match p {
                        Ok(p) => {
                            let got: Vec<_> = p.0.0.iter().map(conv).collect();
                            if got != r.cmds {
                                return fail("attribute prefix differs", format!("kept {got:?}, grammar says {:?}", r.cmds));
                            }
                        }
                        Err(e) => return fail("attribute rejected", format!("{e}")),
                    }
                }
                Ok(())
            }
            Input::Cmds(v) => {
                cx.label("written");
                let cmds: Vec<svgpath::Cmd> = v
                    .iter()
                    .map(|(c, a, _)| svgpath::Cmd { c: *c, a: a.iter().map(|x| x.parse().unwrap()).collect() })
                    .collect();
                let path = Path(
                    v.iter()
                        .zip(&cmds)
                        .map(|((_, _, imp), c)| {
                            let d = build(c.c, &c.a);
                            if *imp { Data::Implicit(Box::new(d)) } else { d }
                        })
                        .collect(),
                );
                if cmds.len() >= 2 && cmds.iter().any(|c| c.a.iter().any(|v| v.fract() != 0.0)) {
                    cx.nontrivial(format!("{cmds:?}"));
                }
                if v.iter().any(|x| x.2) {
                    cx.label("implicit");
                }
                write_check(&path, &cmds, cx)
            }
        }
    }
    fn render(&self, i: &Input) -> String {
        match i {
            Input::Text(t) => format!("read {t:?}"),
            Input::Cmds(v) => format!("write {v:?}"),
        }
    }
}

fn write_check(p: &Path, cmds: &[svgpath::Cmd], cx: &mut Cx) -> Check {
    cx.label_if(cmds.iter().any(|c| c.c == 'A' || c.c == 'a'), "arc");
    let text = p.to_string();
    let r = svgpath::read(&text);
    if r.error.is_some() {
        return fail("written text invalid", format!("{text:?} invalid at {:?}", r.error));
    }
    if r.cmds != cmds {
        return fail("written text means something else", format!("{text:?} means {:?}, wanted {cmds:?}", r.cmds));
    }
    // and the library reads its own text back
    match Path::parse_string(&text) {
        Ok(q) => {
            let got: Vec<_> = q.0.iter().map(conv).collect();
            if got != cmds {
                return fail("own text re-read differently", format!("{text:?} read as {got:?}"));
            }
        }
        Err(e) => return fail("own text rejected", format!("{text:?}: {e}")),
    }
    // the attribute printer gives the same text
    use oxvg_serialize::ToValue as _;
    let attr = oxvg_collections::attribute::path::Path(p.clone(), None);
    match attr.to_value_string(oxvg_serialize::PrinterOptions::default()) {
        Ok(t) if svgpath::read(&t).cmds == cmds => {}
        Ok(t) => return fail("attribute printed differently", format!("{t:?}")),
        Err(e) => return fail("attribute not printed", format!("{e:?}")),
    }
    Ok(())
}

fn main() {
    pbt::engine::main(C04)
}
