//! Reference reader for SVG path data, written from the SVG 2 grammar, and reference geometry.

use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cmd {
    pub c: char,
    pub a: Vec<f64>,
}

pub fn arity(c: char) -> usize {
    match c.to_ascii_uppercase() {
        'M' | 'L' | 'T' => 2,
        'H' | 'V' => 1,
        'C' => 6,
        'S' | 'Q' => 4,
        'A' => 7,
        'Z' => 0,
        _ => unreachable!(),
    }
}

pub struct Read {
    pub cmds: Vec<Cmd>,
    /// Byte position of the first error.
    pub error: Option<usize>,
    /// The text uses a spelling on which SVG 1.1, SVG 2 and implementations differ
    /// (a number with a trailing dot or malformed exponent, repeated commas, non-SVG whitespace).
    pub ambiguous: bool,
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
    ambiguous: bool,
}
impl P<'_> {
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }
    fn wsp(&mut self) -> bool {
        let s = self.i;
        while matches!(self.peek(), Some(b' ' | b'\t' | b'\n' | b'\r' | 0x0c)) {
            self.i += 1;
        }
        self.i > s
    }
    fn comma_wsp(&mut self) {
        self.wsp();
        if self.peek() == Some(b',') {
            self.i += 1;
            self.wsp();
            if self.peek() == Some(b',') {
                self.ambiguous = true;
            }
        }
    }
    fn number(&mut self) -> Option<f64> {
        let s = self.i;
        if matches!(self.peek(), Some(b'+' | b'-')) {
            self.i += 1;
        }
        let d0 = self.i;
        while matches!(self.peek(), Some(b'0'..=b'9')) {
            self.i += 1;
        }
        let int_digits = self.i - d0;
        let mut frac_digits = 0;
        if self.peek() == Some(b'.') {
            let dot = self.i;
            self.i += 1;
            while matches!(self.peek(), Some(b'0'..=b'9')) {
                self.i += 1;
            }
            frac_digits = self.i - dot - 1;
            if frac_digits == 0 {
                if int_digits > 0 {
                    self.ambiguous = true;
                }
                self.i = dot;
            }
        }
        if int_digits + frac_digits == 0 {
            self.i = s;
            return None;
        }
        if matches!(self.peek(), Some(b'e' | b'E')) {
            let e = self.i;
            self.i += 1;
            if matches!(self.peek(), Some(b'+' | b'-')) {
                self.i += 1;
            }
            let d = self.i;
            while matches!(self.peek(), Some(b'0'..=b'9')) {
                self.i += 1;
            }
            if self.i == d {
                // grammar: the number ends before the `e`; implementations reject the number
                self.ambiguous = true;
                self.i = e;
            }
        }
        let t = std::str::from_utf8(&self.b[s..self.i]).unwrap();
        let v: f64 = t.parse().unwrap();
        if v.is_finite() { Some(v) } else {
            self.ambiguous = true;
            None
        }
    }
    fn flag(&mut self) -> Option<f64> {
        match self.peek() {
            Some(b'0') => {
                self.i += 1;
                Some(0.0)
            }
            Some(b'1') => {
                self.i += 1;
                Some(1.0)
            }
            _ => None,
        }
    }
    fn args(&mut self, c: char) -> Option<Vec<f64>> {
        let n = arity(c);
        let mut out = vec![];
        for k in 0..n {
            if k > 0 {
                self.comma_wsp();
            }
            let is_flag = c.eq_ignore_ascii_case(&'a') && (k == 3 || k == 4);
            out.push(if is_flag { self.flag()? } else { self.number()? });
        }
        Some(out)
    }
}

/// Reads path data; on error the commands before the erroneous one are kept.
pub fn read(text: &str) -> Read {
    let mut p = P { b: text.as_bytes(), i: 0, ambiguous: false };
    let mut cmds: Vec<Cmd> = vec![];
    let mut error = None;
    if text.chars().any(|c| c.is_whitespace() && !matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c')) {
        p.ambiguous = true;
    }
    p.wsp();
    'outer: while let Some(b) = p.peek() {
        let c = b as char;
        if !b.is_ascii() || !"MmLlHhVvCcSsQqTtAaZz".contains(c) || (cmds.is_empty() && !c.eq_ignore_ascii_case(&'m')) {
            error = Some(p.i);
            // a comma before a command letter
            if c == ',' {
                p.ambiguous = true;
            }
            break;
        }
        p.i += 1;
        if c.eq_ignore_ascii_case(&'z') {
            cmds.push(Cmd { c: 'Z', a: vec![] });
            p.wsp();
            continue;
        }
        p.wsp();
        if p.peek() == Some(b',') {
            p.ambiguous = true;
        }
        let mut letter = c;
        let mut first = true;
        loop {
            let save = p.i;
            if !first {
                p.comma_wsp();
                // is there another argument set?
                match p.peek() {
                    Some(b'0'..=b'9' | b'+' | b'-' | b'.') => {}
                    _ => {
                        // a dangling comma is an error at the comma
                        if p.b[save..p.i].contains(&b',') {
                            p.ambiguous = true;
                            error = Some(save);
                            break 'outer;
                        }
                        break;
                    }
                }
            }
            match p.args(letter) {
                Some(a) => cmds.push(Cmd { c: letter, a }),
                None => {
                    error = Some(save);
                    break 'outer;
                }
            }
            if first {
                letter = match c {
                    'M' => 'L',
                    'm' => 'l',
                    c => c,
                };
                first = false;
            }
        }
        p.wsp();
    }
    Read { cmds, error, ambiguous: p.ambiguous }
}
