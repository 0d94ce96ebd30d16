//! C10: selectors match exactly the elements they describe.
use oxvg_ast::element::Element;
use oxvg_ast::parse::roxmltree::parse;
use oxvg_ast::selectors::{SelectElement, Selector};
use pbt::engine::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Kid {
    E(Elem),
    T,
    C,
    P,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Elem {
    name: u8,
    id: Option<u8>,
    class: Vec<u8>,
    attrs: Vec<(u8, u8)>,
    kids: Vec<Kid>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum S {
    Type(u8),
    AnyNsType(u8),
    Universal,
    Id(u8),
    Class(u8),
    /// name, operator, value, flag
    Attr(u8, u8, String, u8),
    /// of-type?, last?, a, b, spelling
    Nth(bool, bool, i32, i32, u8),
    First(bool),
    Last(bool),
    Only(bool),
    Root,
    Empty,
    Scope,
    Not(Vec<Complex>),
}
type Compound = Vec<S>;
/// first compound, then (combinator, compound)
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Complex {
    first: Compound,
    rest: Vec<(u8, Compound)>,
}

#[derive(Clone, Serialize, Deserialize)]
struct Input {
    root: Elem,
    list: Vec<Complex>,
    scope: u8,
}

const NAMES: &[&str] = &["g", "path", "rect", "linearGradient", "f:rect", "unknown"];
const IDS: &[&str] = &["a", "b", "A", "x-1"];
const CLASSES: &[&str] = &["a", "b", "B", "c-d", "_e"];
/// Attribute values are in their printed form: typed attributes do not keep their spelling.
const ATTRS: &[(&str, &[&str])] = &[
    ("fill", &["red", "none"]),
    ("data-x", &["ab", "AB", "ab cd", "ab-cd", "", "é"]),
    ("viewBox", &["0 0 1 1", "0 0 2 2"]),
    ("xlink:href", &["#a", "#b"]),
    ("f:lang", &["en", "en-us"]),
    ("lang", &["en", "en-US", "de"]),
    ("type", &["X", "x"]),
];
const OPS: &[&str] = &["", "=", "~=", "|=", "^=", "$=", "*="];

fn local(n: &str) -> &str {
    n.rsplit(':').next().unwrap()
}

struct N {
    name: &'static str,
    id: Option<&'static str>,
    class: Vec<&'static str>,
    attrs: Vec<(&'static str, &'static str)>,
    parent: Option<usize>,
    kids: Vec<usize>,
    empty: bool,
}

fn build(e: &Elem, parent: Option<usize>, out: &mut Vec<N>, xml: &mut String) -> usize {
    let i = out.len();
    let name = if parent.is_none() { "svg" } else { NAMES[e.name as usize % NAMES.len()] };
    let mut class: Vec<&str> = vec![];
    for c in &e.class {
        let c = CLASSES[*c as usize % CLASSES.len()];
        if !class.contains(&c) {
            class.push(c);
        }
    }
    let mut attrs: Vec<(&str, &str)> = vec![];
    for (a, v) in &e.attrs {
        let (n, vs) = ATTRS[*a as usize % ATTRS.len()];
        if !attrs.iter().any(|x| x.0 == n) {
            attrs.push((n, vs[*v as usize % vs.len()]));
        }
    }
    let id = e.id.map(|i| IDS[i as usize % IDS.len()]);
    xml.push_str(&format!("<{name}"));
    if parent.is_none() {
        xml.push_str(" xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\" xmlns:f=\"urn:f\"");
    }
    if let Some(id) = id {
        xml.push_str(&format!(" id=\"{id}\""));
    }
    if !class.is_empty() {
        xml.push_str(&format!(" class=\"{}\"", class.join(" ")));
    }
    for (k, v) in &attrs {
        xml.push_str(&format!(" {k}=\"{v}\""));
    }
    xml.push('>');
    out.push(N { name, id, class, attrs, parent, kids: vec![], empty: true });
    for k in &e.kids {
        match k {
            Kid::E(c) => {
                let j = build(c, Some(i), out, xml);
                out[i].kids.push(j);
                out[i].empty = false;
            }
            Kid::T => {
                xml.push('t');
                out[i].empty = false;
            }
            Kid::C => xml.push_str("<!--c-->"),
            Kid::P => xml.push_str("<?p?>"),
        }
    }
    xml.push_str(&format!("</{name}>"));
    i
}

// ---- selector text

fn simple(s: &S) -> String {
    match s {
        S::Type(n) => local(NAMES[*n as usize % NAMES.len()]).to_string(),
        S::AnyNsType(n) => format!("*|{}", local(NAMES[*n as usize % NAMES.len()])),
        S::Universal => "*".into(),
        S::Id(i) => format!("#{}", IDS[*i as usize % IDS.len()]),
        S::Class(c) => format!(".{}", CLASSES[*c as usize % CLASSES.len()]),
        S::Attr(n, o, v, f) => {
            let n = ATTRS[*n as usize % ATTRS.len()].0;
            let n = if n.contains(':') { format!("*|{}", local(n)) } else { n.to_string() };
            let o = OPS[*o as usize % OPS.len()];
            if o.is_empty() { format!("[{n}]") } else { format!("[{n}{o}\"{v}\"{}]", ["", " i", " s"][*f as usize % 3]) }
        }
        S::Nth(t, l, a, b, sp) => {
            let f = match (t, l) {
                (false, false) => "nth-child",
                (false, true) => "nth-last-child",
                (true, false) => "nth-of-type",
                (true, true) => "nth-last-of-type",
            };
            let arg = match (a, b, sp % 3) {
                (2, 0, 0) => "even".into(),
                (2, 1, 0) => "odd".into(),
                (0, b, _) => format!("{b}"),
                (1, b, 1) => format!("n{b:+}"),
                (-1, b, 1) => format!("-n{b:+}"),
                (a, 0, 2) => format!("{a}n"),
                (a, b, _) => format!("{a}n{b:+}"),
            };
            format!(":{f}({arg})")
        }
        S::First(t) => if *t { ":first-of-type" } else { ":first-child" }.into(),
        S::Last(t) => if *t { ":last-of-type" } else { ":last-child" }.into(),
        S::Only(t) => if *t { ":only-of-type" } else { ":only-child" }.into(),
        S::Root => ":root".into(),
        S::Empty => ":empty".into(),
        S::Scope => ":scope".into(),
        S::Not(l) => format!(":not({})", list_text(l)),
    }
}
fn compound(c: &Compound) -> String {
    c.iter().map(simple).collect()
}
const COMB: &[&str] = &[" ", ">", "+", "~", " > "];
fn complex(c: &Complex) -> String {
    let mut s = compound(&c.first);
    for (k, d) in &c.rest {
        s.push_str(COMB[*k as usize % COMB.len()]);
        s.push_str(&compound(d));
    }
    s
}
fn list_text(l: &[Complex]) -> String {
    l.iter().map(complex).collect::<Vec<_>>().join(", ")
}

// ---- reference matcher

struct M<'a> {
    n: &'a [N],
    scope: Option<usize>,
}
impl M<'_> {
    fn sibs(&self, i: usize) -> Vec<usize> {
        self.n[i].parent.map_or(vec![i], |p| self.n[p].kids.clone())
    }
    fn index(&self, i: usize, of_type: bool, last: bool) -> (i32, usize) {
        let mut s = self.sibs(i);
        if of_type {
            s.retain(|j| self.n[*j].name == self.n[i].name);
        }
        if last {
            s.reverse();
        }
        (s.iter().position(|j| *j == i).unwrap() as i32 + 1, s.len())
    }
    fn simple(&self, s: &S, i: usize) -> bool {
        let e = &self.n[i];
        match s {
            S::Type(n) | S::AnyNsType(n) => local(e.name) == local(NAMES[*n as usize % NAMES.len()]),
            S::Universal => true,
            S::Id(x) => e.id == Some(IDS[*x as usize % IDS.len()]),
            S::Class(c) => e.class.contains(&CLASSES[*c as usize % CLASSES.len()]),
            S::Attr(n, o, v, f) => {
                let n = ATTRS[*n as usize % ATTRS.len()].0;
                let any = n.contains(':');
                e.attrs.iter().filter(|a| if any { local(a.0) == local(n) } else { a.0 == n }).any(|a| {
                    let ci = *f % 3 == 1;
                    let (h, v) = if ci { (a.1.to_ascii_lowercase(), v.to_ascii_lowercase()) } else { (a.1.to_string(), v.clone()) };
                    match OPS[*o as usize % OPS.len()] {
                        "" => true,
                        "=" => h == v,
                        "~=" => !v.is_empty() && !v.contains(' ') && h.split_ascii_whitespace().any(|t| t == v),
                        "|=" => h == v || h.starts_with(&format!("{v}-")),
                        "^=" => !v.is_empty() && h.starts_with(&v),
                        "$=" => !v.is_empty() && h.ends_with(&v),
                        _ => !v.is_empty() && h.contains(&v),
                    }
                })
            }
            S::Nth(t, l, a, b, _) => {
                let (ix, _) = self.index(i, *t, *l);
                let d = ix - b;
                if *a == 0 { d == 0 } else { d % a == 0 && d / a >= 0 }
            }
            S::First(t) => self.index(i, *t, false).0 == 1,
            S::Last(t) => self.index(i, *t, true).0 == 1,
            S::Only(t) => self.index(i, *t, false).1 == 1,
            S::Root => e.parent.is_none(),
            S::Empty => e.empty,
            S::Scope => match self.scope {
                Some(s) => s == i,
                None => e.parent.is_none(),
            },
            S::Not(l) => !l.iter().any(|c| self.complex(c, i)),
        }
    }
    fn compound(&self, c: &Compound, i: usize) -> bool {
        c.iter().all(|s| self.simple(s, i))
    }
    fn complex(&self, c: &Complex, i: usize) -> bool {
        self.at(c, c.rest.len(), i)
    }
    fn at(&self, c: &Complex, k: usize, i: usize) -> bool {
        let me = if k == 0 { &c.first } else { &c.rest[k - 1].1 };
        if !self.compound(me, i) {
            return false;
        }
        if k == 0 {
            return true;
        }
        match COMB[c.rest[k - 1].0 as usize % COMB.len()].trim() {
            "" => {
                let mut p = self.n[i].parent;
                while let Some(q) = p {
                    if self.at(c, k - 1, q) {
                        return true;
                    }
                    p = self.n[q].parent;
                }
                false
            }
            ">" => self.n[i].parent.is_some_and(|p| self.at(c, k - 1, p)),
            x => {
                let s = self.sibs(i);
                let at = s.iter().position(|j| *j == i).unwrap();
                if x == "+" {
                    at > 0 && self.at(c, k - 1, s[at - 1])
                } else {
                    s[..at].iter().any(|j| self.at(c, k - 1, *j))
                }
            }
        }
    }
}

// ---- generators

fn elem(s: &mut Src, depth: usize) -> Elem {
    Elem {
        name: s.n(NAMES.len() as u64) as u8,
        id: s.opt(1, 3, |s| s.n(IDS.len() as u64) as u8),
        class: s.list(0, 1, 3, |s| s.n(CLASSES.len() as u64) as u8),
        attrs: s.list(0, 1, 3, |s| (s.n(ATTRS.len() as u64) as u8, s.n(6) as u8)),
        kids: if depth >= 4 {
            vec![]
        } else {
            s.list(0, [4, 3, 2, 1][depth], 7, |s| match s.weighted(&[12, 1, 1, 1]) {
                0 => Kid::E(elem(s, depth + 1)),
                1 => Kid::T,
                2 => Kid::C,
                _ => Kid::P,
            })
        },
    }
}
fn gen_simple(s: &mut Src, first: bool, depth: usize) -> S {
    loop {
        let k = s.weighted(&[if first { 8 } else { 0 }, if first { 1 } else { 0 }, if first { 3 } else { 0 }, 3, 6, 6, 6, 2, 2, 2, 1, 2, 1, if depth == 0 { 3 } else { 0 }]);
        return match k {
            0 => S::Type(s.n(NAMES.len() as u64) as u8),
            1 => S::AnyNsType(s.n(NAMES.len() as u64) as u8),
            2 => S::Universal,
            3 => S::Id(s.n(IDS.len() as u64) as u8),
            4 => S::Class(s.n(CLASSES.len() as u64) as u8),
            5 => {
                let n = s.n(ATTRS.len() as u64) as u8;
                let vs = ATTRS[n as usize].1;
                let o = s.n(OPS.len() as u64) as u8;
                let mut v: String = s.pick(vs).to_string();
                if s.chance(1, 2) {
                    // a part of the value
                    let c: Vec<char> = v.chars().collect();
                    let a = s.us(c.len() + 1);
                    let b = a + s.us(c.len() - a + 1);
                    v = c[a..b].iter().collect();
                }
                S::Attr(n, o, v, s.n(3) as u8)
            }
            6 => S::Nth(s.chance(1, 2), s.chance(1, 2), s.int(0, 6) as i32 - 2, s.int(0, 7) as i32 - 2, s.n(3) as u8),
            7 => S::First(s.chance(1, 2)),
            8 => S::Last(s.chance(1, 2)),
            9 => S::Only(s.chance(1, 2)),
            10 => S::Root,
            11 => S::Empty,
            12 => S::Scope,
            _ => S::Not(s.list(1, 1, 2, |s| gen_complex(s, depth + 1))),
        };
    }
}
fn gen_compound(s: &mut Src, depth: usize) -> Compound {
    let mut first = true;
    s.list(1, 1, 3, |s| {
        let x = gen_simple(s, first, depth);
        first = false;
        x
    })
}
fn gen_complex(s: &mut Src, depth: usize) -> Complex {
    let first = gen_compound(s, depth);
    Complex { first, rest: s.list(0, 1, 3, |s| (s.n(5) as u8, gen_compound(s, depth))) }
}

fn visit_s(l: &[Complex], f: &mut dyn FnMut(&S)) {
    for c in l {
        for k in std::iter::once(&c.first).chain(c.rest.iter().map(|r| &r.1)) {
            for s in k {
                f(s);
                if let S::Not(l) = s {
                    visit_s(l, f);
                }
            }
        }
    }
}

struct C10;
impl Prop for C10 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> String {
        "A document of up to a few dozen elements (six tag names incl. a foreign and a mixed-case one, ids, classes, plain and prefixed attributes, text, comments) and a selector list of up to three complex selectors from the supported grammar; selecting from the document and from an inner element, and matching each element alone, are compared with a reference matcher. Non-trivial: the selector matches at least one element and not all.".into()
    }
    fn cases(&self) -> (u64, u64) {
        (900_000, 12_000_000)
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![("matches some", 150), ("nth", 100), ("not", 50), ("attribute", 100), ("combinator", 300), ("inner scope matches", 30)]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "Attribute values are in their printed spelling; whitespace-only text under :empty (where Selectors 3 and 4 differ) is not generated.".into(),
        ]
    }
    fn generate(&self, s: &mut Src, _: &mut Cx) -> Input {
        Input { root: elem(s, 0), list: s.list(1, 1, 3, |s| gen_complex(s, 0)), scope: s.n(12) as u8 }
    }
    fn render(&self, i: &Input) -> String {
        let mut xml = String::new();
        build(&i.root, None, &mut vec![], &mut xml);
        format!("{}   selected in {xml}", list_text(&i.list))
    }
    fn check(&self, input: &Input, cx: &mut Cx) -> Check {
        let mut n = vec![];
        let mut xml = String::new();
        build(&input.root, None, &mut n, &mut xml);
        let sel = list_text(&input.list);
        visit_s(&input.list, &mut |s| match s {
            S::Nth(..) => cx.label("nth"),
            S::Not(_) => cx.label("not"),
            S::Attr(..) => cx.label("attribute"),
            _ => {}
        });
        cx.label_if(input.list.iter().any(|c| !c.rest.is_empty()), "combinator");
        parse(&xml, |root, _| {
            let doc = Element::new(root).unwrap();
            let svg = Element::new(root.first_child().unwrap()).unwrap();
            // pair model nodes with elements, in document order
            let mut els = vec![];
            fn walk<'i, 'a>(e: Element<'i, 'a>, out: &mut Vec<Element<'i, 'a>>) {
                out.push(e);
                let mut c = e.first_child();
                while let Some(x) = c {
                    if let Some(e) = x.element() {
                        walk(e, out);
                    }
                    c = x.next_sibling();
                }
            }
            walk(svg, &mut els);
            if els.len() != n.len() {
                return fail("tree", format!("{} elements for {}", els.len(), n.len()));
            }
            // breadth-first order of the model
            let mut order = vec![0usize];
            let mut k = 0;
            while k < order.len() {
                order.extend(n[order[k]].kids.iter().copied());
                k += 1;
            }
            let ids: Vec<_> = els.iter().map(|e| e.id()).collect();
            let ix = |e: Element| ids.iter().position(|x| *x == e.id());
            // whole document
            let m = M { n: &n, scope: None };
            let got: Vec<Option<usize>> = match doc.select(&sel) {
                Ok(s) => s.map(ix).collect(),
                Err(e) => return fail("selector rejected", format!("{sel}: {e:?}")),
            };
            let want: Vec<Option<usize>> = order.iter().copied().filter(|i| input.list.iter().any(|c| m.complex(c, *i))).map(Some).collect();
            if !want.is_empty() && want.len() < n.len() {
                cx.label("matches some");
                cx.nontrivial((&sel, &xml));
            }
            // :scope in a document-wide selection is the document, not an element: compared with the root
            let mut has_scope = false;
            visit_s(&input.list, &mut |s| has_scope |= matches!(s, S::Scope));
            if !has_scope && got != want {
                return fail("document selection", format!("{sel} selects {got:?}, expected {want:?} of {xml}"));
            }
            // inner scope
            let at = input.scope as usize % n.len();
            let m = M { n: &n, scope: Some(at) };
            let inside = |mut i: usize| {
                while let Some(p) = n[i].parent {
                    if p == at {
                        return true;
                    }
                    i = p;
                }
                false
            };
            let got: Vec<Option<usize>> = els[at].select(&sel).unwrap().map(ix).collect();
            let want: Vec<Option<usize>> = order.iter().copied().filter(|i| inside(*i) && input.list.iter().any(|c| m.complex(c, *i))).map(Some).collect();
            cx.label_if(!want.is_empty() && at > 0, "inner scope matches");
            if got != want {
                return fail("inner selection", format!("{sel} from element {at} selects {got:?}, expected {want:?} of {xml}"));
            }
            // one by one, without a shared cache
            let s = Selector::new(&sel).unwrap();
            let m = M { n: &n, scope: None };
            for (i, e) in els.iter().enumerate() {
                let got = s.matches_naive(&SelectElement::new(*e));
                let want = input.list.iter().any(|c| m.complex(c, i));
                if got != want {
                    return fail("single match", format!("{sel} matches element {i}: {got}, expected {want} of {xml}"));
                }
            }
            Ok(())
        })
        .unwrap_or_else(|e| fail("parse", format!("{e} in {xml}")))
    }
}

fn main() {
    pbt::engine::main(C10);
}
