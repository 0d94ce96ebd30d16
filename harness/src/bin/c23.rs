//! C23: formatting changes only insignificant white space.
use oxvg_ast::parse::roxmltree::parse;
use oxvg_ast::serialize::{Indent, Node as _, Options, Space};
use pbt::engine::{fail, guarded, Check, Cx, Fail, Prop, Src};
use pbt::xml::{self, El, Node};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone)]
struct Input {
    svg: String,
    /// Spaces of an indent, none for no indent, 255 for tabs.
    indent: Option<u8>,
    attributes: Option<u8>,
    space: String,
    single: bool,
    closing: bool,
    minify: bool,
    /// Whether indented text is compared with the spaces next to elements.
    #[serde(default)]
    strict: bool,
}

struct C23;

fn is_space(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

const RENDERED: &[&str] = &["tspan", "a", "textPath"];

struct G {
    left: i32,
}

impl G {
    fn words(&self, s: &mut Src, mean: bool) -> String {
        let n = if mean { s.weighted(&[1, 3, 3, 2, 1]) } else { s.weighted(&[1, 4, 3]) };
        (0..n)
            .map(|_| match s.weighted(&[4, 4, 1]) {
                0 => *s.pick(&["a", "b", "word", "é", "&lt;", "&amp;", "1"]),
                1 => *s.pick(&[" ", " ", "  ", "\n", "\n   ", "\t", "&#32;", " \n "]),
                _ => *s.pick(&["\u{a0}", "&#160;", "\u{a0}\u{a0}", "\u{2003}", "\u{200b}", "\u{3000}", "&#13;", "&#10;", "\u{85}"]),
            })
            .collect()
    }
    fn attrs(&self, s: &mut Src, text: bool, out: &mut String) {
        if s.chance(1, if text { 5 } else { 14 }) {
            out.push_str(&format!(" xml:space=\"{}\"", s.pick(&["preserve", "preserve", "default"])));
        }
        for (n, v) in [("id", "a"), ("data-x", " a  b "), ("data-y", "&lt;'&quot;>"), ("fill", "red"), ("opacity", "1"), ("class", "a b"), ("data-z", "&#10;")] {
            if s.chance(1, 10) {
                out.push_str(&format!(" {n}=\"{v}\""));
            }
        }
    }
    fn gap(&self, s: &mut Src, out: &mut String) {
        out.push_str(s.pick(&["", "", "\n", "\n  ", " ", "\n\n\t"]));
    }
    fn inline(&mut self, s: &mut Src, depth: usize, out: &mut String) {
        for _ in 0..s.weighted(&[1, 3, 3, 3, 2, 1]) {
            self.left -= 1;
            match s.weighted(&[5, if depth < 4 && self.left > 0 { 4 } else { 0 }, 1, 1]) {
                0 => out.push_str(&self.words(s, true)),
                1 => {
                    let n = *s.pick(RENDERED);
                    out.push_str(&format!("<{n}"));
                    self.attrs(s, true, out);
                    out.push('>');
                    self.inline(s, depth + 1, out);
                    out.push_str(&format!("</{n}>"));
                }
                2 => out.push_str(&format!("<!--{}-->", s.pick(&["c", " c  d ", "\n"]))),
                _ => {
                    let n = *s.pick(&["title", "desc", "animate"]);
                    let t = self.words(s, false);
                    out.push_str(&format!("<{n}>{}</{n}>", if n == "animate" { "" } else { &t }));
                }
            }
        }
    }
    fn block(&mut self, s: &mut Src, depth: usize, out: &mut String) {
        self.left -= 1;
        let kinds = [6, if depth < 5 && self.left > 0 { 4 } else { 0 }, 2, 2, 1, 2, 1, 1, 1];
        match s.weighted(&kinds) {
            0 => {
                out.push_str("<text");
                self.attrs(s, true, out);
                out.push('>');
                self.inline(s, 0, out);
                out.push_str("</text>");
            }
            1 => {
                let n = *s.pick(&["g", "defs", "a", "svg", "symbol", "switch", "unknown"]);
                out.push_str(&format!("<{n}"));
                self.attrs(s, false, out);
                out.push('>');
                self.gap(s, out);
                for _ in 0..s.weighted(&[1, 3, 3, 2]) {
                    self.block(s, depth + 1, out);
                    self.gap(s, out);
                }
                out.push_str(&format!("</{n}>"));
            }
            2 => {
                let n = *s.pick(&["rect", "path", "circle"]);
                out.push_str(&format!("<{n}"));
                self.attrs(s, false, out);
                out.push_str(s.pick(&["/>", "></X>", ">\n</X>"]).replace('X', n).as_str());
            }
            3 => {
                let n = *s.pick(&["title", "desc", "metadata"]);
                out.push_str(&format!("<{n}"));
                self.attrs(s, false, out);
                out.push_str(&format!(">{}</{n}>", self.words(s, true)));
            }
            4 => {
                let t = *s.pick(&["f()", "// a\nf()", "\n  f('a  b')\n  ", "<![CDATA[if (a < b) {\n\tg()\n}]]>", "a\n+b", "", " ", "x = `a\n\u{a0} b`"]);
                out.push_str(&format!("<script>{t}</script>"));
            }
            5 => out.push_str(&format!("<!--{}-->", s.pick(&["c", "", " c  d ", "\n  x\n", "!k"]))),
            6 => out.push_str(s.pick(&["<?a?>", "<?a  b  ?>"])),
            7 => {
                let css = *s.pick(&[".a{fill:red}", "\n.a{fill:red}\n .b > .c { fill : red }\n", "<![CDATA[.a{fill:red}]]>", "", " "]);
                out.push_str(&format!("<style>{css}</style>"));
            }
            _ => {
                out.push_str("<foreignObject>");
                self.gap(s, out);
                out.push_str("<p xmlns=\"http://www.w3.org/1999/xhtml\">");
                out.push_str(&self.words(s, true));
                out.push_str("</p>");
                self.gap(s, out);
                out.push_str("</foreignObject>");
            }
        }
    }
}

fn norm(t: &str) -> String {
    t.split(is_space).filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" ")
}

/// How white space is meant to be handled.
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Auto,
    Default,
    Preserve,
    Never,
}

struct Run {
    /// Spaces at the ends of text that can collapse are left out.
    loose: bool,
    /// Character, number of the element it is in, and whether it can collapse.
    chars: Vec<(char, usize, bool)>,
    owners: usize,
}

fn collect(e: &El, preserve: bool, mode: Mode, run: &mut Run) {
    run.owners += 1;
    let owner = run.owners;
    for k in &e.kids {
        match k {
            Node::Text(t) => {
                let t = if run.loose && !preserve { t.trim_matches(is_space) } else { t };
                for c in t.chars() {
                    if !is_space(c) {
                        run.chars.push((c, owner, false));
                    } else if preserve {
                        run.chars.push((' ', owner, false));
                    } else if run.chars.last().is_some_and(|l| !l.2) {
                        run.chars.push((' ', owner, true));
                    }
                }
            }
            Node::El(k) => {
                if RENDERED.contains(&k.name.as_str()) {
                    collect(k, space(k, preserve, mode), mode, run);
                } else {
                    run.owners += 1;
                }
            }
            _ => {}
        }
    }
}

fn space(e: &El, outer: bool, mode: Mode) -> bool {
    match (mode, e.get("xml:space")) {
        (Mode::Default, _) => false,
        (Mode::Preserve, _) => true,
        (_, Some("preserve")) => true,
        (_, Some("default")) => false,
        _ => outer,
    }
}

/// The part of a document that counts.
fn canonical(nodes: &[Node], parent: &str, preserve: bool, mode: Mode, in_text: bool, loose: bool) -> Vec<Node> {
    let mut out = vec![];
    for n in nodes {
        match n {
            Node::Text(t) => match parent {
                // white space is not for the writer to change
                "script" => {
                    let t = t.trim_matches(is_space);
                    if !t.is_empty() {
                        out.push(Node::Text(t.to_string()));
                    }
                }
                "style" => {
                    let t: String = t.chars().filter(|c| !is_space(*c)).collect();
                    let t = t.replace(";}", "}");
                    if !t.is_empty() {
                        out.push(Node::Text(t));
                    }
                }
                _ if in_text && (parent == "text" || RENDERED.contains(&parent)) => {}
                _ => {
                    let exact = mode == Mode::Auto && preserve && matches!(parent, "title" | "desc");
                    let t = if exact { t.chars().map(|c| if is_space(c) { ' ' } else { c }).collect() } else { norm(t) };
                    if !t.is_empty() {
                        out.push(Node::Text(t));
                    }
                }
            },
            Node::El(e) => {
                let preserve = space(e, preserve, mode);
                let inside = in_text || e.name == "text";
                let mut kids = canonical(&e.kids, &e.name, preserve, mode, inside, loose);
                if e.name == "text" && !in_text {
                    let mut run = Run { loose, chars: vec![], owners: 0 };
                    collect(e, preserve, mode, &mut run);
                    if run.chars.last().is_some_and(|l| l.2) {
                        run.chars.pop();
                    }
                    let mut text = String::new();
                    let mut last = 0;
                    for (c, o, _) in run.chars {
                        if o != last {
                            text.push_str(&format!("[{o}]"));
                            last = o;
                        }
                        text.push(c);
                    }
                    kids.push(Node::Text(text));
                }
                out.push(Node::El(El { name: e.name.clone(), attrs: e.attrs.clone(), kids }));
            }
            n => out.push(n.clone()),
        }
    }
    out
}

fn indent(i: Option<u8>) -> Indent {
    match i {
        None => Indent::None,
        Some(255) => Indent::Tabs,
        Some(n) => Indent::Spaces(n),
    }
}

fn format(src: &str, i: &Input) -> Result<String, String> {
    let options = Options {
        use_single_quote: i.single,
        indent: indent(i.indent),
        attributes_indent: indent(i.attributes),
        trim_whitespace: match i.space.as_str() {
            "never" => Space::Never,
            "default" => Space::Default,
            "preserve" => Space::Preserve,
            _ => Space::Auto,
        },
        enable_self_closing: i.closing,
        minify: i.minify,
    };
    parse(src, |doc, _| doc.serialize_with_options(options).map_err(|e| format!("not written: {e}"))).map_err(|e| format!("not read: {e}"))?
}

impl Prop for C23 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> String {
        "the document has a text element with white space between its characters or elements, or a script, and formatting changes the text of the file".into()
    }
    fn cases(&self) -> (u64, u64) {
        (1_200_000, 40_000_000)
    }
    fn generate(&self, s: &mut Src, _: &mut Cx) -> Input {
        let mut g = G { left: 25 };
        let mut svg = String::new();
        if s.chance(1, 8) {
            svg.push_str("<!-- top -->\n");
        }
        svg.push_str("<svg xmlns=\"http://www.w3.org/2000/svg\"");
        g.attrs(s, false, &mut svg);
        svg.push('>');
        g.gap(s, &mut svg);
        for _ in 0..s.weighted(&[1, 4, 3, 2, 1]) {
            g.block(s, 1, &mut svg);
            g.gap(s, &mut svg);
        }
        svg.push_str("</svg>");
        if s.chance(1, 8) {
            svg.push_str("\n<!-- end -->\n");
        }
        Input {
            svg,
            indent: *s.pick(&[None, None, Some(4), Some(2), Some(0), Some(1), Some(255)]),
            attributes: if s.chance(1, 6) { *s.pick(&[Some(2), Some(255), Some(0)]) } else { None },
            space: s.pick(&["auto", "auto", "auto", "default", "preserve", "never"]).to_string(),
            single: s.chance(1, 5),
            closing: s.chance(4, 5),
            minify: s.chance(1, 2),
            strict: false,
        }
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Check {
        let mode = match i.space.as_str() {
            "default" => Mode::Default,
            "preserve" => Mode::Preserve,
            "never" => Mode::Never,
            _ => Mode::Auto,
        };
        // a known finding: these spaces are lost
        let loose = i.indent.is_some() && matches!(i.space.as_str(), "auto" | "default") && !i.strict;
        let read = |src: &str| -> Result<Vec<Node>, String> {
            let mut t = xml::parse(src)?;
            t.retain(|n| !matches!(n, Node::Text(_)));
            Ok(canonical(&t, "", false, mode, false, loose))
        };
        let a = read(&i.svg).map_err(|e| Fail::new("source", e))?;
        let once = guarded(|| format(&i.svg, i).map_err(|e| Fail::new("error", e)))?;
        let b = read(&once).map_err(|e| Fail::new("output is not well-formed", format!("{e}\n  output: {once}")))?;
        let kind = format!("{} {}", i.space, if i.indent.is_some() { "indented" } else { "on one line" });
        if let Some((k, m)) = xml::difference(&a, &b, "") {
            return fail(format!("{kind}: {k} changed"), format!("{m}\n  output: {once}"));
        }
        if matches!(i.space.as_str(), "auto" | "default") {
            let twice = guarded(|| format(&once, i).map_err(|e| Fail::new("error", e)))?;
            if once != twice {
                return fail(format!("{kind}: not stable"), format!("once: {once}\n  twice: {twice}"));
            }
            cx.label("formatted twice");
        }
        cx.label(kind);
        let text = i.svg.contains("<text");
        cx.label_if(text, "text");
        cx.label_if(i.svg.contains("preserve"), "preserved space");
        cx.label_if(i.svg.contains("<script"), "script");
        if (text || i.svg.contains("<script")) && once != i.svg {
            cx.nontrivial((&i.svg, &i.space, i.indent, i.single, i.minify));
        }
        Ok(())
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![
            ("text", 300), ("preserved space", 100), ("script", 50), ("formatted twice", 100), ("auto indented", 50), ("auto on one line", 50), ("default indented", 20), ("default on one line", 20), ("preserve indented", 20),
            ("preserve on one line", 20), ("never indented", 20), ("never on one line", 20),
        ]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "text in text elements is compared after collapsing white space across element boundaries as CSS does, with the element each character belongs to; a mode that overrides xml:space is compared under that override".into(),
            "text of foreign elements, titles and metadata is compared word by word; scripts exactly but for white space at their ends".into(),
            "only automatic and default spacing are required to be stable: the other two add the indent to white space they keep".into(),
        ]
    }
    fn render(&self, i: &Input) -> String {
        format!("{:?} indent {:?} attributes {:?} single {} closing {} minify {}\n{}", i.space, i.indent, i.attributes, i.single, i.closing, i.minify, i.svg)
    }
}

fn main() {
    pbt::engine::main(C23)
}
