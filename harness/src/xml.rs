//! A small reader of well-formed XML that keeps names, declarations and order as they are written.

#[derive(Clone, PartialEq, Debug)]
pub enum Node {
    El(El),
    Text(String),
    Comment(String),
    Pi(String, String),
    Doctype(String),
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct El {
    /// Name with its prefix.
    pub name: String,
    /// Attributes and namespace declarations with their prefixes, in order.
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
}

impl El {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str())
    }
    pub fn remove(&mut self, k: &str) {
        self.attrs.retain(|a| a.0 != k);
    }
    pub fn set(&mut self, k: &str, v: &str) {
        match self.attrs.iter_mut().find(|a| a.0 == k) {
            Some(a) => a.1 = v.to_string(),
            None => self.attrs.push((k.to_string(), v.to_string())),
        }
    }
}

pub fn decode(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(p) = rest.find('&') {
        out.push_str(&rest[..p]);
        let e = rest[p..].find(';').ok_or("reference without end")? + p;
        let n = &rest[p + 1..e];
        out.push(match n {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let c = if let Some(h) = n.strip_prefix("#x") { u32::from_str_radix(h, 16) } else { n.strip_prefix('#').ok_or(format!("entity {n}"))?.parse() };
                char::from_u32(c.map_err(|e| e.to_string())?).ok_or("character")?
            }
        });
        rest = &rest[e + 1..];
    }
    out.push_str(rest);
    Ok(out)
}

fn push_text(kids: &mut Vec<Node>, t: &str) {
    if t.is_empty() {
        return;
    }
    if let Some(Node::Text(last)) = kids.last_mut() {
        last.push_str(t);
    } else {
        kids.push(Node::Text(t.to_string()));
    }
}

/// Joins neighbouring text.
pub fn join(kids: Vec<Node>) -> Vec<Node> {
    let mut out = vec![];
    for k in kids {
        match k {
            Node::Text(t) => push_text(&mut out, &t),
            Node::El(mut e) => {
                e.kids = join(e.kids);
                out.push(Node::El(e));
            }
            k => out.push(k),
        }
    }
    out
}

/// Reads a document that is known to be well-formed.
pub fn parse(src: &str) -> Result<Vec<Node>, String> {
    let src = src.replace("\r\n", "\n").replace('\r', "\n");
    let mut stack: Vec<El> = vec![El::default()];
    let mut rest: &str = src.strip_prefix('\u{feff}').unwrap_or(&src);
    fn until<'a>(s: &'a str, end: &str) -> Result<(&'a str, &'a str), String> {
        let p = s.find(end).ok_or_else(|| format!("no {end}"))?;
        Ok((&s[..p], &s[p + end.len()..]))
    }
    while !rest.is_empty() {
        let top = stack.last_mut().unwrap();
        if let Some(r) = rest.strip_prefix("<!--") {
            let (t, r) = until(r, "-->")?;
            top.kids.push(Node::Comment(t.to_string()));
            rest = r;
        } else if let Some(r) = rest.strip_prefix("<![CDATA[") {
            let (t, r) = until(r, "]]>")?;
            push_text(&mut top.kids, t);
            rest = r;
        } else if let Some(r) = rest.strip_prefix("<?") {
            let (t, r) = until(r, "?>")?;
            let (n, v) = t.split_once(char::is_whitespace).unwrap_or((t, ""));
            if n != "xml" {
                top.kids.push(Node::Pi(n.to_string(), v.trim_start().to_string()));
            }
            rest = r;
        } else if let Some(r) = rest.strip_prefix("<!DOCTYPE") {
            let mut depth = 0;
            let mut end = None;
            for (i, c) in r.char_indices() {
                match c {
                    '[' => depth += 1,
                    ']' => depth -= 1,
                    '>' if depth == 0 => {
                        end = Some(i);
                        break;
                    }
                    _ => {}
                }
            }
            let end = end.ok_or("document type without end")?;
            top.kids.push(Node::Doctype(r[..end].trim().to_string()));
            rest = &r[end + 1..];
        } else if let Some(r) = rest.strip_prefix("</") {
            let (n, r) = until(r, ">")?;
            let e = stack.pop().unwrap();
            if e.name != n.trim_end() {
                return Err(format!("{n} closes {}", e.name));
            }
            stack.last_mut().ok_or("end tag at the top")?.kids.push(Node::El(e));
            rest = r;
        } else if let Some(r) = rest.strip_prefix('<') {
            let end = r.find(|c: char| c.is_whitespace() || c == '/' || c == '>').ok_or("tag without end")?;
            let mut e = El { name: r[..end].to_string(), ..El::default() };
            let mut r = r[end..].trim_start();
            loop {
                if let Some(x) = r.strip_prefix("/>") {
                    rest = x;
                    top.kids.push(Node::El(e));
                    break;
                }
                if let Some(x) = r.strip_prefix('>') {
                    rest = x;
                    stack.push(e);
                    break;
                }
                let (n, x) = until(r, "=")?;
                let x = x.trim_start();
                let q = if x.starts_with('"') { "\"" } else { "'" };
                let (v, x) = until(x.get(1..).ok_or("value")?, q)?;
                let v: String = v.chars().map(|c| if matches!(c, '\n' | '\t') { ' ' } else { c }).collect();
                e.attrs.push((n.trim_end().to_string(), decode(&v)?));
                r = x.trim_start();
            }
        } else {
            let end = rest.find('<').unwrap_or(rest.len());
            push_text(&mut top.kids, &decode(&rest[..end])?);
            rest = &rest[end..];
        }
    }
    if stack.len() != 1 {
        return Err("unclosed element".into());
    }
    Ok(stack.pop().unwrap().kids)
}

/// The root element of a document.
pub fn root(nodes: &mut [Node]) -> Option<&mut El> {
    nodes.iter_mut().find_map(|n| if let Node::El(e) = n { Some(e) } else { None })
}

/// Calls the function with every element, parents first.
pub fn each(nodes: &mut [Node], f: &mut impl FnMut(&mut El)) {
    for n in nodes {
        if let Node::El(e) = n {
            f(e);
            each(&mut e.kids, f);
        }
    }
}

/// Where and how two trees differ first.
pub fn difference(a: &[Node], b: &[Node], at: &str) -> Option<(String, String)> {
    let show = |n: &Node| match n {
        Node::El(e) => format!("<{}>", e.name),
        n => format!("{n:?}"),
    };
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        match (x, y) {
            (Node::El(x), Node::El(y)) if x.name == y.name => {
                let here = format!("{at}/{}[{i}]", x.name);
                if x.attrs != y.attrs {
                    let mut p = x.attrs.clone();
                    let mut q = y.attrs.clone();
                    p.sort();
                    q.sort();
                    let kind = if p == q { "attribute order" } else { "attributes" };
                    return Some((kind.into(), format!("{here}: {:?} became {:?}", x.attrs, y.attrs)));
                }
                if let Some(d) = difference(&x.kids, &y.kids, &here) {
                    return Some(d);
                }
            }
            (x, y) if x == y => {}
            (Node::Text(x), Node::Text(y)) => return Some(("text".into(), format!("{at}[{i}]: {x:?} became {y:?}"))),
            (x, y) => return Some(("nodes".into(), format!("{at}[{i}]: {} became {}", show(x), show(y)))),
        }
    }
    if a.len() != b.len() {
        let more = if a.len() > b.len() { ("missing", &a[b.len()]) } else { ("added", &b[a.len()]) };
        return Some((more.0.into(), format!("{at}: {}", show(more.1))));
    }
    None
}
