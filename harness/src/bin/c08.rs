//! C08: tree edits behave like edits on an ordered tree (model-based, stateful).
use oxvg_ast::arena::Allocator;
use oxvg_ast::element::Element;
use oxvg_ast::node::{NodeData, Ref, Type};
use oxvg_ast::parse::roxmltree::parse;
use oxvg_collections::element::ElementId;
use pbt::engine::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    AppendChild(u16, u16),
    Append(u16, u16),
    Prepend(u16, u16),
    InsertBefore(u16, u16),
    InsertAfter(u16, u16),
    Insert(u16, u16, u16),
    Before(u16, u16),
    After(u16, u16),
    ReplaceWith(u16, u16),
    ReplaceChild(u16, u16),
    ReplaceChildren(u16, Vec<u16>),
    Remove(u16),
    Retain(u16, u32),
    Empty(u16),
    Flatten(u16),
    Sort(u16, u16),
    Clone(u16),
    CreateElement(u16),
    CreateText(u16),
    SetText(u16),
    Rename(u16, u16),
    Reorder,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tree {
    E(u8, Vec<Tree>),
    T,
    C,
    P,
}

#[derive(Clone, Serialize, Deserialize)]
struct Input {
    tree: Vec<Tree>,
    ops: Vec<Op>,
}

const NAMES: &[&str] = &["g", "path", "rect", "text", "use"];

fn xml(ts: &[Tree], out: &mut String, top: bool) {
    let mut prev_text = false;
    for t in ts {
        match t {
            Tree::E(n, c) => {
                let name = NAMES[*n as usize % NAMES.len()];
                out.push_str(&format!("<{name}>"));
                xml(c, out, false);
                out.push_str(&format!("</{name}>"));
            }
            Tree::T => {
                if !top && !prev_text {
                    out.push('t');
                }
            }
            Tree::C => out.push_str("<!--c-->"),
            Tree::P => out.push_str("<?p q?>"),
        }
        prev_text = matches!(t, Tree::T);
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Doc,
    Elem,
    Text,
    Other,
}

#[derive(Clone)]
struct M {
    kind: Kind,
    name: String,
    parent: Option<usize>,
    kids: Vec<usize>,
}

#[derive(Default)]
struct Model {
    n: Vec<M>,
}
impl Model {
    fn add(&mut self, kind: Kind, name: &str) -> usize {
        self.n.push(M { kind, name: name.into(), parent: None, kids: vec![] });
        self.n.len() - 1
    }
    fn detach(&mut self, i: usize) {
        if let Some(p) = self.n[i].parent.take() {
            self.n[p].kids.retain(|k| *k != i);
        }
    }
    fn put(&mut self, p: usize, at: usize, i: usize) {
        self.n[i].parent = Some(p);
        self.n[p].kids.insert(at, i);
    }
    fn pos(&self, i: usize) -> usize {
        let p = self.n[i].parent.unwrap();
        self.n[p].kids.iter().position(|k| *k == i).unwrap()
    }
    /// i is d or an ancestor of d
    fn is_anc(&self, i: usize, d: usize) -> bool {
        let mut c = Some(d);
        while let Some(x) = c {
            if x == i {
                return true;
            }
            c = self.n[x].parent;
        }
        false
    }
    fn root_of(&self, mut i: usize) -> usize {
        while let Some(p) = self.n[i].parent {
            i = p;
        }
        i
    }
    fn show(&self, i: usize, out: &mut String) {
        let m = &self.n[i];
        out.push_str(&format!("{}#{i}", m.name));
        if !m.kids.is_empty() {
            out.push('(');
            for k in &m.kids {
                self.show(*k, out);
                out.push(' ');
            }
            out.push(')');
        }
    }
}

fn name_of(n: Ref) -> (Kind, String) {
    match n.node_type() {
        Type::Document => (Kind::Doc, "#doc".into()),
        Type::Element => (Kind::Elem, Element::new(n).unwrap().local_name().to_string()),
        Type::Text => (Kind::Text, "#text".into()),
        _ => (Kind::Other, "#other".into()),
    }
}

fn ids<'i, 'a>(r: &[Ref<'i, 'a>], x: Option<Ref<'i, 'a>>) -> Option<usize> {
    x.map(|x| r.iter().position(|y| std::ptr::eq(*y, x)).unwrap_or(usize::MAX))
}

fn validate<'i, 'a>(m: &Model, r: &[Ref<'i, 'a>], alloc: &Allocator<'i, 'a>, deep: bool) -> Result<(), String> {
    let cap = r.len() + 2;
    for (i, node) in r.iter().enumerate() {
        let mm = &m.n[i];
        let what = |s: &str, got: String, want: String| Err(format!("node {}#{i}: {s} is {got}, expected {want}", mm.name));
        let got = ids(r, node.parent.get());
        if got != mm.parent {
            return what("parent", format!("{got:?}"), format!("{:?}", mm.parent));
        }
        let (prev, next) = match mm.parent {
            None => (None, None),
            Some(p) => {
                let k = m.pos(i);
                let kids = &m.n[p].kids;
                (if k > 0 { Some(kids[k - 1]) } else { None }, kids.get(k + 1).copied())
            }
        };
        let got = ids(r, node.previous_sibling());
        if got != prev {
            return what("previous sibling", format!("{got:?}"), format!("{prev:?}"));
        }
        let got = ids(r, node.next_sibling());
        if got != next {
            return what("next sibling", format!("{got:?}"), format!("{next:?}"));
        }
        let got = ids(r, node.first_child());
        if got != mm.kids.first().copied() {
            return what("first child", format!("{got:?}"), format!("{:?}", mm.kids.first()));
        }
        let got = ids(r, node.last_child());
        if got != mm.kids.last().copied() {
            return what("last child", format!("{got:?}"), format!("{:?}", mm.kids.last()));
        }
        let fwd: Vec<_> = node.child_nodes_iter().take(cap).map(|c| ids(r, Some(c)).unwrap()).collect();
        if fwd != mm.kids {
            return what("child list", format!("{fwd:?}"), format!("{:?}", mm.kids));
        }
        let mut bwd: Vec<_> = node.child_nodes_iter().rev().take(cap).map(|c| ids(r, Some(c)).unwrap()).collect();
        bwd.reverse();
        if bwd != mm.kids {
            return what("child list from the back", format!("{bwd:?}"), format!("{:?}", mm.kids));
        }
        if !alloc.get(node.id()).is_some_and(|n| std::ptr::eq(n, *node)) {
            return what("allocation lookup", "another node".into(), "itself".into());
        }
        if !deep {
            continue;
        }
        if node.child_node_count() != mm.kids.len() || node.has_child_nodes() == mm.kids.is_empty() {
            return what("child count", format!("{}", node.child_node_count()), format!("{}", mm.kids.len()));
        }
        // alternating double-ended traversal
        let mut it = node.child_nodes_iter();
        let (mut a, mut b) = (vec![], vec![]);
        for _ in 0..cap {
            match it.next() {
                Some(x) => a.push(ids(r, Some(x)).unwrap()),
                None => break,
            }
            match it.next_back() {
                Some(x) => b.push(ids(r, Some(x)).unwrap()),
                None => break,
            }
        }
        b.reverse();
        a.extend(b);
        if a != mm.kids {
            return what("children taken from both ends", format!("{a:?}"), format!("{:?}", mm.kids));
        }
        for (k, c) in mm.kids.iter().enumerate() {
            if node.child_index(&r[*c]) != Some(k) {
                return what("child_index", format!("{:?}", node.child_index(&r[*c])), format!("{k}"));
            }
            if ids(r, node.item(k)) != Some(*c) {
                return what("item", format!("{:?}", ids(r, node.item(k))), format!("{c}"));
            }
        }
        for (j, other) in r.iter().enumerate() {
            let want = j != i && m.is_anc(i, j);
            if node.contains(other) != want {
                return what(&format!("contains(#{j})"), format!("{}", !want), format!("{want}"));
            }
        }
        if mm.kind == Kind::Elem {
            let e = Element::new(node).unwrap();
            let kids: Vec<usize> = mm.kids.iter().copied().filter(|k| m.n[*k].kind == Kind::Elem).collect();
            let got: Vec<usize> = e.children().into_iter().map(|c| ids(r, Some(c.0)).unwrap()).collect();
            if got != kids {
                return what("element children", format!("{got:?}"), format!("{kids:?}"));
            }
            if e.first_element_child().map(|c| ids(r, Some(c.0)).unwrap()) != kids.first().copied()
                || e.last_element_child().map(|c| ids(r, Some(c.0)).unwrap()) != kids.last().copied()
                || e.child_element_count() != kids.len()
                || e.has_child_elements() == kids.is_empty()
            {
                return what("first/last/count of element children", "different".into(), format!("{kids:?}"));
            }
            let pe = e.parent_element().map(|c| ids(r, Some(c.0)).unwrap());
            let want = mm.parent.filter(|p| m.n[*p].kind == Kind::Elem);
            if pe != want {
                return what("parent element", format!("{pe:?}"), format!("{want:?}"));
            }
            if let Some(p) = want {
                let sib: Vec<usize> = m.n[p].kids.iter().copied().filter(|k| m.n[*k].kind == Kind::Elem).collect();
                let k = sib.iter().position(|x| *x == i).unwrap();
                let got = e.next_element_sibling().map(|c| ids(r, Some(c.0)).unwrap());
                if got != sib.get(k + 1).copied() {
                    return what("next element sibling", format!("{got:?}"), format!("{:?}", sib.get(k + 1)));
                }
                let got = e.previous_element_sibling().map(|c| ids(r, Some(c.0)).unwrap());
                let want = if k > 0 { Some(sib[k - 1]) } else { None };
                if got != want {
                    return what("previous element sibling", format!("{got:?}"), format!("{want:?}"));
                }
            }
            let mut want = vec![];
            let mut queue: std::collections::VecDeque<usize> = kids.iter().copied().collect();
            while let Some(x) = queue.pop_front() {
                want.push(x);
                queue.extend(m.n[x].kids.iter().copied().filter(|k| m.n[*k].kind == Kind::Elem));
            }
            let got: Vec<usize> = e.breadth_first().take(cap).map(|c| ids(r, Some(c.0)).unwrap()).collect();
            if got != want {
                return what("breadth-first traversal", format!("{got:?}"), format!("{want:?}"));
            }
        }
    }
    Ok(())
}

struct C08;

fn tree(s: &mut Src, depth: u32) -> Vec<Tree> {
    s.list(0, if depth == 0 { 3 } else { 2 }, 5, |s| match s.weighted(&[5, 3, 1, 1]) {
        0 => {
            let n = s.n(NAMES.len() as u64) as u8;
            let c = if depth >= 3 { vec![] } else { tree(s, depth + 1) };
            Tree::E(n, c)
        }
        1 => Tree::T,
        2 => Tree::C,
        _ => Tree::P,
    })
}

fn op(s: &mut Src) -> Op {
    fn r(s: &mut Src) -> u16 {
        s.n(64) as u16
    }
    match s.n(22) {
        0 => Op::Remove(r(s)),
        1 => Op::AppendChild(r(s), r(s)),
        2 => Op::Append(r(s), r(s)),
        3 => Op::Prepend(r(s), r(s)),
        4 => Op::InsertBefore(r(s), r(s)),
        5 => Op::InsertAfter(r(s), r(s)),
        6 => Op::Insert(r(s), s.n(6) as u16, r(s)),
        7 => Op::Before(r(s), r(s)),
        8 => Op::After(r(s), r(s)),
        9 => Op::ReplaceWith(r(s), r(s)),
        10 => Op::ReplaceChild(r(s), r(s)),
        11 => Op::ReplaceChildren(r(s), s.list(0, 2, 4, r)),
        12 => Op::Retain(r(s), s.n(256) as u32),
        13 => Op::Empty(r(s)),
        14 => Op::Flatten(r(s)),
        15 => Op::Sort(r(s), s.n(3) as u16),
        16 => Op::Clone(r(s)),
        17 => Op::CreateElement(r(s)),
        18 => Op::CreateText(r(s)),
        19 => Op::SetText(r(s)),
        20 => Op::Rename(r(s), r(s)),
        _ => Op::Reorder,
    }
}

impl Prop for C08 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> String {
        "A parsed document (elements, text, comments, processing instructions, depth up to 4) and a history of up to 30 tree edits whose operands are any attached or detached nodes (cycles excluded: an edit never puts a node under itself); after every edit all links, traversals and lookups of all nodes are compared with an ordered-tree model. Non-trivial: at least four edits change the tree.".into()
    }
    fn cases(&self) -> (u64, u64) {
        (1_500_000, 20_000_000)
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![("Retain", 100), ("Before", 100), ("Sort", 100), ("ReplaceChild", 80), ("move attached", 300), ("Flatten", 100), ("ReplaceChildren", 80)]
    }
    fn generate(&self, s: &mut Src, _: &mut Cx) -> Input {
        Input { tree: tree(s, 0), ops: s.list(1, 9, 30, op) }
    }
    fn check(&self, input: &Input, cx: &mut Cx) -> Check {
        let mut src = String::from("<svg xmlns=\"http://www.w3.org/2000/svg\">");
        xml(&input.tree, &mut src, false);
        src.push_str("</svg>");
        let cx = RefCell::new(cx);
        let r = parse(&src, |root, alloc| run(root, &alloc, &input.ops, &mut cx.borrow_mut()));
        match r {
            Ok(r) => r,
            Err(e) => fail("parse", format!("{e}")),
        }
    }
    fn render(&self, i: &Input) -> String {
        let mut src = String::from("<svg>");
        xml(&i.tree, &mut src, false);
        src.push_str("</svg>");
        format!("{src} then {:?}", i.ops)
    }
}

fn run<'i, 'a>(root: Ref<'i, 'a>, alloc: &Allocator<'i, 'a>, ops: &[Op], cx: &mut Cx) -> Check {
    let mut m = Model::default();
    let mut r: Vec<Ref<'i, 'a>> = vec![];
    fn load<'i, 'a>(n: Ref<'i, 'a>, m: &mut Model, r: &mut Vec<Ref<'i, 'a>>) -> usize {
        let (k, name) = name_of(n);
        let i = m.add(k, &name);
        r.push(n);
        let mut c = n.first_child();
        while let Some(x) = c {
            let j = load(x, m, r);
            m.n[j].parent = Some(i);
            m.n[i].kids.push(j);
            c = x.next_sibling();
        }
        i
    }
    load(root, &mut m, &mut r);
    if let Err(e) = validate(&m, &r, alloc, true) {
        return fail("after parsing", e);
    }
    let doc = Element::new(root).unwrap().as_document();
    let mut effective = 0;
    let mut log = String::new();
    for (step, op) in ops.iter().enumerate() {
        if r.len() > 60 {
            break;
        }
        let pick = |m: &Model, raw: u16, f: &dyn Fn(usize) -> bool| -> Option<usize> {
            let c: Vec<usize> = (0..m.n.len()).filter(|i| f(*i)).collect();
            if c.is_empty() { None } else { Some(c[raw as usize % c.len()]) }
        };
        let elem = |m: &Model, raw| pick(m, raw, &|i| m.n[i].kind == Kind::Elem);
        // a node that may become a child of p
        let child_for = |m: &Model, raw, p: usize| pick(m, raw, &|i| m.n[i].kind != Kind::Doc && !m.is_anc(i, p));
        let attached = |m: &Model, raw| pick(m, raw, &|i| m.n[i].parent.is_some());
        let before = { let mut s = String::new(); m.show(0, &mut s); s };
        let done: Option<&str> = (|| {
            match op {
                Op::AppendChild(p, c) | Op::Append(p, c) | Op::Prepend(p, c) => {
                    let p = elem(&m, *p)?;
                    let c = child_for(&m, *c, p)?;
                    if m.n[c].parent.is_some() {
                        cx.label("move attached");
                    }
                    let name = match op {
                        Op::AppendChild(..) => {
                            r[p].append_child(r[c]);
                            "AppendChild"
                        }
                        Op::Append(..) => {
                            Element::new(r[p]).unwrap().append(r[c]);
                            "Append"
                        }
                        _ => {
                            Element::new(r[p]).unwrap().prepend(r[c]);
                            "Prepend"
                        }
                    };
                    m.detach(c);
                    let at = if matches!(op, Op::Prepend(..)) { 0 } else { m.n[p].kids.len() };
                    m.put(p, at, c);
                    Some(name)
                }
                Op::InsertBefore(n, x) | Op::InsertAfter(n, x) => {
                    let x = attached(&m, *x)?;
                    let p = m.n[x].parent.unwrap();
                    let n = child_for(&m, *n, p)?;
                    if m.n[n].parent.is_some() {
                        cx.label("move attached");
                    }
                    if matches!(op, Op::InsertBefore(..)) {
                        r[p].insert_before(r[n], r[x]);
                    } else {
                        r[p].insert_after(r[n], &r[x]);
                    }
                    if n != x {
                        m.detach(n);
                        let at = m.pos(x) + usize::from(matches!(op, Op::InsertAfter(..)));
                        m.put(p, at, n);
                    }
                    Some(if matches!(op, Op::InsertBefore(..)) { "InsertBefore" } else { "InsertAfter" })
                }
                Op::Insert(p, at, n) => {
                    let p = elem(&m, *p)?;
                    // the index is only unambiguous for a node that is not yet a child
                    let n = pick(&m, *n, &|i| m.n[i].kind != Kind::Doc && !m.is_anc(i, p) && m.n[i].parent != Some(p))?;
                    r[p].insert(*at as usize, r[n]);
                    m.detach(n);
                    let at = (*at as usize).min(m.n[p].kids.len());
                    m.put(p, at, n);
                    Some("Insert")
                }
                Op::Before(e, n) | Op::After(e, n) => {
                    let e = pick(&m, *e, &|i| m.n[i].kind == Kind::Elem && m.n[i].parent.is_some())?;
                    let p = m.n[e].parent.unwrap();
                    let n = child_for(&m, *n, p)?;
                    let el = Element::new(r[e]).unwrap();
                    if m.n[n].parent.is_some() {
                        cx.label("move attached");
                    }
                    if matches!(op, Op::Before(..)) {
                        el.before(r[n]);
                    } else {
                        el.after(r[n]);
                    }
                    if n != e {
                        m.detach(n);
                        let at = m.pos(e) + usize::from(matches!(op, Op::After(..)));
                        m.put(p, at, n);
                    }
                    Some(if matches!(op, Op::Before(..)) { "Before" } else { "After" })
                }
                Op::ReplaceWith(e, n) => {
                    let e = pick(&m, *e, &|i| m.n[i].kind == Kind::Elem && m.n[i].parent.is_some())?;
                    let p = m.n[e].parent.unwrap();
                    let n = pick(&m, *n, &|i| i != e && m.n[i].kind != Kind::Doc && !m.is_anc(i, p))?;
                    Element::new(r[e]).unwrap().replace_with(r[n]);
                    m.detach(n);
                    let at = m.pos(e);
                    m.detach(e);
                    m.put(p, at, n);
                    Some("ReplaceWith")
                }
                Op::ReplaceChild(n, o) => {
                    let o = attached(&m, *o)?;
                    let p = m.n[o].parent.unwrap();
                    let n = pick(&m, *n, &|i| i != o && m.n[i].kind != Kind::Doc && !m.is_anc(i, p))?;
                    r[p].replace_child(r[n], &r[o]);
                    m.detach(n);
                    let at = m.pos(o);
                    m.detach(o);
                    m.put(p, at, n);
                    Some("ReplaceChild")
                }
                Op::ReplaceChildren(e, list) => {
                    let e = elem(&m, *e)?;
                    let mut kids = vec![];
                    for raw in list {
                        if let Some(c) = child_for(&m, *raw, e) {
                            if !kids.contains(&c) {
                                kids.push(c);
                            }
                        }
                    }
                    Element::new(r[e]).unwrap().replace_children(kids.iter().map(|k| r[*k]));
                    for k in m.n[e].kids.clone() {
                        m.detach(k);
                    }
                    for k in kids {
                        m.detach(k);
                        let at = m.n[e].kids.len();
                        m.put(e, at, k);
                    }
                    Some("ReplaceChildren")
                }
                Op::Remove(n) => {
                    let n = pick(&m, *n, &|i| m.n[i].kind != Kind::Doc)?;
                    r[n].remove();
                    m.detach(n);
                    Some("Remove")
                }
                Op::Retain(p, mask) => {
                    let p = pick(&m, *p, &|i| !m.n[i].kids.is_empty())?;
                    let kids = m.n[p].kids.clone();
                    let keep = |k: usize| mask >> (k % 8) & 1 == 1;
                    let mut seen = vec![];
                    r[p].retain_children(|c| {
                        let i = seen.len();
                        seen.push(ids(&r, Some(c)).unwrap());
                        keep(i)
                    });
                    if seen != kids {
                        log = format!("retain visited {seen:?} instead of {kids:?}");
                    }
                    for (i, k) in kids.iter().enumerate() {
                        if !keep(i) {
                            m.detach(*k);
                        }
                    }
                    Some("Retain")
                }
                Op::Empty(p) => {
                    let p = pick(&m, *p, &|i| m.n[i].kind == Kind::Elem)?;
                    r[p].empty();
                    for k in m.n[p].kids.clone() {
                        m.detach(k);
                    }
                    Some("Empty")
                }
                Op::Flatten(e) => {
                    let e = pick(&m, *e, &|i| m.n[i].kind == Kind::Elem && m.n[i].parent.is_some())?;
                    Element::new(r[e]).unwrap().flatten();
                    let p = m.n[e].parent.unwrap();
                    let mut at = m.pos(e);
                    m.detach(e);
                    for k in m.n[e].kids.clone() {
                        m.detach(k);
                        m.put(p, at, k);
                        at += 1;
                    }
                    Some("Flatten")
                }
                Op::Sort(p, mode) => {
                    let p = elem(&m, *p)?;
                    let key = |name: &str| match mode {
                        0 => name.to_string(),
                        1 => name.chars().rev().collect(),
                        _ => name.len().to_string(),
                    };
                    Element::new(r[p]).unwrap().sort_child_elements(|a, b| key(a.local_name()).cmp(&key(b.local_name())));
                    // other nodes come first, in order; elements follow in stable sorted order
                    let kids = m.n[p].kids.clone();
                    let mut new: Vec<usize> = kids.iter().copied().filter(|k| m.n[*k].kind != Kind::Elem).collect();
                    let mut els: Vec<usize> = kids.iter().copied().filter(|k| m.n[*k].kind == Kind::Elem).collect();
                    els.sort_by_key(|k| key(&m.n[*k].name));
                    new.extend(els);
                    m.n[p].kids = new;
                    Some("Sort")
                }
                Op::Clone(n) => {
                    let n = pick(&m, *n, &|i| m.n[i].kind != Kind::Doc)?;
                    let c = r[n].clone_node(alloc);
                    let (k, name) = name_of(c);
                    m.add(k, &name);
                    r.push(c);
                    Some("Clone")
                }
                Op::CreateElement(k) => {
                    let id = [ElementId::G, ElementId::Path, ElementId::Rect][*k as usize % 3].clone();
                    let e = doc.create_element(id, alloc);
                    let (k, name) = name_of(e.0);
                    m.add(k, &name);
                    r.push(e.0);
                    Some("Create")
                }
                Op::CreateText(_) => {
                    let t: Ref = alloc.alloc(NodeData::Text(RefCell::new(Some("x".into()))));
                    m.add(Kind::Text, "#text");
                    r.push(t);
                    Some("Create")
                }
                Op::SetText(e) => {
                    let e = elem(&m, *e)?;
                    r[e].set_text_content("new".into(), alloc);
                    for k in m.n[e].kids.clone() {
                        m.detach(k);
                    }
                    let t = r[e].first_child()?;
                    let i = m.add(Kind::Text, "#text");
                    r.push(t);
                    m.put(e, 0, i);
                    if r[e].text_content().as_deref() != Some("new") {
                        log = "text content not set".into();
                    }
                    Some("SetText")
                }
                Op::Rename(e, k) => {
                    let e = pick(&m, *e, &|i| m.n[i].kind == Kind::Elem && m.n[i].parent.is_some())?;
                    let id = [ElementId::G, ElementId::Path, ElementId::Circle][*k as usize % 3].clone();
                    let n = Element::new(r[e]).unwrap().set_local_name(id, alloc);
                    let (kind, name) = name_of(n.0);
                    let i = m.add(kind, &name);
                    r.push(n.0);
                    let p = m.n[e].parent.unwrap();
                    let at = m.pos(e);
                    m.detach(e);
                    m.put(p, at, i);
                    for k in m.n[e].kids.clone() {
                        m.detach(k);
                        let at = m.n[i].kids.len();
                        m.put(i, at, k);
                    }
                    Some("Rename")
                }
                Op::Reorder => {
                    let len = alloc.reorder(root);
                    let mut order = vec![];
                    fn pre(m: &Model, i: usize, out: &mut Vec<usize>) {
                        out.push(i);
                        for k in &m.n[i].kids {
                            pre(m, *k, out);
                        }
                    }
                    pre(&m, 0, &mut order);
                    if len != order.len() {
                        log = format!("reorder counted {len} nodes, tree has {}", order.len());
                    }
                    for (id, i) in order.iter().enumerate() {
                        if r[*i].id() != id {
                            log = format!("after reorder node #{i} has id {}, expected {id}", r[*i].id());
                        }
                    }
                    Some("Reorder")
                }
            }
        })();
        let Some(name) = done else {
            cx.label("op not applicable");
            continue;
        };
        cx.label(name);
        let shape = { let mut s = String::new(); m.show(0, &mut s); s };
        if shape != before {
            effective += 1;
        }
        if !log.is_empty() {
            return fail(name, format!("step {step}: {log}"));
        }
        if let Err(e) = validate(&m, &r, alloc, step + 1 == ops.len() || step % 4 == 0) {
            return fail(name, format!("after step {step} ({op:?}): {e}; expected tree {shape}"));
        }
    }
    let _ = m.root_of(0);
    if effective >= 4 {
        let mut s = String::new();
        m.show(0, &mut s);
        cx.nontrivial((s, format!("{ops:?}")));
    }
    Ok(())
}

fn main() {
    pbt::engine::main(C08)
}
