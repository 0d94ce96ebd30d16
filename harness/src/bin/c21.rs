//! C21: batch commands write each result to its place and touch nothing else.
use pbt::cli::{run, Scratch};
use pbt::engine::{fail, guarded, Check, Cx, Prop, Src};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;

#[derive(Serialize, Deserialize, Clone)]
struct Input {
    /// Files below the working directory: path and content. A content "\u{0}bin" stands for bytes that are not UTF-8.
    files: Vec<(String, String)>,
    /// Directories that are git repositories.
    git: bool,
    command: String,
    paths: Vec<String>,
    stdin: Option<String>,
    /// Nothing, in place (""), or a path.
    output: Option<String>,
    recursive: bool,
    hidden: bool,
    no_ignore: bool,
    threads: usize,
    quiet: bool,
    /// Optimisation: the configuration, and whether it is given by name or found.
    config: Option<(String, bool)>,
    extends: Option<String>,
    pretty: Option<String>,
    level: Option<String>,
}

const NAMES: &[&str] = &["a.svg", "b.svg", "é b.svg", "c.SVG", "d.txt", "e.svg.bak", ".h.svg", "svg", "x.svg", "-o.svg", "k.svg.svg"];
const DIRS: &[&str] = &["", "", "", "s/", "s/", "s/deep/", ".hid/", "ign/", "s/ign/", "t.svg/"];

fn svg(s: &mut Src) -> String {
    let n = s.int(0, 99);
    match s.weighted(&[8, 3, 2, 1, 1, 1]) {
        0 => format!("<svg xmlns=\"http://www.w3.org/2000/svg\"><!-- {n} --><rect width=\"{n}\" height=\"5\" fill=\"#ff0000\"/><text> é{n} </text></svg>"),
        1 => {
            // A document that is printed in many parts.
            let m = s.us(40) + 5;
            let body: String = (0..m).map(|i| format!("<g id=\"g{i}\" transform=\"translate({n} {i})\">\n<path d=\"M0 0 L {i} {n} L 5 5\"/>\n<title>t{i}</title></g>\n")).collect();
            format!("<?xml version=\"1.0\"?>\n<svg xmlns=\"http://www.w3.org/2000/svg\" width=\"{n}\">\n{body}</svg>\n")
        }
        2 => format!("<svg xmlns=\"http://www.w3.org/2000/svg\" foo=\"{n}\" version=\"1.2\"><g id=\"a\"><g/></g></svg>"),
        3 => format!("<svg xmlns=\"http://www.w3.org/2000/svg\"><g>{n}"),
        4 => String::new(),
        _ => "\u{0}bin".into(),
    }
}

fn broken(c: &str) -> bool {
    c.is_empty() || c.starts_with('\u{0}') || !c.trim_end().ends_with("</svg>")
}

fn bytes(c: &str) -> Vec<u8> {
    if c == "\u{0}bin" {
        b"<svg xmlns=\"http://www.w3.org/2000/svg\">\xff\xfe</svg>".to_vec()
    } else {
        c.as_bytes().to_vec()
    }
}

const JOBS: &[(&str, &str, &str)] = &[
    ("removeComments", "remove_comments", "{}"),
    ("convertColors", "convert_colors", "{}"),
    ("cleanupIds", "cleanup_ids", "{}"),
    ("removeEmptyContainers", "remove_empty_containers", "true"),
    ("convertPathData", "convert_path_data", "{}"),
    ("removeTitle", "remove_title", "true"),
    ("prefixIds", "prefix_ids", "{}"),
    ("collapseGroups", "collapse_groups", "true"),
    ("convertShapeToPath", "convert_shape_to_path", "{}"),
];

fn default_of(job: &str) -> Value {
    // The spelling of a job with its defaults is taken from the tool's own presets where it has one.
    match job {
        "removeEmptyContainers" | "removeTitle" | "collapseGroups" => json!(true),
        _ => json!({}),
    }
}

fn config(s: &mut Src) -> String {
    let mut jobs = serde_json::Map::new();
    let n = s.us(4);
    for _ in 0..n {
        let j = *s.pick(JOBS);
        jobs.insert(j.0.into(), default_of(j.0));
    }
    let mut o = serde_json::Map::new();
    if s.chance(2, 3) {
        o.insert("extends".into(), json!(*s.pick(&["none", "default", "safe"])));
    }
    o.insert("jobs".into(), Value::Object(jobs));
    if s.chance(1, 2) {
        let k = 1 + s.us(3);
        let l: Vec<&str> = (0..k).map(|_| s.pick(JOBS).1).collect();
        o.insert("omit".into(), json!(l));
    }
    let mut c = serde_json::Map::new();
    if s.chance(5, 6) {
        c.insert("optimise".into(), Value::Object(o));
    }
    if s.chance(1, 2) {
        let mut r = serde_json::Map::new();
        for rule in ["noUnknownElements", "noUnknownAttributes", "noDeprecated", "noDefaultAttributes", "noUnusedIds"] {
            if s.chance(1, 2) {
                r.insert(rule.into(), json!(*s.pick(&["Off", "Warn", "Error"])));
            }
        }
        c.insert("lint".into(), Value::Object(r));
    }
    Value::Object(c).to_string()
}

/// Whether an ignore file in one of the directories on the way excludes the entry.
fn ignored(i: &Input, root: &str, rel: &str) -> bool {
    let parts: Vec<&str> = rel.split('/').collect();
    for k in 0..parts.len() {
        let is_dir = k + 1 < parts.len();
        // Ignore files of the root and of the directories above the entry; those nearer come first.
        let mut verdict = None;
        'up: for d in (0..=k).rev() {
            let dir = if d == 0 { root.to_string() } else { format!("{root}/{}", parts[..d].join("/")) };
            for (f, need_git) in [(".ignore", false), (".gitignore", true)] {
                if need_git && !i.git {
                    continue;
                }
                let Some((_, c)) = i.files.iter().find(|x| x.0 == format!("{dir}/{f}")) else { continue };
                for l in c.lines().rev() {
                    let (neg, l) = l.strip_prefix('!').map_or((false, l), |l| (true, l));
                    let (only_dir, l) = l.strip_suffix('/').map_or((false, l), |l| (true, l));
                    if only_dir && !is_dir {
                        continue;
                    }
                    let hit = match l.strip_prefix('*') {
                        Some(suffix) => parts[k].ends_with(suffix),
                        None => parts[k] == l,
                    };
                    if hit {
                        verdict = Some(!neg);
                        break 'up;
                    }
                }
            }
        }
        if verdict == Some(true) {
            return true;
        }
    }
    false
}

/// The SVG files that a path selects, relative to the path.
fn selected(i: &Input, path: &str) -> Vec<String> {
    if i.files.iter().any(|f| f.0 == path) {
        return if path.ends_with(".svg") { vec![String::new()] } else { vec![] };
    }
    let mut r = vec![];
    for (f, _) in &i.files {
        let Some(rel) = f.strip_prefix(&format!("{path}/")) else { continue };
        let parts: Vec<&str> = rel.split('/').collect();
        let name = parts.last().unwrap();
        // A name that is nothing but an extension has none.
        if !name.ends_with(".svg") || name.len() == 4 {
            continue;
        }
        if !i.recursive && parts.len() > 1 {
            continue;
        }
        if !i.hidden && parts.iter().any(|p| p.starts_with('.')) {
            continue;
        }
        if !i.no_ignore && ignored(i, path, rel) {
            continue;
        }
        r.push(rel.to_string());
    }
    r
}

fn lint_rules(i: &Input) -> oxvg_lint::Rules {
    let c: Option<Value> = i.config.as_ref().and_then(|c| serde_json::from_str(&c.0).ok());
    match c.as_ref().and_then(|c| c.get("lint")) {
        Some(r) => {
            let v = |n: &str| match r.get(n).and_then(Value::as_str) {
                Some("Warn") => 1,
                Some("Error") => 2,
                _ => 0,
            };
            pbt::lintgen::rules(&[v("noUnknownElements"), v("noUnknownAttributes"), v("noDeprecated"), v("noDefaultAttributes"), 0, v("noUnusedIds"), 0, 0])
        }
        None => oxvg_lint::Rules::recommended(),
    }
}

fn jobs(i: &Input) -> oxvg_optimiser::Jobs {
    use oxvg_optimiser::Jobs;
    let preset = |p: &str| match p {
        "none" => Jobs::none(),
        "safe" => Jobs::safe(),
        _ => Jobs::default(),
    };
    let given = i.config.as_ref().filter(|c| c.1);
    let c: Option<Value> = match (given, &i.extends, &i.config) {
        (Some(c), _, _) => serde_json::from_str(&c.0).ok(),
        (None, Some(e), _) => return preset(e),
        (None, None, Some(c)) => serde_json::from_str(&c.0).ok(),
        _ => None,
    };
    let Some(o) = c.as_ref().and_then(|c| c.get("optimise")) else { return Jobs::default() };
    let mut base = match o.get("extends").and_then(Value::as_str) {
        Some(p) => serde_json::to_value(preset(p)).unwrap(),
        None => serde_json::to_value(Jobs::none()).unwrap(),
    };
    let b = base.as_object_mut().unwrap();
    for (k, v) in o["jobs"].as_object().unwrap() {
        b.insert(k.clone(), v.clone());
    }
    if let Some(l) = o.get("omit").and_then(Value::as_array) {
        for n in l {
            let j = JOBS.iter().find(|j| Some(j.1) == n.as_str()).unwrap();
            b.remove(j.0);
        }
    }
    serde_json::from_value(base).expect("jobs")
}

/// What the library gives for the document.
fn expected(i: &Input, source: &str, path: Option<&str>) -> Option<String> {
    use oxvg_ast::{
        parse::roxmltree::{parse_with_options, ParsingOptions},
        serialize::Node as _,
        visitor::Info,
        xmlwriter::{Indent, Options},
    };
    let indent = match (i.pretty.as_deref(), i.command.as_str()) {
        (Some("none"), _) | (None, "optimise") => Indent::None,
        (Some("tabs"), _) => Indent::Tabs,
        (Some(n), _) => Indent::Spaces(n.parse().unwrap()),
        (None, _) => Indent::Spaces(4),
    };
    let options = Options { indent, ..Options::default() };
    parse_with_options(source, ParsingOptions { allow_dtd: true, ..ParsingOptions::default() }, |dom, allocator| {
        if i.command == "optimise" {
            let info = Info { path: path.map(PathBuf::from), multipass_count: 0, allocator };
            jobs(i).run(dom, &info).ok()?;
        }
        dom.serialize_with_options(options).ok()
    })
    .ok()?
}

struct C21;

impl Prop for C21 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> String {
        "at least one file is processed and at least one other file is there that must not be".into()
    }
    fn cases(&self) -> (u64, u64) {
        (12_000, 120_000)
    }
    fn generate(&self, s: &mut Src, _cx: &mut Cx) -> Input {
        let mut files: Vec<(String, String)> = vec![];
        let n = 1 + s.us(9);
        for _ in 0..n {
            let root = *s.pick(&["in/", "in/", "in/", "in2/", ""]);
            let dir = if root.is_empty() { "" } else { *s.pick(DIRS) };
            let name = *s.pick(NAMES);
            let p = format!("{root}{dir}{name}");
            let clash = files.iter().any(|f| f.0 == p || f.0.starts_with(&format!("{p}/")) || p.starts_with(&format!("{}/", f.0)));
            if clash {
                continue;
            }
            let c = svg(s);
            files.push((p, c));
        }
        if s.chance(1, 2) {
            let k = 1 + s.us(2);
            for _ in 0..k {
                let dir = *s.pick(&["in", "in", "in/s", "in2"]);
                let f = format!("{dir}/{}", s.pick(&[".ignore", ".gitignore"]));
                if files.iter().any(|x| x.0 == f) {
                    continue;
                }
                let m = 1 + s.us(2);
                let l: Vec<&str> = (0..m).map(|_| *s.pick(&["ign/", "ign", "b.svg", "*.svg", "!a.svg", "!b.svg", "deep/", "a.svg"])).collect();
                files.push((f, l.join("\n")));
            }
        }
        for f in ["in/p.svg", "in2/q.svg"] {
            if !files.iter().any(|x| x.0.starts_with(&f[..=f.find('/').unwrap()]) && !x.0.ends_with("ignore")) {
                let c = svg(s);
                files.push((f.into(), c));
            }
        }
        let command = s.pick(&["optimise", "optimise", "format", "lint"]).to_string();
        let stdin = s.chance(1, 10);
        let output = match s.weighted(&[3, 3, 4]) {
            0 => None,
            1 => Some(String::new()),
            _ => Some(s.pick(&["out", "out", "new/dir", "out.svg"]).to_string()),
        };
        let to_path = output.as_ref().is_some_and(|o| !o.is_empty());
        let single: Vec<String> = files.iter().filter(|f| !f.0.ends_with("ignore") && !f.0.starts_with('-')).map(|f| f.0.clone()).collect();
        let paths: Vec<String> = if stdin {
            vec![]
        } else {
            match s.weighted(&[6, 2, 3, 1]) {
                1 if !to_path => vec!["in".into(), "in2".into()],
                2 => vec![s.pick(&single).clone()],
                3 if !to_path => {
                    // Files one by one
                    let mut l = vec![];
                    for _ in 0..2 {
                        let f = s.pick(&single).clone();
                        if !l.contains(&f) {
                            l.push(f);
                        }
                    }
                    l
                }
                _ => vec!["in".into()],
            }
        };
        // Former content of the output.
        if let Some(o) = output.as_ref().filter(|o| !o.is_empty() && s.chance(1, 3)) {
            let file = stdin || files.iter().any(|f| f.0 == paths[0]);
            let name = if file { o.clone() } else { format!("{o}/{}", s.pick(&["a.svg", "b.svg", "other.svg", "s/x.svg", "z.txt"])) };
            if !files.iter().any(|f| f.0 == name) {
                let c = format!("former {}", "x".repeat(s.us(3000)));
                files.push((name, c));
            }
        }
        let config = if s.chance(1, 2) { Some((config(s), s.chance(1, 2))) } else { None };
        let extends = if command == "optimise" && s.chance(1, 4) { Some(s.pick(&["none", "default", "safe"]).to_string()) } else { None };
        Input {
            git: s.chance(1, 2),
            stdin: if stdin { Some(svg(s)) } else { None },
            recursive: s.chance(2, 3),
            hidden: s.chance(1, 3),
            no_ignore: s.chance(1, 3),
            threads: s.us(9),
            quiet: s.chance(1, 2),
            pretty: if command != "lint" && s.chance(1, 2) { Some(s.pick(&["none", "tabs", "2"]).to_string()) } else { None },
            level: if command == "lint" && s.chance(1, 2) { Some(s.pick(&["off", "warn", "error"]).to_string()) } else { None },
            files,
            command,
            paths,
            output,
            config,
            extends,
        }
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Check {
        let dir = Scratch::new();
        std::fs::create_dir_all(dir.0.join("work")).expect("scratch directory");
        for (f, c) in &i.files {
            dir.write(&format!("work/{f}"), &bytes(c));
        }
        if i.git {
            for d in ["in", "in2"] {
                dir.write(&format!("work/{d}/.git/HEAD"), b"ref: refs/heads/main\n");
            }
        }
        if let Some((c, given)) = &i.config {
            dir.write(if *given { "work/conf.json" } else { "work/oxvgrc.json" }, c.as_bytes());
        }
        let mut args: Vec<String> = if i.command == "lint" { vec!["lint".into(), "check".into()] } else { vec![i.command.clone()] };
        args.extend(i.paths.iter().cloned());
        for (on, flag) in [(i.recursive, "-r"), (i.hidden, "--hidden"), (i.no_ignore, "--no-ignore"), (i.quiet, "--quiet")] {
            if on {
                args.push(flag.into());
            }
        }
        args.push(format!("--threads={}", i.threads));
        if let Some(p) = &i.pretty {
            args.push(format!("--pretty={p}"));
        }
        if let Some(p) = &i.level {
            args.push(format!("--level={p}"));
        }
        if i.config.as_ref().is_some_and(|c| c.1) && i.command != "format" {
            args.push("--config=conf.json".into());
        }
        if let Some(e) = &i.extends {
            args.push(format!("--extends={e}"));
        }
        match i.output.as_deref() {
            Some("") => args.push("--output".into()),
            Some(o) => args.push(format!("--output={o}")),
            None => {}
        }
        let mut before = dir.files();
        let stdin = i.stdin.as_ref().map(|c| bytes(c)).unwrap_or_default();
        let r = run(&dir, &args, &stdin);
        let after = dir.files();

        // What should have happened.
        let mut prints: Vec<String> = vec![];
        let mut failed = false;
        let mut problems: BTreeMap<String, usize> = BTreeMap::new();
        let mut reached = false;
        let mut processed = 0;
        let mut todo: Vec<(Option<String>, String, Option<String>)> = vec![];
        match &i.stdin {
            Some(c) => {
                if c == "\u{0}bin" {
                    failed = true;
                } else {
                    todo.push((None, c.clone(), i.output.clone().filter(|o| !o.is_empty())));
                }
            }
            None => {
                for p in &i.paths {
                    for rel in selected(i, p) {
                        let full = if rel.is_empty() { p.clone() } else { format!("{p}/{rel}") };
                        let c = &i.files.iter().find(|f| f.0 == full).unwrap().1;
                        if c == "\u{0}bin" {
                            continue;
                        }
                        let to = match i.output.as_deref() {
                            None => None,
                            Some("") => Some(full.clone()),
                            Some(o) if rel.is_empty() => Some(o.to_string()),
                            Some(o) => Some(format!("{o}/{rel}")),
                        };
                        todo.push((Some(full), c.clone(), to));
                    }
                }
            }
        }
        for (from, c, to) in &todo {
            processed += 1;
            if i.command == "lint" {
                if broken(c) {
                    failed = true;
                    continue;
                }
                let mut sink = String::new();
                let (e, w) = guarded(|| {
                    Ok(match lint_rules(i).lint_to(&mut sink, c) {
                        Err(oxvg_lint::error::LintingError::Reported { errors, warnings }) => (errors, warnings),
                        _ => (0, 0),
                    })
                })?;
                reached |= match i.level.as_deref() {
                    Some("off") => false,
                    Some("warn") => e + w > 0,
                    _ => e > 0,
                };
                *problems.entry(from.clone().unwrap_or_default()).or_default() += e + w;
                continue;
            }
            if broken(c) {
                failed = true;
                continue;
            }
            let want = guarded(|| Ok(expected(i, c, from.as_deref())))?;
            let Some(want) = want else {
                failed = true;
                continue;
            };
            match to {
                Some(to) => {
                    before.insert(format!("work/{to}"), want.into_bytes());
                }
                None => prints.push(want),
            }
        }
        let out = String::from_utf8_lossy(&r.out).into_owned();
        let show = || format!("oxvg {}\nexit {:?}\nstdout {out:?}\nstderr {:?}", args.join(" "), r.code, r.err);
        for (f, c) in &after {
            match before.get(f) {
                None => return fail("a file is created", format!("{f}\n{}", show())),
                Some(b) if b != c => return fail(if i.files.iter().any(|x| format!("work/{}", x.0) == *f) && todo.iter().all(|t| t.2.as_ref().is_none_or(|t| format!("work/{t}") != *f)) { "another file is changed" } else { "content written" }, format!("{f}: {:?} instead of {:?}\n{}", String::from_utf8_lossy(c), String::from_utf8_lossy(b), show())),
                _ => {}
            }
        }
        if let Some(f) = before.keys().find(|f| !after.contains_key(*f)) {
            let known = i.files.iter().any(|x| format!("work/{}", x.0) == *f);
            return fail(if known { "a file is deleted" } else { "a result is not written" }, format!("{f}\n{}", show()));
        }
        if i.command == "lint" {
            for (p, n) in &problems {
                let m = out.matches(&format!("[\u{1b}[34m{p}\u{1b}[0m:")).count();
                if m != *n {
                    return fail("problems reported for a file", format!("{p}: {m} instead of {n}\n{}", show()));
                }
            }
            let all = out.matches("╭─[\u{1b}[34m").count();
            if all != problems.values().sum::<usize>() {
                return fail("problems reported for other files", show());
            }
        } else {
            let wrote = todo.iter().any(|t| t.2.is_some());
            if !wrote || i.quiet {
                let mut left = out.clone();
                prints.sort_by_key(|p| std::cmp::Reverse(p.len()));
                for p in &prints {
                    match left.find(p.as_str()) {
                        Some(at) => left.replace_range(at..at + p.len(), ""),
                        None => return fail("document printed", format!("{p:?}\n{}", show())),
                    }
                }
                if !left.trim().is_empty() {
                    return fail("something else is printed", format!("{left:?}\n{}", show()));
                }
            }
        }
        let bad = failed || reached;
        if bad != (r.code != Some(0)) || r.code.is_none() {
            return fail(if bad { "ends well in spite of problems" } else { "ends with an error" }, show());
        }
        cx.label(&i.command);
        cx.label_if(i.stdin.is_some(), "standard input");
        cx.label_if(failed, "broken document");
        cx.label_if(i.output.as_deref() == Some("") && processed > 0 && i.command != "lint", "in place");
        cx.label_if(i.output.as_deref().is_some_and(|o| !o.is_empty()) && processed > 1 && i.command != "lint", "mirrored");
        cx.label_if(prints.len() > 1, "several documents printed");
        cx.label_if(i.config.is_some() && i.command == "optimise" && processed > 0, "configuration");
        let shunned = i.files.len() > processed;
        cx.label_if(i.files.iter().any(|f| f.0.contains("/.") && f.0.ends_with(".svg")) && !i.hidden && processed > 0, "hidden entries");
        if processed > 0 && shunned {
            cx.nontrivial(serde_json::to_string(i).unwrap());
        }
        Ok(())
    }
    fn render(&self, i: &Input) -> String {
        serde_json::to_string(i).unwrap()
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![("optimise", 300), ("format", 100), ("lint", 100), ("standard input", 40), ("broken document", 80), ("in place", 80), ("mirrored", 50), ("several documents printed", 20), ("configuration", 100), ("hidden entries", 20)]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the file system of the scratch directory behaves as POSIX says; the content of each result is compared with what the library gives for the same document and configuration, which other properties judge".into()]
    }
}

fn main() {
    pbt::engine::main(C21)
}
