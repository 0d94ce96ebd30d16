//! C24: the language server's diagnostics always reflect the latest document text.
use pbt::cli::{binary, Scratch};
use pbt::engine::{fail, Check, Cx, Prop, Src};
use pbt::lintgen::{self, Problem};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::Duration;

#[derive(Serialize, Deserialize, Clone)]
struct Text {
    source: String,
    problems: Vec<Problem>,
    broken: bool,
}

#[derive(Serialize, Deserialize, Clone)]
enum Step {
    Open(usize, Text),
    /// Earlier changes of the same notification come first.
    Change(usize, Vec<Text>),
    Save(usize),
    Close(usize),
    /// A request in between.
    Ask,
}

#[derive(Serialize, Deserialize, Clone)]
struct Input {
    /// 0 off, 1 warning, 2 error; nothing for the recommended rules.
    rules: Option<[u8; 8]>,
    given: bool,
    steps: Vec<Step>,
}

const URIS: [&str; 3] = ["file:///tmp/a.svg", "file:///tmp/b%20%C3%A9.svg", "untitled:Untitled-1"];
const RECOMMENDED: [u8; 8] = [2, 2, 2, 1, 1, 1, 1, 2];
const NAMES: [&str; 8] = ["noUnknownElements", "noUnknownAttributes", "noDeprecated", "noDefaultAttributes", "noXLink", "noUnusedIds", "noUnusedXmlns", "noInvalidAttributes"];

fn text(s: &mut Src) -> Text {
    match s.weighted(&[8, 3, 1]) {
        0 => {
            let i = lintgen::input(s);
            Text { source: i.source, problems: i.problems, broken: false }
        }
        1 => Text { source: format!("<svg xmlns=\"http://www.w3.org/2000/svg\"><g>{}</g></svg>", s.pick(&["", "a", "é\n"])), problems: vec![], broken: false },
        _ => Text { source: s.pick(&["", "<svg", "<svg xmlns=\"http://www.w3.org/2000/svg\"><rect foo=\"1\"></svg>"]).to_string(), problems: vec![], broken: true },
    }
}

fn position(source: &str, at: usize) -> (u64, u64) {
    let ls = source[..at].rfind('\n').map_or(0, |p| p + 1);
    (source[..ls].matches('\n').count() as u64, source[ls..at].encode_utf16().count() as u64)
}

type Diagnostics = Vec<(String, u64, (u64, u64), (u64, u64))>;

/// What the server published last for each document, and how often it published.
fn session(i: &Input) -> Result<(BTreeMap<String, Diagnostics>, usize, bool), String> {
    let dir = Scratch::new();
    std::fs::create_dir_all(dir.0.join("work")).expect("scratch directory");
    let mut args = vec!["lint", "serve"];
    if let Some(r) = &i.rules {
        let m: serde_json::Map<String, Value> = NAMES.iter().zip(r).map(|(n, v)| (n.to_string(), json!(["Off", "Warn", "Error"][*v as usize]))).collect();
        let c = json!({ "lint": m }).to_string();
        dir.write(if i.given { "work/conf.json" } else { "work/oxvgrc.json" }, c.as_bytes());
        if i.given {
            args.push("--config=conf.json");
        }
    }
    let mut child = Command::new(binary())
        .args(&args)
        .current_dir(dir.0.join("work"))
        .env_clear()
        .env("HOME", dir.0.join("home"))
        .env("XDG_CONFIG_HOME", dir.0.join("home/config"))
        .env("RAYON_NUM_THREADS", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("the tool can be started");
    let mut stdin = child.stdin.take().unwrap();
    let stdout = child.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel::<Value>();
    let reader = std::thread::spawn(move || {
        let mut r = BufReader::new(stdout);
        loop {
            let mut len = 0;
            loop {
                let mut l = String::new();
                if r.read_line(&mut l).unwrap_or(0) == 0 {
                    return;
                }
                let l = l.trim_end();
                if l.is_empty() {
                    break;
                }
                if let Some(n) = l.strip_prefix("Content-Length: ") {
                    len = n.parse().unwrap_or(0);
                }
            }
            let mut b = vec![0; len];
            if r.read_exact(&mut b).is_err() {
                return;
            }
            if tx.send(serde_json::from_slice(&b).unwrap_or(Value::Null)).is_err() {
                return;
            }
        }
    });
    let frame = |v: &Value| {
        let b = v.to_string();
        format!("Content-Length: {}\r\n\r\n{b}", b.len())
    };
    let mut say = |v: Value| {
        let _ = stdin.write_all(frame(&v).as_bytes());
        let _ = stdin.flush();
    };
    let mut all: BTreeMap<String, Diagnostics> = BTreeMap::new();
    let mut count = 0;
    let mut take = |v: &Value| {
        if v["method"] != "textDocument/publishDiagnostics" {
            return;
        }
        count += 1;
        let pos = |p: &Value| (p["line"].as_u64().unwrap_or(u64::MAX), p["character"].as_u64().unwrap_or(u64::MAX));
        let mut d: Diagnostics = v["params"]["diagnostics"]
            .as_array()
            .into_iter()
            .flatten()
            .map(|d| (d["message"].as_str().unwrap_or("").to_string(), d["severity"].as_u64().unwrap_or(0), pos(&d["range"]["start"]), pos(&d["range"]["end"])))
            .collect();
        d.sort();
        all.insert(v["params"]["uri"].as_str().unwrap_or("").to_string(), d);
    };
    say(json!({"jsonrpc":"2.0","id":1,"method":"initialize","params":{"capabilities":{}}}));
    let mut ok = true;
    loop {
        match rx.recv_timeout(Duration::from_secs(60)) {
            Ok(v) if v["id"] == 1 => break,
            Ok(_) => {}
            Err(_) => {
                ok = false;
                break;
            }
        }
    }
    let mut expect = 0;
    if ok {
        say(json!({"jsonrpc":"2.0","method":"initialized","params":{}}));
        let mut version = 0;
        let mut id = 10;
        for st in &i.steps {
            version += 1;
            match st {
                Step::Open(d, t) => {
                    expect += 1;
                    say(json!({"jsonrpc":"2.0","method":"textDocument/didOpen","params":{"textDocument":{"uri":URIS[*d],"languageId":"svg","version":version,"text":t.source}}}));
                }
                Step::Change(d, t) => {
                    expect += usize::from(!t.is_empty());
                    let c: Vec<Value> = t.iter().map(|t| json!({"text":t.source})).collect();
                    say(json!({"jsonrpc":"2.0","method":"textDocument/didChange","params":{"textDocument":{"uri":URIS[*d],"version":version},"contentChanges":c}}));
                }
                Step::Save(d) => say(json!({"jsonrpc":"2.0","method":"textDocument/didSave","params":{"textDocument":{"uri":URIS[*d]}}})),
                Step::Close(d) => say(json!({"jsonrpc":"2.0","method":"textDocument/didClose","params":{"textDocument":{"uri":URIS[*d]}}})),
                Step::Ask => {
                    id += 1;
                    say(json!({"jsonrpc":"2.0","id":id,"method":"textDocument/hover","params":{"textDocument":{"uri":URIS[0]},"position":{"line":0,"character":0}}}));
                }
            }
        }
        say(json!({"jsonrpc":"2.0","id":2,"method":"shutdown"}));
        // The answer does not tell that all is published: wait for that, or for a long silence.
        let mut answered = false;
        let mut n = 0;
        while !answered || n < expect {
            match rx.recv_timeout(Duration::from_secs(if answered { 4 } else { 60 })) {
                Ok(v) => {
                    answered |= v["id"] == 2;
                    n += usize::from(v["method"] == "textDocument/publishDiagnostics");
                    take(&v);
                }
                Err(_) => {
                    ok = answered;
                    break;
                }
            }
        }
        say(json!({"jsonrpc":"2.0","method":"exit"}));
    }
    drop(stdin);
    let _ = child.kill();
    let _ = child.wait();
    let _ = reader.join();
    while let Ok(v) = rx.try_recv() {
        take(&v);
    }
    Ok((all, count, ok))
}

struct C24;

impl Prop for C24 {
    type Input = Input;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> String {
        "a document is changed at least once after it was opened and at least one problem was there at some time".into()
    }
    fn cases(&self) -> (u64, u64) {
        (10_000, 100_000)
    }
    fn generate(&self, s: &mut Src, _cx: &mut Cx) -> Input {
        let rules = if s.chance(1, 2) {
            let mut r = [0; 8];
            for x in &mut r {
                *x = s.us(3) as u8;
            }
            Some(r)
        } else {
            None
        };
        let mut open = [false; 3];
        let mut steps = vec![];
        let n = 1 + s.us(9);
        for _ in 0..n {
            let d = s.weighted(&[3, 1, 1]);
            let st = s.span(|s| {
                if !open[d] {
                    return Step::Open(d, text(s));
                }
                match s.weighted(&[8, 1, 1, 1]) {
                    0 => {
                        let k = s.weighted(&[0, 5, 1, 1]);
                        Step::Change(d, (0..k).map(|_| text(s)).collect())
                    }
                    1 => Step::Save(d),
                    2 => Step::Close(d),
                    _ => Step::Ask,
                }
            });
            match &st {
                Step::Open(..) => open[d] = true,
                Step::Close(_) => open[d] = false,
                _ => {}
            }
            steps.push(st);
        }
        Input { rules, given: s.chance(1, 2), steps }
    }
    fn check(&self, i: &Input, cx: &mut Cx) -> Check {
        let (got, _, alive) = session(i).map_err(|e| pbt::engine::Fail::new("session", e))?;
        if !alive {
            return fail("the server stops answering", String::new());
        }
        let rules = i.rules.unwrap_or(RECOMMENDED);
        let mut latest: BTreeMap<usize, &Text> = BTreeMap::new();
        let mut changed = false;
        let mut problems = false;
        for st in &i.steps {
            match st {
                Step::Open(d, t) => {
                    latest.insert(*d, t);
                    problems |= !t.problems.is_empty();
                }
                Step::Change(d, t) => {
                    if let Some(t) = t.last() {
                        problems |= !t.problems.is_empty();
                        cx.label_if(latest.get(d).is_some_and(|l| !l.problems.is_empty()) && t.problems.is_empty(), "problems go away");
                        cx.label_if(t.broken, "broken text");
                        latest.insert(*d, t);
                        changed = true;
                    }
                    cx.label_if(t.len() > 1, "several changes at once");
                }
                Step::Close(d) => {
                    latest.remove(d);
                }
                _ => {}
            }
        }
        cx.label_if(latest.len() > 1, "several documents");
        cx.label_if(i.given && i.rules.is_some(), "configuration by name");
        for (d, t) in &latest {
            let mut want: Diagnostics = t
                .problems
                .iter()
                .filter(|p| rules[p.rule] > 0)
                .map(|p| (p.text.clone(), if rules[p.rule] == 2 { 1 } else { 2 }, position(&t.source, p.start), position(&t.source, p.end)))
                .collect();
            want.sort();
            let none = vec![];
            let have = got.get(URIS[*d]).unwrap_or(&none);
            cx.label_if(!want.is_empty() && !t.source.is_ascii(), "problems beside characters of several bytes");
            if t.broken {
                // That the text cannot be read may be a diagnostic of its own.
                if have.len() > 1 || have.iter().any(|h| h.0.contains('`') || h.0.contains("Unknown element") || h.0.contains("Deprecated")) {
                    return fail("diagnostics of a text that cannot be read", format!("{have:?}"));
                }
                continue;
            }
            if *have != want {
                let texts = |d: &Diagnostics| d.iter().map(|d| (d.0.clone(), d.1)).collect::<Vec<_>>();
                let same = texts(have) == texts(&want);
                return fail(if same { "positions" } else { "diagnostics" }, format!("{}: {have:?} instead of {want:?}", URIS[*d]));
            }
        }
        if changed && problems {
            cx.nontrivial(serde_json::to_string(i).unwrap());
        }
        Ok(())
    }
    fn render(&self, i: &Input) -> String {
        let mut r = format!("{:?}", i.rules);
        for st in &i.steps {
            r += &match st {
                Step::Open(d, t) => format!("\nopen {d} {:?}", t.source),
                Step::Change(d, t) => format!("\nchange {d} {:?}", t.iter().map(|t| &t.source).collect::<Vec<_>>()),
                Step::Save(d) => format!("\nsave {d}"),
                Step::Close(d) => format!("\nclose {d}"),
                Step::Ask => "\nask".into(),
            };
        }
        r
    }
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![("problems go away", 100), ("broken text", 40), ("several changes at once", 60), ("several documents", 150), ("problems beside characters of several bytes", 200), ("configuration by name", 100)]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the server announces changes of the whole text only; positions count UTF-16 code units, the default of the protocol".into()]
    }
}

fn main() {
    pbt::engine::main(C24)
}
