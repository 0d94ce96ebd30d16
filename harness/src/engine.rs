//! Choice-stream property-based testing engine.
//!
//! Every random decision is a bounded integer drawn from a recorded stream. A case is a pure
//! function of its stream, so replay is exact and shrinking is done on the stream.

use serde::{Serialize, de::DeserializeOwned};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::time::Instant;

// ---------------------------------------------------------------- allocator accounting

static LIVE: AtomicI64 = AtomicI64::new(0);
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() >= 1 << 16 {
            LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() >= 1 << 16 {
            LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        }
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if l.size() >= 1 << 16 {
            LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        }
        if n >= 1 << 16 {
            LIVE.fetch_add(n as i64, Ordering::Relaxed);
        }
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

// ---------------------------------------------------------------- random source

#[derive(Clone)]
struct Rng(u64, u64);
impl Rng {
    fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15, 0xDA3E_39CB_94B9_5BDB);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    fn next(&mut self) -> u64 {
        // splitmix64 over a Weyl sequence
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0 ^ self.1;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

/// The choice source handed to generators.
pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), replay: vec![], pos: 0, rec: vec![], spans: vec![], open: vec![] }
    }
    pub fn replay(c: &[u64]) -> Self {
        Src { rng: None, replay: c.to_vec(), pos: 0, rec: vec![], spans: vec![], open: vec![] }
    }
    /// Uniform in 0..n; 0 is the simplest choice.
    pub fn n(&mut self, n: u64) -> u64 {
        let v = if n <= 1 {
            0
        } else if let Some(r) = &mut self.rng {
            ((r.next() as u128 * n as u128) >> 64) as u64
        } else {
            let v = self.replay.get(self.pos).copied().unwrap_or(0).min(n - 1);
            self.pos += 1;
            v
        };
        if n > 1 {
            self.rec.push(v);
        }
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.n(n as u64) as usize
    }
    /// Inclusive range, `lo` being simplest.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.n((hi - lo + 1) as u64) as i64
    }
    /// True with probability num/den; false is simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.n(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    /// Index by weight; index 0 is simplest.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut v = self.n(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w as u64 {
                return i;
            }
            v -= *w as u64;
        }
        unreachable!()
    }
    pub fn span<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        let start = self.rec.len();
        self.open.push(start);
        let r = f(self);
        self.open.pop();
        if self.rec.len() > start {
            self.spans.push((start, self.rec.len()));
        }
        r
    }
    /// A list of `min..=max` items with mean roughly `mean`; each item (with its continue bit) is
    /// one span, so the shrinker can delete it.
    pub fn list<T>(&mut self, min: usize, mean: usize, max: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let mut out = vec![];
        let extra = (mean.saturating_sub(min)).max(1) as u64;
        while out.len() < max {
            let start = self.rec.len();
            if out.len() >= min && !self.chance(extra, extra + 1) {
                break;
            }
            let v = f(self);
            if self.rec.len() > start {
                self.spans.push((start, self.rec.len()));
            }
            out.push(v);
        }
        out
    }
    pub fn opt<T>(&mut self, num: u64, den: u64, f: impl FnOnce(&mut Self) -> T) -> Option<T> {
        self.span(|s| if s.chance(num, den) { Some(f(s)) } else { None })
    }
}

// ---------------------------------------------------------------- property interface

#[derive(Clone, Debug)]
pub struct Fail {
    /// Class of the failure; the shrinker keeps it constant.
    pub sig: String,
    pub msg: String,
}
impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail { sig: sig.into(), msg: msg.into() }
    }
}
pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::new(sig, msg))
}
pub type Check = Result<(), Fail>;

/// Per-case bookkeeping.
#[derive(Default)]
pub struct Cx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: Option<u64>,
    pub excluded: BTreeMap<String, u64>,
    pub evals: u64,
}
impl Cx {
    pub fn label(&mut self, l: impl Into<String>) {
        *self.labels.entry(l.into()).or_default() += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l);
        }
    }
    /// Counts something left out of the comparison because of a recorded finding or stated bound.
    pub fn exclude(&mut self, l: impl Into<String>) {
        *self.excluded.entry(l.into()).or_default() += 1;
    }
    pub fn nontrivial(&mut self, key: impl Hash) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut h);
        self.nontrivial = Some(h.finish());
    }
}

pub trait Prop: Sync {
    type Input: Serialize + DeserializeOwned + Clone + Send;
    fn id(&self) -> &'static str;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> String;
    /// (quick, thorough) number of cases.
    fn cases(&self) -> (u64, u64);
    fn generate(&self, s: &mut Src, cx: &mut Cx) -> Self::Input;
    fn check(&self, input: &Self::Input, cx: &mut Cx) -> Check;
    fn render(&self, input: &Self::Input) -> String {
        serde_json::to_string(input).unwrap()
    }
    /// Classes that must have been reached in a run for it to count (label, minimum per 1000 cases).
    fn required(&self) -> Vec<(&'static str, u64)> {
        vec![]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    fn threads(&self) -> usize {
        8
    }
    /// CPU seconds one case may take before the run is abandoned as inconclusive.
    fn case_limit_s(&self) -> u64 {
        120
    }
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !IN_CASE.with(|c| c.get()) {
            prev(info);
            return;
        }
        let loc = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        let file = info.location().map_or("", |l| l.file());
        let file = file.rsplit("/crates/").next().unwrap_or(file);
        let file = file.rsplit("/src/index.crates.io-").next().unwrap_or(file);
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let short: String = msg.chars().take(50).filter(|c| !c.is_ascii_digit()).collect();
        PANIC.with(|p| *p.borrow_mut() = Some((format!("panic:{file}:{short}"), format!("panicked at {loc}: {msg}"))));
    }));
}

/// Runs `f`, turning a panic into a failure.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
    let was = IN_CASE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(was));
    match r {
        Ok(r) => r,
        Err(_) => {
            let (sig, msg) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("panic:?".into(), "panicked".into()));
            Err(Fail { sig, msg })
        }
    }
}

fn mix(seed: u64, id: &str, i: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    let mut z = h ^ i.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    z = (z ^ (z >> 32)).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    z ^ (z >> 32)
}

#[derive(serde::Deserialize, serde::Serialize)]
pub struct Pinned {
    /// "known" (recorded finding, reported as KNOWN-FINDING) or "fixed" (regression, must pass).
    pub kind: String,
    pub what: String,
    /// For "known": the exact signature this input fails with.
    #[serde(default)]
    pub sig: String,
    pub input: serde_json::Value,
}

struct Failure {
    index: u64,
    fail: Fail,
    choices: Vec<u64>,
    spans: Vec<(usize, usize)>,
}

#[derive(Default)]
struct Totals {
    evals: u64,
    labels: BTreeMap<String, u64>,
    excluded: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    nontrivial: u64,
}

fn run_one<P: Prop>(p: &P, src: &mut Src, cx: &mut Cx) -> (Option<P::Input>, Check) {
    let mut input = None;
    let r = guarded(|| {
        let i = p.generate(src, cx);
        input = Some(i);
        p.check(input.as_ref().unwrap(), cx)
    });
    (input, r)
}

fn shortlex_less(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

fn shrink<P: Prop>(p: &P, first: &Failure, budget_s: u64) -> (Vec<u64>, u64) {
    let start = Instant::now();
    let mut best = first.choices.clone();
    let mut spans = first.spans.clone();
    let mut tries = 0u64;
    let sig = first.fail.sig.clone();
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>, spans: &mut Vec<(usize, usize)>| -> bool {
        tries += 1;
        let mut src = Src::replay(cand);
        let mut cx = Cx::default();
        let (_, r) = run_one(p, &mut src, &mut cx);
        if let Err(f) = r {
            if f.sig == sig && shortlex_less(&src.rec, best) {
                *best = src.rec.clone();
                *spans = src.spans.clone();
                return true;
            }
        }
        false
    };
    let over = || start.elapsed().as_secs() >= budget_s;
    loop {
        let before = best.clone();
        // delete spans, largest first
        let mut i = 0;
        let mut order = spans.clone();
        order.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
        order.dedup();
        while i < order.len() && !over() {
            let (a, b) = order[i];
            if b <= best.len() {
                let mut c = best.clone();
                c.drain(a..b);
                if attempt(&c, &mut best, &mut spans) {
                    order = spans.clone();
                    order.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
                    order.dedup();
                    // continue with spans of about this size
                    continue;
                }
            }
            i += 1;
        }
        // delete chunks
        for k in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + k <= best.len() && !over() {
                let mut c = best.clone();
                c.drain(i..i + k);
                if !attempt(&c, &mut best, &mut spans) {
                    i += 1;
                }
            }
        }
        // delete one and decrement an earlier one (lengths drawn up front)
        // zero spans
        let mut order = spans.clone();
        order.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
        for (a, b) in order {
            if over() {
                break;
            }
            if b <= best.len() && best[a..b].iter().any(|v| *v != 0) {
                let mut c = best.clone();
                c[a..b].iter_mut().for_each(|v| *v = 0);
                attempt(&c, &mut best, &mut spans);
            }
        }
        // minimise values
        let mut i = 0;
        while i < best.len() && !over() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt(&c, &mut best, &mut spans) {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while lo + 1 < hi && i < best.len() && !over() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt(&c, &mut best, &mut spans) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 0 && !over() {
                        let mut c = best.clone();
                        c[i] -= 1;
                        attempt(&c, &mut best, &mut spans);
                    }
                }
            }
            i += 1;
        }
        if best == before || over() {
            break;
        }
    }
    (best, tries)
}

fn thread_cpu_ns(clock: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clock, &mut ts) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| "/verif".into(), Into::into)
}

/// Entry point of a check binary. Arguments: `--replay FILE`, `--cases N`, `--triage`, `--show N`.
pub fn main<P: Prop>(p: P) -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let arg = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let flag = |name: &str| args.iter().any(|a| a == name);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let id = p.id();

    let code = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn_scoped_main(|| {
            if let Some(f) = arg("--replay") {
                return replay(&p, &f);
            }
            if let Some(n) = arg("--show") {
                let n: u64 = n.parse().unwrap();
                for i in 0..n {
                    let mut src = Src::random(mix(seed, id, i));
                    let mut cx = Cx::default();
                    let input = p.generate(&mut src, &mut cx);
                    println!("--- {i}\n{}", p.render(&input));
                }
                return 0;
            }
            let (q, t) = p.cases();
            let cases = arg("--cases").map_or(if thorough { t } else { q }, |c| c.parse().unwrap());
            run(&p, seed, if thorough { "thorough" } else { "quick" }, cases, flag("--triage"))
        });
    std::process::exit(code)
}

trait SpawnMain {
    fn spawn_scoped_main(self, f: impl FnOnce() -> i32) -> i32;
}
impl SpawnMain for std::thread::Builder {
    fn spawn_scoped_main(self, f: impl FnOnce() -> i32) -> i32 {
        let mut out = 3;
        std::thread::scope(|s| {
            let f = AssertUnwindSafe(f);
            struct SendPtr<T>(T);
            unsafe impl<T> Send for SendPtr<T> {}
            let f = SendPtr(f);
            let h = self
                .spawn_scoped(s, move || {
                    let f = f;
                    (f.0.0)()
                })
                .unwrap();
            out = h.join().unwrap_or(3);
        });
        out
    }
}

fn replay<P: Prop>(p: &P, file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let v: serde_json::Value = serde_json::from_str(&text).expect("replay JSON");
    let input: P::Input = serde_json::from_value(v["input"].clone()).expect("replay input");
    println!("{}", p.render(&input));
    let mut cx = Cx::default();
    match guarded(|| p.check(&input, &mut cx)) {
        Ok(()) => {
            println!("replay: property held");
            0
        }
        Err(f) => {
            println!("replay: [{}] {}", f.sig, f.msg);
            println!("VIOLATION property={} replay={}", p.id(), file);
            1
        }
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}… ({} bytes)", &s[..e], s.len())
    }
}

fn run<P: Prop>(p: &P, seed: u64, tier: &str, cases: u64, triage: bool) -> i32 {
    let t0 = Instant::now();
    let id = p.id();
    let dir = verif_dir();
    // pinned inputs: known findings and regressions of fixed defects
    let mut known: Vec<(String, String)> = vec![];
    let mut pinned_run = 0u64;
    let mut violation: Option<(String, String, serde_json::Value, String)> = None;
    let pinned_path = dir.join("pinned").join(format!("{id}.jsonl"));
    if let Ok(text) = std::fs::read_to_string(&pinned_path) {
        for line in text.lines().filter(|l| !l.trim().is_empty()) {
            let pin: Pinned = serde_json::from_str(line).unwrap_or_else(|e| panic!("{}: {e}: {line}", pinned_path.display()));
            let input: P::Input = serde_json::from_value(pin.input.clone()).expect("pinned input");
            let mut cx = Cx::default();
            pinned_run += 1;
            let r = guarded(|| p.check(&input, &mut cx));
            match (pin.kind.as_str(), r) {
                ("known", Err(f)) if f.sig == pin.sig => {
                    println!("KNOWN-FINDING: property={id} {}", pin.what);
                    known.push((pin.sig.clone(), pin.what.clone()));
                }
                (_, Ok(())) => {
                    if pin.kind == "known" && triage {
                        println!("note: known finding no longer fails: {}", pin.what);
                    }
                }
                (k, Err(f)) => {
                    let msg = format!("pinned {k} input failed: {} [{}] {}", pin.what, f.sig, f.msg);
                    if triage {
                        println!("{msg}");
                    } else if violation.is_none() {
                        violation = Some((f.sig, msg, pin.input.clone(), p.render(&input)));
                    }
                }
            }
        }
    }

    let threads = p.threads().min(std::thread::available_parallelism().map_or(8, |n| n.get()).max(2));
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let failures: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let totals: Mutex<Totals> = Mutex::new(Totals::default());
    let samples: Mutex<BTreeMap<u64, String>> = Mutex::new(BTreeMap::new());
    let done = AtomicBool::new(false);
    let slots: Vec<(AtomicU64, AtomicU64, AtomicI64)> =
        (0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0), AtomicI64::new(0))).collect();
    let limit_ns = p.case_limit_s() * 1_000_000_000;

    std::thread::scope(|s| {
        // watchdog: inconclusive, never a violation
        s.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(50));
                let live = LIVE.load(Ordering::Relaxed);
                if live > 16 << 30 {
                    let running: Vec<u64> = slots.iter().map(|s| s.0.load(Ordering::Relaxed)).collect();
                    eprintln!("ERROR: memory limit exceeded ({live} bytes live); running cases {running:?}; inconclusive");
                    std::process::exit(3);
                }
                for slot in &slots {
                    let case = slot.0.load(Ordering::Relaxed);
                    let clock = slot.2.load(Ordering::Relaxed);
                    if case == u64::MAX || clock == 0 {
                        continue;
                    }
                    let now = thread_cpu_ns(clock as libc::clockid_t);
                    let start = slot.1.load(Ordering::Relaxed);
                    if slot.0.load(Ordering::Relaxed) == case && now > start && now - start > limit_ns {
                        eprintln!("ERROR: case {case} exceeded {} CPU s; inconclusive", p.case_limit_s());
                        std::process::exit(3);
                    }
                }
            }
        });
        let workers: Vec<_> = (0..threads)
            .map(|w| {
                let (next, stop_at, failures, totals, samples, slot) =
                    (&next, &stop_at, &failures, &totals, &samples, &slots[w]);
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(s, move || {
                        let mut clock: libc::clockid_t = 0;
                        unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
                        slot.2.store(clock as i64, Ordering::Relaxed);
                        let mut local = Totals::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= cases || i > stop_at.load(Ordering::Relaxed) {
                                break;
                            }
                            slot.1.store(thread_cpu_ns(libc::CLOCK_THREAD_CPUTIME_ID), Ordering::Relaxed);
                            slot.0.store(i, Ordering::Relaxed);
                            let mut src = Src::random(mix(seed, id, i));
                            let mut cx = Cx::default();
                            let (input, r) = run_one(p, &mut src, &mut cx);
                            slot.0.store(u64::MAX, Ordering::Relaxed);
                            local.evals += 1;
                            for (k, v) in cx.labels {
                                // presence per case
                                let _ = v;
                                *local.labels.entry(k).or_default() += 1;
                            }
                            for (k, v) in cx.excluded {
                                *local.excluded.entry(k).or_default() += v;
                            }
                            if let Some(h) = cx.nontrivial {
                                local.nontrivial += 1;
                                local.distinct.insert(h);
                                if i < 4000 {
                                    if let Some(input) = &input {
                                        let mut sm = samples.lock().unwrap();
                                        if sm.len() < 5 || *sm.keys().next_back().unwrap() > i {
                                            sm.insert(i, clip(&p.render(input), 1200));
                                            while sm.len() > 5 {
                                                sm.pop_last();
                                            }
                                        }
                                    }
                                }
                            }
                            if let Err(f) = r {
                                if !triage {
                                    stop_at.fetch_min(i, Ordering::Relaxed);
                                }
                                failures.lock().unwrap().push(Failure {
                                    index: i,
                                    fail: f,
                                    choices: src.rec,
                                    spans: src.spans,
                                });
                            }
                        }
                        let mut t = totals.lock().unwrap();
                        t.evals += local.evals;
                        t.nontrivial += local.nontrivial;
                        for (k, v) in local.labels {
                            *t.labels.entry(k).or_default() += v;
                        }
                        for (k, v) in local.excluded {
                            *t.excluded.entry(k).or_default() += v;
                        }
                        t.distinct.extend(local.distinct);
                    })
                    .unwrap()
            })
            .collect();
        for w in workers {
            w.join().unwrap();
        }
        done.store(true, Ordering::Relaxed);
    });

    let totals = totals.into_inner().unwrap();
    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|f| f.index);

    if triage {
        let mut by: BTreeMap<String, Vec<&Failure>> = BTreeMap::new();
        for f in &failures {
            by.entry(f.fail.sig.clone()).or_default().push(f);
        }
        println!("{} failures in {} cases, {} signatures; {:.1}s", failures.len(), totals.evals, by.len(), t0.elapsed().as_secs_f64());
        println!("labels: {:#?}\nexcluded: {:#?}\nnontrivial {} distinct {}", totals.labels, totals.excluded, totals.nontrivial, totals.distinct.len());
        let mut by: Vec<_> = by.into_iter().collect();
        by.sort_by_key(|(_, v)| std::cmp::Reverse(v.len()));
        for (sig, fs) in by.iter().take(30) {
            let f = fs.iter().min_by_key(|f| f.choices.len()).unwrap();
            let (best, tries) = shrink(p, f, 10);
            let mut src = Src::replay(&best);
            let mut cx = Cx::default();
            let (input, r) = run_one(p, &mut src, &mut cx);
            println!("==== [{sig}] x{} (case {}, {tries} shrink tries)", fs.len(), f.index);
            if let Some(i) = input {
                println!("{}\n  json: {}", p.render(&i), serde_json::to_string(&i).unwrap());
            }
            if let Err(e) = r {
                println!("  -> {}", e.msg);
            }
        }
        return 0;
    }

    if violation.is_none() {
        if let Some(f) = failures.first() {
            let (best, tries) = shrink(p, f, if tier == "quick" { 45 } else { 120 });
            let mut src = Src::replay(&best);
            let mut cx = Cx::default();
            let (input, r) = run_one(p, &mut src, &mut cx);
            let (input, fl) = match (input, r) {
                (Some(i), Err(e)) => (i, e),
                _ => {
                    let mut src = Src::replay(&f.choices);
                    let (i, _) = run_one(p, &mut src, &mut cx);
                    (i.expect("input"), f.fail.clone())
                }
            };
            println!("case {} failed; shrunk from {} to {} choices in {} tries", f.index, f.choices.len(), best.len(), tries);
            violation = Some((fl.sig, fl.msg, serde_json::to_value(&input).unwrap(), p.render(&input)));
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    let mut missing = vec![];
    for (l, per_mille) in p.required() {
        let got = totals.labels.get(l).copied().unwrap_or(0);
        if violation.is_none() && got * 1000 < per_mille * totals.evals {
            missing.push(format!("{l}: {got} of {} cases", totals.evals));
        }
    }
    let evidence = serde_json::json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": totals.evals,
            "distinct_nontrivial": totals.distinct.len(),
            "nontrivial": totals.nontrivial,
            "rule": p.rule(),
            "samples": samples.into_inner().unwrap().into_values().collect::<Vec<_>>(),
            "classes": totals.labels,
            "excluded": totals.excluded,
            "pinned_inputs": pinned_run,
            "known_findings": known.iter().map(|(_, w)| w.clone()).collect::<Vec<_>>(),
        },
        "assumptions": p.assumptions(),
        "violations": violation.iter().map(|(s, m, ..)| format!("[{s}] {m}")).collect::<Vec<_>>(),
        "wall_s": wall,
    });
    let evdir = dir.join("evidence");
    std::fs::create_dir_all(&evdir).unwrap();
    std::fs::write(evdir.join(format!("{id}.json")), serde_json::to_string_pretty(&evidence).unwrap() + "\n").unwrap();

    if let Some((sig, msg, input, rendered)) = violation {
        let rdir = dir.join("replay");
        std::fs::create_dir_all(&rdir).unwrap();
        let path = rdir.join(format!("{id}.json"));
        let v = serde_json::json!({"property": id, "seed": seed, "sig": sig, "msg": msg, "rendered": rendered, "input": input});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n").unwrap();
        println!("{rendered}\n[{sig}] {msg}");
        println!("VIOLATION property={id} replay={}", path.display());
        return 1;
    }
    if !missing.is_empty() {
        eprintln!("ERROR: generator no longer reaches required classes: {missing:?}");
        return 3;
    }
    println!(
        "{id}: held on {} cases ({} distinct non-trivial), {} pinned inputs, {:.1}s",
        totals.evals, totals.distinct.len(), pinned_run, wall
    );
    0
}
