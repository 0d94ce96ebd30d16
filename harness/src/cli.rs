//! Runs the command line tool in scratch directories of its own.
use std::{
    collections::BTreeMap,
    io::Write,
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::atomic::{AtomicU64, Ordering},
};

/// The tool, as built from the working tree by run.sh.
pub fn binary() -> PathBuf {
    PathBuf::from(std::env::var("OXVG_BIN").unwrap_or_else(|_| "/repo/target/debug/oxvg".into()))
}

/// A directory that is removed when it is no longer needed.
pub struct Scratch(pub PathBuf);
static NEXT: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new() -> Self {
        let p = std::env::temp_dir().join(format!("oxvg-check-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn write(&self, name: &str, content: &[u8]) {
        let p = self.0.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).expect("scratch directory");
        std::fs::write(p, content).expect("scratch file");
    }
    /// All files below the directory with their content.
    pub fn files(&self) -> BTreeMap<String, Vec<u8>> {
        fn walk(root: &Path, p: &Path, r: &mut BTreeMap<String, Vec<u8>>) {
            for e in std::fs::read_dir(p).expect("scratch directory").flatten() {
                let q = e.path();
                if q.is_dir() {
                    walk(root, &q, r);
                } else {
                    r.insert(q.strip_prefix(root).unwrap().to_string_lossy().into_owned(), std::fs::read(&q).unwrap_or_default());
                }
            }
        }
        let mut r = BTreeMap::new();
        walk(&self.0, &self.0, &mut r);
        r
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        // Only ever a directory made by `new`.
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Run {
    pub code: Option<i32>,
    pub out: Vec<u8>,
    pub err: String,
}

/// Runs the tool in `dir/work`. Configuration and ignore rules of the user are out of reach.
pub fn run(dir: &Scratch, args: &[String], stdin: &[u8]) -> Run {
    let home = dir.0.join("home");
    std::fs::create_dir_all(&home).expect("scratch directory");
    let mut c = Command::new(binary())
        .args(args)
        .current_dir(dir.0.join("work"))
        .env_clear()
        .env("HOME", &home)
        .env("XDG_CONFIG_HOME", home.join("config"))
        .env("PATH", "/usr/bin:/bin")
        .env("RAYON_NUM_THREADS", "1")
        .env("TOKIO_WORKER_THREADS", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("the tool can be started");
    let mut i = c.stdin.take().unwrap();
    let data = stdin.to_vec();
    let t = std::thread::spawn(move || {
        let _ = i.write_all(&data);
    });
    let o = c.wait_with_output().expect("the tool ends");
    let _ = t.join();
    Run { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() }
}
