//! Reports, evidence files, panic capture, parallel loops, scratch directories.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    pub static KEEP_PANICS: RefCell<Vec<String>> = RefCell::new(vec![]);
}
lazy_static::lazy_static! {
    /// panics on any thread (blocking pool threads, rayon), newest last
    pub static ref ALL_PANICS: Mutex<Vec<String>> = Mutex::new(vec![]);
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let s = format!("panic at {}: {}", loc, msg);
        if std::env::var_os("MC_PANIC_TRACE").is_some() {
            eprintln!("{}\n{}", s, std::backtrace::Backtrace::force_capture());
        }
        if loc.starts_with("src/") {
            // the harness's own panics must be visible
            eprintln!("[harness] {}", s);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = s.clone());
        if let Ok(mut a) = ALL_PANICS.lock() {
            if a.len() < 10_000 {
                a.push(s);
            }
        }
    }));
}
pub fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

#[derive(Clone)]
pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
}
impl Ctx {
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

/// Collected result of one check; counters are atomics so that worker threads can share it.
pub struct Report {
    pub ctx: Ctx,
    pub start: Instant,
    pub evaluations: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    distinct: Mutex<std::collections::HashSet<u64>>,
    pub samples: Mutex<Vec<String>>,
    pub extra: Mutex<BTreeMap<String, String>>,
    pub counters: Mutex<BTreeMap<String, u64>>,
    violations: Mutex<Vec<Violation>>,
    pub stop: AtomicBool,
    pub capped: Mutex<Vec<String>>,
    pub deadline: Duration,
}
#[derive(Clone, Debug)]
pub struct Violation {
    /// stable signature used by the known findings file
    pub key: String,
    pub what: String,
    /// everything needed to run it again
    pub replay: String,
}
pub fn fnv(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
impl Report {
    pub fn new(ctx: Ctx) -> Report {
        let deadline = Duration::from_secs(
            std::env::var("MC_DEADLINE").ok().and_then(|x| x.parse().ok()).unwrap_or(if ctx.thorough { 3600 } else { 480 }),
        );
        Report {
            ctx,
            start: Instant::now(),
            evaluations: 0.into(),
            states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            distinct: Default::default(),
            samples: Default::default(),
            extra: Default::default(),
            counters: Default::default(),
            violations: Default::default(),
            stop: AtomicBool::new(false),
            capped: Default::default(),
            deadline,
        }
    }
    pub fn eval(&self) {
        self.evaluations.fetch_add(1, Ordering::Relaxed);
    }
    pub fn distinct(&self, key: &str) {
        let h = fnv(key.as_bytes());
        self.distinct.lock().unwrap().insert(h);
    }
    pub fn distinct_h(&self, h: u64) {
        self.distinct.lock().unwrap().insert(h);
    }
    pub fn n_distinct(&self) -> usize {
        self.distinct.lock().unwrap().len()
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 6 {
            let s = s();
            v.push(s);
        }
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counters.lock().unwrap().entry(k.to_string()).or_default() += n;
    }
    pub fn max(&self, k: &str, n: u64) {
        let mut c = self.counters.lock().unwrap();
        let e = c.entry(k.to_string()).or_default();
        *e = n.max(*e);
    }
    pub fn late(&self) -> bool {
        self.start.elapsed() > self.deadline
    }
    pub fn note(&self, k: &str, v: impl ToString) {
        self.extra.lock().unwrap().insert(k.to_string(), v.to_string());
    }
    pub fn cap(&self, s: &str) {
        let mut c = self.capped.lock().unwrap();
        if !c.iter().any(|x| x == s) {
            c.push(s.to_string());
        }
    }
    pub fn out_of_time(&self, what: &str) -> bool {
        if self.start.elapsed() > self.deadline {
            self.cap(&format!("time cap reached in {}", what));
            true
        } else {
            false
        }
    }
    pub fn violation(&self, key: impl ToString, what: impl ToString, replay: impl ToString) {
        let mut v = self.violations.lock().unwrap();
        let key = key.to_string();
        if v.iter().filter(|x| x.key == key).count() == 0 && v.len() < 40 {
            let cut = |s: String, n: usize| if s.chars().count() > n { s.chars().take(n).collect::<String>() + " ..." } else { s };
            v.push(Violation { key: cut(key, 1000), what: cut(what.to_string(), 4000), replay: replay.to_string() });
        }
        if v.len() >= 12 && std::env::var_os("MC_ALL").is_none() {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    pub fn take_violations(&self) -> Vec<Violation> {
        self.violations.lock().unwrap().clone()
    }
    /// Writes the evidence file, prints the verdict lines, and returns the exit code.
    pub fn finish(&self, level: &str, rule: &str, assumptions: &[&str]) -> i32 {
        let root = verif_root();
        let known = load_known(&root);
        let mut viol = vec![];
        let mut known_hit: BTreeMap<String, String> = BTreeMap::new();
        for v in self.take_violations() {
            match known.iter().find(|(p, k, _)| *p == self.ctx.prop && v.key == *k) {
                Some((_, k, d)) => {
                    known_hit.insert(k.clone(), d.clone());
                }
                None => viol.push(v),
            }
        }
        let mut cov = vec![];
        let ev = self.evaluations.load(Ordering::Relaxed);
        let (s, t, tr) = (self.states.load(Ordering::Relaxed), self.transitions.load(Ordering::Relaxed), self.traces.load(Ordering::Relaxed));
        cov.push(format!("\"evaluations\": {}", ev));
        cov.push(format!("\"distinct_nontrivial\": {}", self.n_distinct()));
        cov.push(format!("\"rule\": {}", jstr(rule)));
        if s + t > 0 {
            cov.push(format!("\"states\": {}", s));
            cov.push(format!("\"transitions\": {}", t));
            cov.push(format!("\"traces_validated_against_impl\": {}", tr));
        }
        let samples: Vec<String> = self.samples.lock().unwrap().iter().map(|x| jstr(x)).collect();
        cov.push(format!("\"samples\": [{}]", samples.join(", ")));
        let caps = self.capped.lock().unwrap().clone();
        cov.push(format!("\"exhaustive\": {}", caps.is_empty()));
        cov.push(format!("\"caps\": [{}]", caps.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", ")));
        for (k, v) in self.counters.lock().unwrap().iter() {
            cov.push(format!("{}: {}", jstr(k), v));
        }
        for (k, v) in self.extra.lock().unwrap().iter() {
            cov.push(format!("{}: {}", jstr(k), jstr(v)));
        }
        let wall = self.start.elapsed().as_secs_f64();
        let json = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            jstr(&self.ctx.prop),
            jstr(if self.ctx.thorough { "thorough" } else { "quick" }),
            self.ctx.seed,
            jstr(level),
            cov.join(",\n  "),
            assumptions.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "),
            wall,
            viol.len()
        );
        let dir = root.join("evidence");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join(format!("{}.json", self.ctx.prop)), json).unwrap();
        println!(
            "{}: evaluations={} distinct={} states={} transitions={} caps={:?} wall={:.1}s",
            self.ctx.prop, ev, self.n_distinct(), s, t, caps, wall
        );
        for (k, v) in self.counters.lock().unwrap().iter() {
            println!("  {} = {}", k, v);
        }
        for (k, d) in known_hit {
            println!("KNOWN-FINDING: property={} {} [{}]", self.ctx.prop, d, k);
        }
        for (i, v) in viol.iter().enumerate() {
            let rd = dir.join("replay");
            std::fs::create_dir_all(&rd).unwrap();
            let p = rd.join(format!("{}-{}.txt", self.ctx.prop, i));
            std::fs::write(&p, format!("property={}\nkey={}\nwhat={}\n--\n{}\n", self.ctx.prop, v.key, v.what, v.replay)).unwrap();
            println!("VIOLATION property={} replay={} :: {} :: {}", self.ctx.prop, p.display(), v.key, v.what.replace('\n', " | "));
        }
        if viol.is_empty() {
            0
        } else {
            1
        }
    }
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn verif_root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}
/// lines: `known: property=C01 key=<key> :: description`
fn load_known(root: &Path) -> Vec<(String, String, String)> {
    let mut r = vec![];
    if let Ok(s) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(x) = l.strip_prefix("known: property=") {
                let (p, rest) = x.split_once(' ').expect("known finding line");
                let (k, d) = rest.strip_prefix("key=").expect("key=").split_once(" :: ").expect("::");
                r.push((p.to_string(), k.to_string(), d.to_string()));
            }
        }
    }
    r
}

/// Run `f(i)` for every i in 0..n on all cores.
pub fn par(n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    let threads = std::env::var("MC_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize).min(n.max(1));
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n {
                    break;
                }
                f(i);
            });
        }
    });
}

static SCRATCH_N: AtomicU64 = AtomicU64::new(0);
/// A scratch directory below /dev/shm (or the temp dir), removed on drop.
pub struct Scratch(pub PathBuf);
pub fn scratch_base() -> PathBuf {
    let shm = Path::new("/dev/shm");
    if shm.is_dir() && std::fs::create_dir_all(shm.join("mc-scratch")).is_ok() {
        return shm.join("mc-scratch");
    }
    let t = std::env::temp_dir().join("mc-scratch");
    std::fs::create_dir_all(&t).expect("scratch base");
    t
}
impl Scratch {
    pub fn new() -> Scratch {
        let n = SCRATCH_N.fetch_add(1, Ordering::Relaxed);
        let p = scratch_base().join(format!("{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub fn copy_tree(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let t = to.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            copy_tree(&e.path(), &t);
        } else {
            std::fs::copy(e.path(), t).unwrap();
        }
    }
}

/// What every worker is doing, for reporting executions that never end.
pub struct Watch {
    slots: Mutex<BTreeMap<u64, (Instant, String, String)>>,
    next: AtomicU64,
}
pub struct Watching<'a>(&'a Watch, u64);
impl Drop for Watching<'_> {
    fn drop(&mut self) {
        self.0.slots.lock().unwrap().remove(&self.1);
    }
}
lazy_static::lazy_static! {
    pub static ref WATCH: Watch = Watch { slots: Default::default(), next: AtomicU64::new(0) };
}
impl Watch {
    pub fn enter(&self, key: String, replay: String) -> Watching<'_> {
        let n = self.next.fetch_add(1, Ordering::Relaxed);
        self.slots.lock().unwrap().insert(n, (Instant::now(), key, replay));
        Watching(self, n)
    }
}
/// Runs the body with a watchdog: an execution that takes longer than the limit is reported as a hang and ends the check.
pub fn with_watchdog(rep: &Report, secs: u64, fin: &(dyn Fn() -> i32 + Sync), body: impl FnOnce()) {
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        s.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                let stuck: Vec<(String, String)> = WATCH
                    .slots
                    .lock()
                    .unwrap()
                    .values()
                    .filter(|(t, _, _)| t.elapsed().as_secs() > secs)
                    .map(|(_, k, r)| (k.clone(), r.clone()))
                    .collect();
                if !stuck.is_empty() {
                    for (k, r) in stuck {
                        rep.violation(format!("hang: {}", k), format!("an execution does not end: {}", k), r);
                    }
                    let c = fin();
                    std::process::exit(c);
                }
            }
        });
        body();
        done.store(true, Ordering::Relaxed);
    });
}
