//! Interleaving exploration of the real code. The threads of an execution are real threads, of
//! which one at a time runs; at every scheduling point (file system call, lock acquisition, start
//! of an operation) the scheduler decides which one goes on. All schedules with at most the given
//! number of preemptions are enumerated by running the scenario again with every choice changed
//! in turn (stateless search); switching away from a thread is only tried where the object it is
//! about to use is used by another thread as well, and by one of them to change it.
use crate::seq::key_of;
use crate::sys::*;
use crate::util::*;
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    Running,
    Blocked,
    Done,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// the thread can go on, about to use an object
    Access,
    /// the thread starts another operation
    Boundary,
    /// the thread cannot go on, or is done
    Forced,
}
#[derive(Clone, Debug)]
struct Step {
    run: usize,
    kind: Kind,
    enabled: u32,
    chosen: usize,
    keys: Vec<(u64, bool)>,
}
struct Pred(*const (dyn Fn() -> bool + 'static));
unsafe impl Send for Pred {}
struct St {
    status: Vec<Status>,
    preds: Vec<Option<Pred>>,
    cur: usize,
    prefix: Vec<u8>,
    steps: Vec<Step>,
    abort: bool,
    deadlock: bool,
    diverged: bool,
    runaway: bool,
    clock: u64,
}
pub struct Sched {
    st: Mutex<St>,
    cv: Vec<Condvar>,
    fin: Condvar,
}
thread_local! {
    static ME: Cell<(*const Sched, usize)> = const { Cell::new((std::ptr::null(), 0)) };
}
fn me() -> Option<(&'static Sched, usize)> {
    let (p, t) = ME.try_with(|m| m.get()).unwrap_or((std::ptr::null(), 0));
    if p.is_null() {
        None
    } else {
        Some((unsafe { &*p }, t))
    }
}
const MAX_STEPS: usize = 20_000;
impl Sched {
    fn new(n: usize, prefix: Vec<u8>) -> Sched {
        Sched {
            st: Mutex::new(St {
                status: vec![Status::Ready; n],
                preds: (0..n).map(|_| None).collect(),
                cur: usize::MAX,
                prefix,
                steps: vec![],
                abort: false,
                deadlock: false,
                diverged: false,
                runaway: false,
                clock: 0,
            }),
            cv: (0..n).map(|_| Condvar::new()).collect(),
            fin: Condvar::new(),
        }
    }
    /// Picks the thread to go on, given that `run` has reached a point.
    fn decide(&self, st: &mut St, run: usize, kind: Kind, keys: Vec<(u64, bool)>) {
        let n = st.status.len();
        let mut enabled = 0u32;
        for t in 0..n {
            let en = match st.status[t] {
                Status::Ready => true,
                Status::Blocked => {
                    let p = st.preds[t].as_ref().unwrap().0;
                    // the thread that owns the predicate is waiting for us
                    unsafe { (*p)() }
                }
                _ => false,
            };
            if en {
                enabled |= 1 << t;
            }
        }
        if enabled == 0 {
            if st.status.iter().any(|s| *s != Status::Done) {
                st.deadlock = true;
                self.abort(st);
            } else {
                st.cur = usize::MAX - 1;
                self.fin.notify_all();
            }
            return;
        }
        let i = st.steps.len();
        let default = if kind != Kind::Forced && enabled >> run & 1 == 1 { run } else { enabled.trailing_zeros() as usize };
        let mut chosen = default;
        if i < st.prefix.len() {
            chosen = st.prefix[i] as usize;
            if enabled >> chosen & 1 == 0 {
                st.diverged = true;
                chosen = default;
            }
        }
        if i >= MAX_STEPS {
            st.runaway = true;
            self.abort(st);
            return;
        }
        st.steps.push(Step { run, kind, enabled, chosen, keys });
        st.cur = chosen;
        if chosen != run {
            self.cv[chosen].notify_one();
        }
    }
    fn abort(&self, st: &mut St) {
        st.abort = true;
        for c in &self.cv {
            c.notify_all();
        }
        self.fin.notify_all();
    }
    fn await_turn(&self, mut st: std::sync::MutexGuard<St>, t: usize) -> bool {
        while st.cur != t && !st.abort {
            st = self.cv[t].wait(st).unwrap();
        }
        st.status[t] = Status::Running;
        st.preds[t] = None;
        !st.abort
    }
    fn reach(&self, t: usize, kind: Kind, keys: Vec<(u64, bool)>) {
        if std::thread::panicking() {
            return;
        }
        let mut st = self.st.lock().unwrap();
        if st.abort {
            return;
        }
        st.status[t] = Status::Ready;
        self.decide(&mut st, t, kind, keys);
        self.await_turn(st, t);
    }
    fn block(&self, t: usize, pred: &dyn Fn() -> bool) -> bool {
        if pred() {
            return true;
        }
        let mut st = self.st.lock().unwrap();
        if st.abort {
            return false;
        }
        st.status[t] = Status::Blocked;
        st.preds[t] = Some(Pred(unsafe { std::mem::transmute::<*const (dyn Fn() -> bool + '_), *const (dyn Fn() -> bool + 'static)>(pred as *const _) }));
        self.decide(&mut st, t, Kind::Forced, vec![]);
        self.await_turn(st, t)
    }
    fn done(&self, t: usize) {
        let mut st = self.st.lock().unwrap();
        st.status[t] = Status::Done;
        if st.abort {
            self.fin.notify_all();
            return;
        }
        self.decide(&mut st, t, Kind::Forced, vec![]);
    }
    fn tick(&self) -> u64 {
        let mut st = self.st.lock().unwrap();
        st.clock += 1;
        st.clock
    }
}
fn fs_point(a: &Access) {
    let Some((s, t)) = me() else { return };
    let h = |x: &[u8], l: &[u8]| fnv(&[l, x].concat());
    let mut keys = vec![];
    match a.call {
        // no other thread can tell whether these have happened
        Call::Fsync | Call::Dup | Call::Close => return,
        Call::Flock => keys.push((h(a.path, b"lock:"), !a.shared)),
        Call::Opendir => keys.push((h(a.path, b"path:"), false)),
        Call::Readdir => {
            if !a.listing {
                return;
            }
            keys.push((h(a.path, b"list:"), false));
        }
        _ => {
            keys.push((h(a.path, b"path:"), a.write));
            if a.listing {
                let d = a.path.iter().rposition(|c| *c == b'/').map(|i| &a.path[..i]).unwrap_or(b"");
                keys.push((h(d, b"list:"), true));
            }
        }
    }
    s.reach(t, Kind::Access, keys);
}
fn lock_point(addr: usize, exclusive: bool) {
    if let Some((s, t)) = me() {
        s.reach(t, Kind::Access, vec![(addr as u64, exclusive)]);
    }
}
fn sem_point(addr: usize) {
    lock_point(addr, true)
}
fn wait_lock(p: &dyn Fn() -> bool) -> bool {
    match me() {
        Some((s, t)) => s.block(t, p),
        None => {
            while !p() {
                std::thread::yield_now();
            }
            true
        }
    }
}
fn wait_or_panic(p: &dyn Fn() -> bool) {
    if !wait_lock(p) {
        if std::thread::panicking() {
            return;
        }
        panic!("{}", ABANDONED);
    }
}
pub const ABANDONED: &str = "waits for ever";
/// A scheduling point of the harness itself: the start of an operation.
pub fn boundary() {
    if let Some((s, t)) = me() {
        s.reach(t, Kind::Boundary, vec![]);
    }
}
pub fn now() -> u64 {
    me().map(|(s, _)| s.tick()).unwrap_or(0)
}

/// Something to explore. `setup` makes the shared state, every thread runs `body`, then `check` looks at it.
pub trait Scenario: Sync + Send {
    fn name(&self) -> String;
    fn threads(&self) -> usize;
    fn bound(&self) -> usize;
    fn class(&self) -> String;
    /// Runs one execution.
    fn run(&self, r: &mut Runner) -> Result<(), String>;
}
/// Passed to a scenario; runs the threads under the scheduler.
pub struct Runner {
    prefix: Vec<u8>,
    out: Option<St>,
    /// failures that do not end the exploration of the scenario: (key, what)
    pub odd: Vec<(String, String)>,
}
impl Runner {
    /// Runs `body(tid)` on n threads; their panics are returned.
    pub fn go<R: Send>(&mut self, n: usize, root: &std::path::Path, body: impl Fn(usize) -> R + Sync) -> Result<Vec<Result<R, String>>, String> {
        let s = Sched::new(n, std::mem::take(&mut self.prefix));
        let res: Vec<Mutex<Option<Result<R, String>>>> = (0..n).map(|_| Mutex::new(None)).collect();
        std::thread::scope(|sc| {
            for t in 0..n {
                let (s, res, body) = (&s, &res, &body);
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn_scoped(sc, move || {
                        let mut ses = Session::new(root);
                        ses.sched = Some(fs_point);
                        ses.wait = Some(wait_lock);
                        let a = Attach::new(&mut *ses, 77 + t as u64);
                        ME.with(|m| m.set((s as *const Sched, t)));
                        tokio::mc_hook::POINT.with(|p| p.set(Some(sem_point)));
                        tokio::mc_hook::PARK.with(|p| p.set(Some(wait_or_panic)));
                        futures_locks::mc_hook::POINT.with(|p| p.set(Some(lock_point)));
                        terminus_store::mc_sync::POINT.with(|p| p.set(Some(lock_point)));
                        terminus_store::mc_sync::WAIT.with(|p| p.set(Some(wait_or_panic)));
                        let ok = s.await_turn(s.st.lock().unwrap(), t);
                        let r = if ok { guard(|| Ok(body(t))) } else { Err("not started".into()) };
                        *res[t].lock().unwrap() = Some(r);
                        ME.with(|m| m.set((std::ptr::null(), 0)));
                        drop(a);
                        s.done(t);
                    })
                    .unwrap();
            }
            let mut st = s.st.lock().unwrap();
            s.decide(&mut st, usize::MAX, Kind::Forced, vec![]);
            while st.status.iter().any(|x| *x != Status::Done) {
                st = s.fin.wait(st).unwrap();
            }
        });
        let st = s.st.into_inner().unwrap();
        let (dead, runaway, div) = (st.deadlock, st.runaway, st.diverged);
        self.out = Some(st);
        if div {
            return Err(DIVERGED.into());
        }
        let res: Vec<Result<R, String>> = res.into_iter().map(|r| r.into_inner().unwrap().unwrap()).collect();
        if let Some(Err(e)) = res.iter().find(|r| matches!(r, Err(e) if !e.contains(ABANDONED) && e != "not started")) {
            return Err(format!("a thread panicked: {}", e));
        }
        if dead {
            return Err("the threads wait for each other for ever".into());
        }
        if runaway {
            return Err("the operations do not end".into());
        }
        Ok(res)
    }
}
pub const DIVERGED: &str = "schedule could not be replayed";
/// The schedules next to the one that was run, with the number of preemptions each has.
fn children(st: &St, from: usize, bound: usize) -> Vec<(Vec<u8>, usize)> {
    // objects used by two threads and changed by one
    let mut users: HashMap<u64, (u32, u32)> = HashMap::new();
    for s in &st.steps {
        if s.kind == Kind::Access {
            for (k, w) in &s.keys {
                let e = users.entry(*k).or_default();
                e.0 |= 1 << s.run;
                if *w {
                    e.1 |= 1 << s.run;
                }
            }
        }
    }
    // what another thread changes, or what is changed here and used by another thread
    let conflict = |run: usize, keys: &[(u64, bool)]| {
        keys.iter().any(|(k, w)| {
            let Some((u, c)) = users.get(k) else { return false };
            let others = !(1u32 << run);
            c & others != 0 || (*w && u & others != 0)
        })
    };
    let n = st.status.len();
    // the thread has not used anything shared since it could have been interrupted for free
    let mut fresh = vec![true; n];
    let mut cost = 0;
    let mut out = vec![];
    let mut path: Vec<u8> = vec![];
    for (i, s) in st.steps.iter().enumerate() {
        let is_shared = s.kind == Kind::Access && conflict(s.run, &s.keys);
        let (branch, price) = match s.kind {
            Kind::Forced => (true, 0),
            Kind::Boundary => (true, 0),
            Kind::Access => (is_shared && !fresh[s.run], 1),
        };
        if s.kind == Kind::Boundary {
            fresh[s.run] = true;
        }
        if s.kind == Kind::Access && is_shared {
            fresh[s.run] = false;
        }
        if i >= from && branch && cost + price <= bound {
            for t in 0..n {
                if s.enabled >> t & 1 == 1 && t != s.chosen {
                    let mut p = path.clone();
                    p.push(t as u8);
                    out.push((p, cost + price));
                }
            }
        }
        if s.kind == Kind::Access && s.chosen != s.run {
            cost += 1;
        }
        path.push(s.chosen as u8);
    }
    out
}
pub fn show(p: &[u8]) -> String {
    // runs of equal thread numbers
    let mut o = String::new();
    let mut i = 0;
    while i < p.len() {
        let mut j = i;
        while j < p.len() && p[j] == p[i] {
            j += 1;
        }
        o += &format!("{}x{} ", p[i], j - i);
        i = j;
    }
    o
}
pub fn parse_schedule(s: &str) -> Vec<u8> {
    s.split_whitespace()
        .flat_map(|x| {
            let (t, n) = x.split_once('x').unwrap();
            std::iter::repeat(t.parse().unwrap()).take(n.parse().unwrap())
        })
        .collect()
}
pub fn run_once(sc: &dyn Scenario, prefix: Vec<u8>) -> (Result<(), String>, Vec<u8>) {
    let mut r = Runner { prefix, out: None, odd: vec![] };
    let x = guard(|| sc.run(&mut r));
    let p = r.out.map(|st| st.steps.iter().map(|s| s.chosen as u8).collect()).unwrap_or_default();
    (x, p)
}
/// Explores all scenarios: those with a small preemption bound first. In a long run, the bound is
/// raised step by step for all of them.
pub fn explore(rep: &Report, scs: &[Box<dyn Scenario>]) {
    rep.count("scenarios", scs.len() as u64);
    let max = scs.iter().map(|s| s.bound()).max().unwrap_or(0);
    for b in 0..=max {
        let now: Vec<(&dyn Scenario, usize)> = scs
            .iter()
            .filter(|s| if rep.ctx.thorough && b > 0 { s.bound() >= b } else { s.bound() == b })
            .map(|s| (&**s, b))
            .collect();
        let t = std::time::Instant::now();
        explore_pass(rep, &now);
        if rep.stopped() || rep.out_of_time(&format!("schedules with preemption bound {}", b)) {
            return;
        }
        rep.count(&format!("scenarios_complete_at_preemption_bound_{}", b), now.len() as u64);
        if std::env::var_os("MC_PER").is_some() {
            println!("bound {} took {:.1} s", b, t.elapsed().as_secs_f64());
        }
    }
}
fn explore_pass(rep: &Report, scs: &[(&dyn Scenario, usize)]) {
    let queue: Mutex<Vec<(usize, Vec<u8>, usize)>> = Mutex::new((0..scs.len()).rev().map(|i| (i, vec![], 0)).collect());
    let active = AtomicUsize::new(0);
    let per: Mutex<HashMap<String, (u64, u64)>> = Default::default();
    let lens: Mutex<Vec<u64>> = Mutex::new(vec![0; scs.len()]);
    par(8, |_| loop {
        if rep.stopped() || rep.late() {
            return;
        }
        let job = {
            let mut q = queue.lock().unwrap();
            let j = q.pop();
            if j.is_some() {
                active.fetch_add(1, Ordering::SeqCst);
            }
            j
        };
        let Some((i, prefix, cost)) = job else {
            if active.load(Ordering::SeqCst) == 0 {
                return;
            }
            std::thread::sleep(std::time::Duration::from_micros(200));
            continue;
        };
        let (sc, bound) = scs[i];
        let from = prefix.len();
        let w = WATCH.enter(sc.class(), format!("{} schedule {}", sc.name(), show(&prefix)));
        let mut r = Runner { prefix: prefix.clone(), out: None, odd: vec![] };
        let mut x = guard(|| sc.run(&mut r));
        for _ in 0..3 {
            if !matches!(&x, Err(e) if e == DIVERGED) {
                break;
            }
            rep.count("replays_repeated", 1);
            r = Runner { prefix: prefix.clone(), out: None, odd: vec![] };
            x = guard(|| sc.run(&mut r));
        }
        drop(w);
        rep.eval();
        rep.states.fetch_add(1, Ordering::Relaxed);
        rep.traces.fetch_add(1, Ordering::Relaxed);
        if let Some(st) = &r.out {
            rep.transitions.fetch_add(st.steps.len() as u64, Ordering::Relaxed);
            let full: Vec<u8> = st.steps.iter().map(|s| s.chosen as u8).collect();
            rep.distinct_h(fnv(&[sc.name().as_bytes(), &full].concat()));
            rep.sample(|| format!("{} schedule {}", sc.name(), show(&full)));
            rep.count(&format!("schedules_with_{}_preemptions", cost), 1);
            {
                let mut p = per.lock().unwrap();
                let e = p.entry(sc.class()).or_default();
                e.0 += 1;
                e.1 = e.1.max(st.steps.len() as u64);
                lens.lock().unwrap()[i] += 1;
            }
            for (k, e) in std::mem::take(&mut r.odd) {
                rep.violation(k, format!("{} schedule {}: {}", sc.name(), show(&full), e), format!("scenario: {}\nschedule: {}", sc.name(), show(&full)));
            }
            match x {
                Ok(()) => {}
                Err(e) if e == DIVERGED => rep.count("schedules_not_replayable", 1),
                Err(e) => rep.violation(
                    format!("{}: {}", sc.class(), key_of(&e)),
                    format!("{} schedule {}: {}", sc.name(), show(&full), e),
                    format!("scenario: {}\nschedule: {}", sc.name(), show(&full)),
                ),
            }
            let mut c: Vec<_> = children(st, from, bound).into_iter().map(|(p, c)| (i, p, c)).collect();
            c.sort_by_key(|x| x.2);
            queue.lock().unwrap().extend(c);
        } else if let Err(e) = x {
            rep.violation(format!("{}: set up: {}", sc.class(), key_of(&e)), format!("{}: {}", sc.name(), e), sc.name());
        }
        active.fetch_sub(1, Ordering::SeqCst);
    });
    for (k, (n, m)) in per.into_inner().unwrap() {
        rep.count(&format!("schedules of {}", k), n);
        rep.max("longest_schedule", m);
    }
    let l = lens.into_inner().unwrap();
    rep.max("most_schedules_of_one_scenario", l.iter().max().copied().unwrap_or(0));
    if std::env::var_os("MC_PER").is_some() {
        for (i, n) in l.iter().enumerate() {
            println!("{:8} {}", n, scs[i].0.name());
        }
    }
}
