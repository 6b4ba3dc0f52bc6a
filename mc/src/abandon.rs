//! Abandoned operations (C23): futures of the real store are polled one step at a time. Blocking
//! tasks of the runtime are steps of their own, run when the explorer says so; one of the
//! operations is dropped at every one of its suspension points.
use crate::api::*;
use crate::choice::*;
use crate::conc::{linearizable, Done};
use crate::conc2::*;
use crate::model::*;
use crate::sys::*;
use crate::util::*;
use crate::world::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use terminus_store::layer::{IdTriple, Layer};
use terminus_store::storage::{CachedLayerStore, LayerStore};
use terminus_store::store::*;

// ---------------------------------------------------------------- blocking tasks

type Work = Box<dyn FnOnce() + Send>;
thread_local! {
    static QUEUE: RefCell<VecDeque<Work>> = const { RefCell::new(VecDeque::new()) };
    static ME: RefCell<Option<Arc<Hand>>> = const { RefCell::new(None) };
    /// how a blocking task of the final phase waits for a file lock
    static STUCK: Cell<bool> = const { Cell::new(false) };
}
fn queue_hook(f: Work) {
    QUEUE.with(|q| q.borrow_mut().push_back(f));
}
/// A thread blocked inside a future (export, import) runs the blocking tasks itself.
fn run_queue(ready: &dyn Fn() -> bool) {
    let t = std::time::Instant::now();
    while !ready() {
        match QUEUE.with(|q| q.borrow_mut().pop_front()) {
            Some(f) => f(),
            None => {
                if t.elapsed().as_secs() > 20 {
                    panic!("{}", STUCK_TEXT);
                }
                std::thread::sleep(std::time::Duration::from_micros(20));
            }
        }
    }
}
const STUCK_TEXT: &str = "an operation waits for ever";
thread_local! {
    /// locks taken that others may wait for
    static LOCKED: Cell<u64> = const { Cell::new(0) };
}
fn locked(_: usize) {
    LOCKED.with(|l| l.set(l.get() + 1));
}
fn locked_if(_: usize, exclusive: bool) {
    LOCKED.with(|l| l.set(l.get() + exclusive as u64));
}
struct Points;
impl Points {
    fn set() -> Points {
        tokio::mc_hook::POINT.with(|p| p.set(Some(locked)));
        futures_locks::mc_hook::POINT.with(|p| p.set(Some(locked_if)));
        terminus_store::mc_sync::POINT.with(|p| p.set(Some(locked_if)));
        Points
    }
}
impl Drop for Points {
    fn drop(&mut self) {
        tokio::mc_hook::POINT.with(|p| p.set(None));
        futures_locks::mc_hook::POINT.with(|p| p.set(None));
        terminus_store::mc_sync::POINT.with(|p| p.set(None));
    }
}
struct Pred(*const (dyn Fn() -> bool + 'static));
unsafe impl Send for Pred {}
enum JState {
    Running,
    Blocked(Pred),
    Done,
}
struct Hand {
    s: Mutex<(JState, bool)>,
    cv: Condvar,
}
fn job_wait(p: &dyn Fn() -> bool) -> bool {
    let Some(h) = ME.with(|m| m.borrow().clone()) else {
        // nobody else is active who could let go of the lock
        STUCK.with(|s| s.set(true));
        return false;
    };
    let mut s = h.s.lock().unwrap();
    s.0 = JState::Blocked(Pred(unsafe { std::mem::transmute::<*const (dyn Fn() -> bool + '_), *const (dyn Fn() -> bool + 'static)>(p as *const _) }));
    h.cv.notify_all();
    while matches!(s.0, JState::Blocked(_)) {
        s = h.cv.wait(s).unwrap();
    }
    !s.1
}
struct Job {
    owner: usize,
    work: Option<Work>,
    run: Option<(Arc<Hand>, std::thread::JoinHandle<String>)>,
}
struct SendPtr(*mut Session);
unsafe impl Send for SendPtr {}
impl Job {
    fn enabled(&self) -> bool {
        match &self.run {
            None => true,
            Some((h, _)) => match &h.s.lock().unwrap().0 {
                JState::Blocked(p) => unsafe { (*p.0)() },
                _ => true,
            },
        }
    }
    /// Runs until it is done (true) or waits for a file lock.
    fn step(&mut self, apart: bool, ses: *mut Session, rt: &tokio::runtime::Handle) -> Result<bool, String> {
        if let Some(w) = self.work.take() {
            if !apart {
                w();
                return Ok(true);
            }
            let h = Arc::new(Hand { s: Mutex::new((JState::Running, false)), cv: Condvar::new() });
            let (h2, p, rt) = (h.clone(), SendPtr(ses), rt.clone());
            let j = std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    let p = p;
                    let _a = Attach::new(p.0, 99);
                    let _g = rt.enter();
                    ME.with(|m| *m.borrow_mut() = Some(h2.clone()));
                    LAST_PANIC.with(|p| p.borrow_mut().clear());
                    w();
                    let e = LAST_PANIC.with(|p| p.borrow().clone());
                    h2.s.lock().unwrap().0 = JState::Done;
                    h2.cv.notify_all();
                    e
                })
                .unwrap();
            self.run = Some((h, j));
        } else {
            let h = &self.run.as_ref().unwrap().0;
            h.s.lock().unwrap().0 = JState::Running;
            h.cv.notify_all();
        }
        let h = self.run.as_ref().unwrap().0.clone();
        let mut s = h.s.lock().unwrap();
        while matches!(s.0, JState::Running) {
            s = h.cv.wait(s).unwrap();
        }
        if matches!(s.0, JState::Done) {
            drop(s);
            let e = self.run.take().unwrap().1.join().map_err(|_| "a blocking task died".to_string())?;
            if !e.is_empty() {
                return Err(format!("a blocking task: {}", e));
            }
            return Ok(true);
        }
        Ok(false)
    }
}
impl Drop for Job {
    fn drop(&mut self) {
        if let Some((h, j)) = self.run.take() {
            {
                let mut s = h.s.lock().unwrap();
                s.1 = true;
                s.0 = JState::Running;
                h.cv.notify_all();
            }
            let _ = j.join();
        }
    }
}

// ---------------------------------------------------------------- operations

#[derive(Clone, PartialEq, Debug)]
pub enum AOp {
    Create(&'static str),
    Delete(&'static str),
    Open(&'static str),
    Labels,
    Head(&'static str),
    Set(&'static str, usize),
    Force(&'static str, usize),
    /// with the version at the start
    ForceV(&'static str, usize),
    Load(usize),
    Child(usize, u64),
    ChildNoLoad(usize, u64),
    Base(u64),
    Roll(usize),
    RollTo(usize, usize),
    Imp(usize, usize),
    Squash(usize),
    SqTo(usize, usize),
    Merge(usize, usize),
    Delta(usize, usize),
    Adds(usize),
    Layers,
    Stack(usize),
    Parent(usize),
    Export(usize),
    Import,
    /// commit of a builder made before
    Commit,
    Noop,
}
impl std::fmt::Display for AOp {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", format!("{:?}", self).to_lowercase().replace([' ', '"'], ""))
    }
}
impl AOp {
    fn kind(&self) -> String {
        self.to_string().split('(').next().unwrap().into()
    }
    fn label(&self) -> bool {
        use AOp::*;
        matches!(self, Create(_) | Delete(_) | Open(_) | Labels | Head(_) | Set(..) | Force(..) | ForceV(..))
    }
}
#[derive(Clone)]
enum R {
    Unit,
    Bool(bool),
    Labels(BTreeSet<String>),
    Head(Option<Name>, u64),
    Layer(Option<StoreLayer>),
    Names(Vec<Name>),
    Trip(BTreeSet<IdTriple>),
    Id(Name),
    Err(io::ErrorKind, String),
    /// the operation was dropped
    Gone,
}
impl std::fmt::Debug for R {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            R::Unit => write!(f, "()"),
            R::Bool(b) => write!(f, "{}", b),
            R::Labels(l) => write!(f, "{:?}", l),
            R::Head(n, v) => write!(f, "head {:?} version {}", n.map(|n| n[0]), v),
            R::Layer(l) => write!(f, "layer {}", l.is_some()),
            R::Names(v) => write!(f, "{} names", v.len()),
            R::Trip(v) => write!(f, "{} triples", v.len()),
            R::Id(_) => write!(f, "a layer"),
            R::Err(k, e) => write!(f, "error {:?} ({})", k, e),
            R::Gone => write!(f, "dropped"),
        }
    }
}
/// What operations work with, made before the exploration starts.
struct Env {
    store: Store,
    cached: CachedLayerStore,
    names: Vec<Name>,
    /// held if the store is warm
    layers: Vec<Option<StoreLayer>>,
    graphs: BTreeMap<&'static str, NamedGraph>,
    builder: Option<StoreLayerBuilder>,
    pack: Option<Pack>,
    tmp: Scratch,
    sc: Vec<T3>,
    model: Model,
    version: u64,
}
type Fut = Pin<Box<dyn Future<Output = R> + Send>>;
fn toggle(b: &StoreLayerBuilder, base: &TSet, sc: &[T3], mask: u64) -> io::Result<TSet> {
    let mut c = base.clone();
    for (i, x) in sc.iter().enumerate() {
        if mask >> i & 1 == 1 {
            if c.remove(x) {
                b.remove_value_triple(vt(x))?;
            } else {
                c.insert(x.clone());
                b.add_value_triple(vt(x))?;
            }
        }
    }
    Ok(c)
}
fn make(op: AOp, e: Arc<Env>) -> Fut {
    Box::pin(async move {
        let r: io::Result<R> = async {
            let get = |i: usize| {
                let e = e.clone();
                async move {
                    match &e.layers[i] {
                        Some(l) => Ok(l.clone()),
                        None => e.store.get_layer_from_id(e.names[i]).await?.ok_or(io::Error::new(io::ErrorKind::Other, "layer not found")),
                    }
                }
            };
            Ok(match op {
                AOp::Create(l) => e.store.create(l).await.map(|_| R::Unit)?,
                AOp::Delete(l) => R::Bool(e.store.delete(l).await?),
                AOp::Open(l) => R::Bool(e.store.open(l).await?.is_some()),
                AOp::Labels => R::Labels(e.store.labels().await?.into_iter().collect()),
                AOp::Head(l) => {
                    let (h, v) = e.graphs[l].head_version().await?;
                    R::Head(h.map(|h| h.name()), v)
                }
                AOp::Set(l, i) => R::Bool(e.graphs[l].set_head(&get(i).await?).await?),
                AOp::Force(l, i) => {
                    e.graphs[l].force_set_head(&get(i).await?).await?;
                    R::Unit
                }
                AOp::ForceV(l, i) => R::Bool(e.graphs[l].force_set_head_version(&get(i).await?, e.version).await?),
                AOp::Load(i) => R::Layer(e.store.get_layer_from_id(e.names[i]).await?),
                AOp::Child(p, m) => {
                    let b = get(p).await?.open_write().await?;
                    toggle(&b, &e.model.content(Some(p)), &e.sc, m)?;
                    R::Layer(Some(b.commit().await?))
                }
                AOp::ChildNoLoad(p, m) => {
                    let b = get(p).await?.open_write().await?;
                    toggle(&b, &e.model.content(Some(p)), &e.sc, m)?;
                    b.commit_no_load().await?;
                    R::Id(b.name())
                }
                AOp::Base(m) => {
                    let b = e.store.create_base_layer().await?;
                    toggle(&b, &TSet::new(), &e.sc, m)?;
                    R::Layer(Some(b.commit().await?))
                }
                AOp::Roll(i) => {
                    get(i).await?.rollup().await?;
                    R::Unit
                }
                AOp::RollTo(i, u) => {
                    get(i).await?.rollup_upto(&get(u).await?).await?;
                    R::Unit
                }
                AOp::Imp(i, u) => {
                    get(i).await?.imprecise_rollup_upto(&get(u).await?).await?;
                    R::Unit
                }
                AOp::Squash(i) => R::Layer(Some(get(i).await?.squash().await?)),
                AOp::SqTo(i, u) => R::Layer(Some(get(i).await?.squash_upto(&get(u).await?).await?)),
                AOp::Merge(a, b) => R::Id(e.store.merge_base_layers(&[e.names[a], e.names[b]], e.tmp.path()).await?),
                AOp::Delta(p, d) => {
                    let b = get(p).await?.open_write().await?;
                    b.apply_delta(&get(d).await?).await?;
                    R::Layer(Some(b.commit().await?))
                }
                AOp::Adds(i) => R::Trip(e.cached.triple_additions(e.names[i]).await?.collect()),
                AOp::Layers => R::Names(e.cached.layers().await?),
                AOp::Stack(i) => R::Names(e.cached.retrieve_layer_stack_names(e.names[i]).await?),
                AOp::Parent(i) => R::Layer(get(i).await?.parent().await?),
                AOp::Export(n) => {
                    e.store.export_layers(Box::new(e.names[..n].to_vec().into_iter())).await?;
                    R::Unit
                }
                AOp::Import => {
                    let p = e.pack.as_ref().unwrap();
                    e.store.import_layers(&p.bytes, Box::new(p.names.clone().into_iter())).await?;
                    R::Unit
                }
                AOp::Commit => R::Layer(Some(e.builder.as_ref().unwrap().commit().await?)),
                AOp::Noop => R::Unit,
            })
        }
        .await;
        match r {
            Ok(r) => r,
            Err(e) => R::Err(e.kind(), e.to_string()),
        }
    })
}

// ---------------------------------------------------------------- the scenario

pub struct Drops {
    pub t: Arc<Template>,
    pub warm: bool,
    pub builder: Option<(usize, u64)>,
    /// may be abandoned
    pub victim: AOp,
    pub others: Vec<AOp>,
    /// the second task works with a store of its own
    pub apart: bool,
    pub bound: u32,
    pub pack: Option<Pack>,
    /// one of several suspension points between which nothing changed that others can see, and
    /// which follow the same kind of call, stands for all
    pub coarse: bool,
}
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}
struct Task {
    script: VecDeque<AOp>,
    fut: Option<(Fut, AOp, u64)>,
    flag: Arc<Flag>,
    polled: bool,
    dropped: bool,
}
impl Task {
    fn alive(&self) -> bool {
        !self.dropped && (self.fut.is_some() || !self.script.is_empty())
    }
}
struct Unhook(Option<tokio::mc_hook::Hook>, Option<tokio::mc_hook::Park>);
impl Drop for Unhook {
    fn drop(&mut self) {
        tokio::mc_hook::HOOK.with(|h| h.set(self.0));
        tokio::mc_hook::PARK.with(|h| h.set(self.1));
        QUEUE.with(|q| q.borrow_mut().clear());
    }
}
type D = Done<(AOp, bool), R>;
type LState = BTreeMap<&'static str, Option<(Option<usize>, u64)>>;
pub const LABELS: [&str; 2] = ["g", "h"];
impl Choosing for Drops {
    fn name(&self) -> String {
        format!(
            "abandon {:?}{}{} after [{}]{}: {} | {} bound {}",
            self.t.kind,
            if self.apart { " apart" } else { "" },
            if self.warm { " warm" } else { "" },
            fmt_ops(&self.t.ops),
            self.builder.map(|(p, m)| format!(" builder on {} {}", p, m)).unwrap_or_default(),
            self.victim,
            self.others.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(","),
            self.bound
        )
    }
    fn class(&self) -> String {
        format!("abandon {:?} {}", self.t.kind, self.victim.kind())
    }
    fn bound(&self) -> u32 {
        self.bound
    }
    fn run(&self, c: &mut Ch) -> Result<(), String> {
        let c = Mutex::new(c);
        std::thread::scope(|s| {
            // a fresh thread has fresh random numbers and a runtime of its own
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(s, || {
                    let mut c = c.lock().unwrap();
                    guard(|| self.exec(&mut c))
                })
                .unwrap()
                .join()
                .map_err(|_| "the explorer died".to_string())?
        })
    }
}
impl Drops {
    fn exec(&self, c: &mut Ch) -> Result<(), String> {
        let t = &*self.t;
        let dir = Scratch::new();
        let back = t.backing(dir.path())?;
        let mut ses = Session::new(dir.path());
        ses.wait = Some(job_wait);
        let sp: *mut Session = &mut *ses;
        let _a = Attach::new(sp, 4712);
        let first = back.open();
        let es = |e: io::Error| format!("set up: {:?} {}", e.kind(), e);
        let env = |o: &Open| -> Result<Arc<Env>, String> {
            let AStore::A(store) = o.store.clone() else { unreachable!() };
            let mut layers = vec![];
            for n in &t.names {
                layers.push(if self.warm { Some(block(store.get_layer_from_id(*n)).map_err(es)?.ok_or("set up: no layer")?) } else { None });
            }
            let mut graphs = BTreeMap::new();
            for l in LABELS {
                if let Some(g) = block(store.open(l)).map_err(es)? {
                    graphs.insert(l, g);
                }
            }
            let builder = match self.builder {
                None => None,
                Some((p, m)) => {
                    let l = block(store.get_layer_from_id(t.names[p])).map_err(es)?.ok_or("set up: no layer")?;
                    let b = block(l.open_write()).map_err(es)?;
                    toggle(&b, &t.model.content(Some(p)), &t.sc, m).map_err(es)?;
                    Some(b)
                }
            };
            let version = match graphs.get("g") {
                Some(g) => block(g.head_version()).map_err(es)?.1,
                None => 0,
            };
            Ok(Arc::new(Env { store, cached: o.cached.clone(), names: t.names.clone(), layers, graphs, builder, pack: self.pack.clone(), tmp: aside(Scratch::new), sc: t.sc.iter().cloned().collect(), model: t.model.clone(), version }))
        };
        let e0 = env(&first)?;
        let e1 = if self.apart { env(&back.open())? } else { e0.clone() };
        let start: LState = LABELS
            .iter()
            .map(|l| {
                let v = match e0.graphs.get(l) {
                    None => None,
                    Some(g) => {
                        let (h, v) = block(g.head_version()).map_err(es)?;
                        Some((h.map(|h| t.names.iter().position(|n| *n == h.name()).unwrap_or(99)), v))
                    }
                };
                Ok((*l, v))
            })
            .collect::<Result<_, String>>()?;
        let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
        let unhook = Unhook(tokio::mc_hook::HOOK.with(|h| h.replace(Some(queue_hook))), tokio::mc_hook::PARK.with(|h| h.replace(Some(run_queue))));
        LAST_PANIC.with(|p| p.borrow_mut().clear());
        let threads = t.kind != SKind::Mem;
        let mut tasks: Vec<Task> = [vec![self.victim.clone()], self.others.clone()]
            .into_iter()
            .map(|s| Task { script: s.into(), fut: None, flag: Arc::new(Flag(AtomicBool::new(true))), polled: false, dropped: false })
            .collect();
        let mut jobs: Vec<Job> = vec![];
        let mut log: Vec<D> = vec![];
        let mut new: Vec<New> = vec![];
        let mut cur = 0usize;
        let mut clock = 0u64;
        let background = |n: usize| {
            rt.block_on(async {
                for _ in 0..n {
                    tokio::task::yield_now().await;
                }
            })
        };
        enum A {
            Poll(usize),
            Job(usize),
            Drop(usize),
        }
        let mut idle = 0;
        // what the abandoned operation was seen doing since anything that others can see changed
        let mut seen: BTreeSet<(u64, bool)> = BTreeSet::new();
        let mut changes = (0, 0);
        let _points = Points::set();
        loop {
            clock += 1;
            if clock > 20_000 {
                return Err("the operations do not end".into());
            }
            // what could each task do next
            let next = |k: usize, tasks: &Vec<Task>, jobs: &Vec<Job>| -> Option<A> {
                if tasks[k].alive() && tasks[k].flag.0.load(Ordering::SeqCst) {
                    return Some(A::Poll(k));
                }
                jobs.iter().position(|j| j.owner == k && j.enabled()).map(A::Job)
            };
            let mut acts: Vec<A> = vec![];
            let mut prices: Vec<u8> = vec![];
            let mut mine = next(cur, &tasks, &jobs);
            if mine.is_none() {
                background(8);
                for w in QUEUE.with(|q| std::mem::take(&mut *q.borrow_mut())) {
                    jobs.push(Job { owner: cur, work: Some(w), run: None });
                }
                mine = next(cur, &tasks, &jobs);
            }
            let busy = mine.is_some();
            if let Some(a) = mine {
                acts.push(a);
                prices.push(0);
            }
            for k in 0..tasks.len() {
                if k != cur {
                    if let Some(a) = next(k, &tasks, &jobs) {
                        acts.push(a);
                        prices.push(busy as u8);
                    }
                }
            }
            if acts.is_empty() {
                if idle < 1 {
                    idle += 1;
                    background(60);
                    for w in QUEUE.with(|q| std::mem::take(&mut *q.borrow_mut())) {
                        jobs.push(Job { owner: cur, work: Some(w), run: None });
                    }
                    continue;
                }
                if jobs.is_empty() && tasks.iter().all(|x| !x.alive()) {
                    break;
                }
                let who: Vec<String> = tasks.iter().filter_map(|x| x.fut.as_ref().map(|f| f.1.to_string())).collect();
                return Err(format!("{}: {}", STUCK_TEXT, who.join(", ")));
            }
            idle = 0;
            if tasks[0].polled && tasks[0].fut.is_some() && !tasks[0].dropped {
                // what is left runs first, or as late as possible
                let now = (unsafe { (*sp).changes }, LOCKED.with(|l| l.get()));
                if now != changes {
                    changes = now;
                    seen.clear();
                }
                let left = jobs.iter().any(|j| j.owner == 0);
                if seen.insert((unsafe { (*sp).last }, left)) || !self.coarse {
                    acts.push(A::Drop(0));
                    prices.push(0);
                    if left {
                        acts.push(A::Drop(1));
                        prices.push(0);
                    }
                }
            }
            let k = c.pick(prices);
            match acts[k] {
                A::Poll(k) => {
                    cur = k;
                    let _g = rt.enter();
                    let x = &mut tasks[k];
                    x.flag.0.store(false, Ordering::SeqCst);
                    if x.fut.is_none() {
                        let op = x.script.pop_front().unwrap();
                        c.say(format!("{} starts", op));
                        x.fut = Some((make(op.clone(), if k == 0 { e0.clone() } else { e1.clone() }), op, clock));
                    }
                    x.polled = true;
                    let w: Waker = x.flag.clone().into();
                    let (f, op, inv) = x.fut.as_mut().unwrap();
                    let op = op.clone();
                    let inv = *inv;
                    if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&w)) {
                        x.fut = None;
                        x.flag.0.store(true, Ordering::SeqCst);
                        c.say(format!("{} gives {:?}", op, r));
                        log.push(Done { tid: k, inv, resp: clock, op: (op, k == 1 && self.apart), res: r });
                    }
                }
                A::Job(j) => {
                    cur = jobs[j].owner;
                    let apart = threads && (tasks.iter().enumerate().any(|(k, x)| k != cur && x.fut.is_some()) || jobs.iter().any(|o| o.owner != cur));
                    if jobs[j].step(apart, sp, rt.handle())? {
                        jobs.remove(j);
                    } else {
                        c.say("a blocking task waits for a file lock");
                    }
                    if STUCK.with(|s| s.replace(false)) {
                        return Err(format!("{}: a file lock is held by nobody active", STUCK_TEXT));
                    }
                }
                A::Drop(late) => {
                    let (f, op, inv) = tasks[0].fut.take().unwrap();
                    {
                        let _g = rt.enter();
                        drop(f);
                    }
                    tasks[0].dropped = true;
                    c.say(format!("{} is dropped{}", op, if late == 1 { ", what it left behind runs later" } else { "" }));
                    log.push(Done { tid: 0, inv, resp: u64::MAX, op: (op, false), res: R::Gone });
                    cur = late;
                }
            }
            background(2);
            for w in QUEUE.with(|q| std::mem::take(&mut *q.borrow_mut())) {
                jobs.push(Job { owner: cur, work: Some(w), run: None });
            }
        }
        drop(unhook);
        let p = LAST_PANIC.with(|p| p.borrow().clone());
        if !p.is_empty() {
            return Err(p);
        }
        drop(tasks);
        for d in log.iter_mut() {
            if d.resp == u64::MAX {
                d.resp = clock;
            }
        }
        for d in &log {
            if let Some(n) = self.judge(d, &e0)? {
                new.push(n);
            }
        }
        // afterwards, through the store used so far and through a new one
        let es = |what: &str, e: io::Error| format!("afterwards: {}: {:?} {}", what, e.kind(), e);
        let again = back.open();
        let mut known: Vec<New> = vec![];
        for (what, o) in [("old store", &first), ("reopened", &again)] {
            for (i, n) in t.names.iter().enumerate() {
                // label operations do not touch layers
                if self.victim.label() && (i > 0 || what != "reopened") {
                    continue;
                }
                let l = o.store.get(*n).map_err(|e| es("load", e))?.ok_or_else(|| format!("afterwards: {}: layer {} is gone", what, i))?;
                look(&l, &t.obs[i], what == "reopened").map_err(|e| format!("afterwards: {}: layer {}: {}", what, i, e))?;
            }
            for n in new.iter().chain(&known) {
                let l = o.store.get(n.name).map_err(|e| es("load of a new layer", e))?.ok_or_else(|| format!("afterwards: {}: a new layer is gone", what))?;
                look_new(&l, n).map_err(|e| format!("afterwards: {}: {}", what, e))?;
            }
            for l in LABELS {
                let r = match o.store.open(l).map_err(|e| es("open", e))? {
                    None => R::Bool(false),
                    Some(g) => {
                        let (h, v) = g.head_version().map_err(|e| es("head", e))?;
                        R::Head(h.map(|h| h.name()), v)
                    }
                };
                clock += 1;
                log.push(Done { tid: 9, inv: clock, resp: clock, op: (AOp::Head(l), false), res: r });
            }
            let v = block(o.cached.layers()).map_err(|e| es("listing", e))?;
            let s: BTreeSet<Name> = v.iter().copied().collect();
            if s.len() != v.len() || !t.listed.is_subset(&s) || new.iter().any(|n| !s.contains(&n.name)) {
                return Err(format!("afterwards: {}: wrong listing of layers", what));
            }
            if known.is_empty() {
                // everything goes on as usual
                let l = o.store.get(t.names[0]).map_err(|e| es("load", e))?.ok_or("afterwards: no layer")?;
                let ABuilder::A(b) = l.child().map_err(|e| es("new builder", e))? else { unreachable!() };
                let content = toggle(&b, &t.model.content(Some(0)), &t.sc.iter().cloned().collect::<Vec<_>>(), 6).map_err(|e| es("change", e))?;
                let x = block(b.commit()).map_err(|e| es("commit", e))?;
                let n = New { name: x.name(), parent: Some(t.names[0]), content };
                look_new(&ALayer::A(x), &n)?;
                known.push(n);
            }
            if let Some(b) = &e0.builder {
                if what == "old store" && self.victim == AOp::Commit {
                    // the layer, if there is one, is complete
                    let ALayer::A(_) = o.store.get(t.names[0]).map_err(|e| es("load", e))?.unwrap() else { unreachable!() };
                    let _ = b.committed();
                }
            }
        }
        self.labels(&start, &log)?;
        // the labels can still be changed
        for l in ["g", "x"] {
            let g = match first.store.open(l).map_err(|e| es("open", e))? {
                Some(g) => g,
                None => first.store.create(l).map_err(|e| es("create", e))?,
            };
            let layer = first.store.get(t.names[1]).map_err(|e| es("load", e))?.ok_or("afterwards: no layer")?;
            g.force(&layer).map_err(|e| es("force head", e))?;
            if g.head().map_err(|e| es("head", e))?.map(|h| h.name()) != Some(t.names[1]) {
                return Err("afterwards: the label does not have the head it was given".into());
            }
        }
        let p = LAST_PANIC.with(|p| p.borrow().clone());
        if !p.is_empty() {
            return Err(p);
        }
        Ok(())
    }
    /// Judges the answer of everything but label operations; tells which layer was made.
    fn judge(&self, d: &D, e: &Env) -> Result<Option<New>, String> {
        let t = &*self.t;
        let op = &d.op.0;
        let bad = || Err(format!("{} gave {:?}", op, d.res));
        if matches!(d.res, R::Gone) {
            return Ok(None);
        }
        if op.label() {
            return match (&d.res, op) {
                (R::Err(k, _), _) if matches!(k, io::ErrorKind::NotFound | io::ErrorKind::InvalidInput) => Ok(None),
                (R::Err(..), _) => bad(),
                _ => Ok(None),
            };
        }
        let model = |p: usize, m: u64| {
            let mut c = t.model.content(Some(p));
            for (i, x) in t.sc.iter().enumerate() {
                if m >> i & 1 == 1 && !c.remove(x) {
                    c.insert(x.clone());
                }
            }
            c
        };
        let made = |parent: Option<usize>, content: TSet| -> Result<Option<New>, String> {
            let name = match &d.res {
                R::Layer(Some(l)) => l.name(),
                R::Id(n) => *n,
                _ => return bad(),
            };
            let n = New { name, parent: parent.map(|p| t.names[p]), content };
            if let R::Layer(Some(l)) = &d.res {
                look_new(&ALayer::A(l.clone()), &n)?;
            }
            Ok(Some(n))
        };
        match (op, &d.res) {
            (AOp::Load(i), R::Layer(Some(l))) => look(&ALayer::A(l.clone()), &t.obs[*i], false).map(|_| None),
            (AOp::Parent(i), R::Layer(l)) => match (l, t.obs[*i].parent) {
                (None, None) => Ok(None),
                (Some(l), Some(n)) => {
                    let p = t.names.iter().position(|x| *x == n).unwrap();
                    look(&ALayer::A(l.clone()), &t.obs[p], false).map(|_| None)
                }
                _ => bad(),
            },
            (AOp::Child(p, m) | AOp::ChildNoLoad(p, m), _) => made(Some(*p), model(*p, *m)),
            (AOp::Commit, R::Layer(_)) => {
                let (p, m) = self.builder.unwrap();
                made(Some(p), model(p, m))
            }
            // somebody else committed it, or was abandoned doing so
            (AOp::Commit, R::Err(..)) => Ok(None),
            (AOp::Base(m), _) => {
                let mut c = TSet::new();
                for (i, x) in t.sc.iter().enumerate() {
                    if m >> i & 1 == 1 {
                        c.insert(x.clone());
                    }
                }
                made(None, c)
            }
            (AOp::Squash(i), _) => made(None, t.model.content(Some(*i))),
            (AOp::SqTo(i, u), _) => made(Some(*u), t.model.content(Some(*i))),
            (AOp::Merge(a, b), _) => {
                let mut c = t.model.content(Some(*a));
                c.extend(t.model.content(Some(*b)));
                made(None, c)
            }
            (AOp::Delta(p, dl), _) => {
                let mut c = t.model.content(Some(*p));
                let ml = &t.model.layers[*dl];
                c.extend(ml.adds.iter().cloned());
                for x in &ml.rems {
                    c.remove(x);
                }
                made(Some(*p), c)
            }
            (AOp::Roll(_) | AOp::RollTo(..) | AOp::Imp(..) | AOp::Export(_) | AOp::Noop, R::Unit) => Ok(None),
            (AOp::Import, R::Unit) => {
                let p = e.pack.as_ref().unwrap();
                let k = p.names.len() - 1;
                Ok(Some(New { name: p.names[k], parent: k.checked_sub(1).map(|k| p.names[k]), content: p.content[k].clone() }))
            }
            (AOp::Adds(i), R::Trip(s)) if *s == t.obs[*i].adds => Ok(None),
            (AOp::Layers, R::Names(v)) if t.listed.iter().all(|n| v.contains(n)) => Ok(None),
            (AOp::Stack(i), R::Names(v)) if *v == t.obs[*i].stack => Ok(None),
            _ => bad(),
        }
    }
    fn labels(&self, start: &LState, log: &[D]) -> Result<(), String> {
        let t = &*self.t;
        let ops: Vec<D> = log.iter().filter(|d| d.op.0.label()).cloned().collect();
        let touches = |o: &AOp| match o {
            AOp::Create(l) | AOp::Delete(l) | AOp::Open(l) | AOp::Head(l) | AOp::Set(l, _) | AOp::Force(l, _) | AOp::ForceV(l, _) => Some(*l),
            _ => None,
        };
        let moved = |d: &D| matches!(d.op.0, AOp::Create(_) | AOp::Delete(_) | AOp::Set(..) | AOp::Force(..) | AOp::ForceV(..)) && !matches!(d.res, R::Bool(false) | R::Err(..));
        let version = start["g"].map(|v| v.1).unwrap_or(0);
        let apply = |s: &LState, d: &D| -> Vec<LState> {
            let gone = matches!(d.res, R::Gone);
            let with = |l: &'static str, v: Option<(Option<usize>, u64)>| {
                let mut s = s.clone();
                s.insert(l, v);
                s
            };
            let raise = |l: &'static str, i: usize| s[l].map(|(_, v)| with(l, Some((Some(i), v + 1))));
            let disturbed = || ops.iter().any(|o| (o.tid != d.tid || o.inv != d.inv) && touches(&o.op.0) == touches(&d.op.0) && moved(o) && o.inv <= d.resp && d.inv <= o.resp);
            let mut out: Vec<LState> = vec![];
            if gone {
                out.push(s.clone());
            }
            match (&d.op.0, &d.res) {
                (AOp::Create(l), R::Unit | R::Gone) => {
                    if s[l].is_none() {
                        out.push(with(l, Some((None, 0))))
                    }
                }
                (AOp::Create(l), R::Err(..)) => {
                    if s[l].is_some() {
                        out.push(s.clone())
                    }
                }
                (AOp::Delete(l), R::Bool(true) | R::Gone) => {
                    if s[l].is_some() {
                        out.push(with(l, None))
                    }
                }
                (AOp::Delete(l), R::Bool(false)) => {
                    if s[l].is_none() {
                        out.push(s.clone())
                    }
                }
                (AOp::Open(l), R::Bool(b)) => {
                    if s[l].is_some() == *b {
                        out.push(s.clone())
                    }
                }
                (AOp::Labels, R::Labels(v)) => {
                    // a listing is no snapshot
                    let ok = LABELS.iter().all(|l| {
                        v.contains(*l) == s[l].is_some() || ops.iter().any(|o| touches(&o.op.0) == Some(l) && moved(o) && o.inv <= d.resp && d.inv <= o.resp)
                    });
                    if ok {
                        out.push(s.clone())
                    }
                }
                (AOp::Head(l), R::Head(n, v)) => {
                    let i = n.map(|n| t.names.iter().position(|x| *x == n).unwrap_or(98));
                    if s[l] == Some((i, *v)) {
                        out.push(s.clone())
                    }
                }
                (AOp::Head(l) | AOp::Set(l, _) | AOp::Force(l, _) | AOp::ForceV(l, _), R::Err(..)) => {
                    if s[l].is_none() {
                        out.push(s.clone())
                    }
                }
                // the final looks
                (AOp::Head(l), R::Bool(false)) => {
                    if s[l].is_none() {
                        out.push(s.clone())
                    }
                }
                (AOp::Set(l, i), r) => {
                    let fits = s[l].map_or(false, |(h, _)| h.map_or(true, |h| t.model.is_ancestor_or_self(*i, h)));
                    match r {
                        R::Bool(true) | R::Gone => out.extend(raise(l, *i).filter(|_| fits)),
                        R::Bool(false) if s[l].is_some() && (!fits || disturbed()) => out.push(s.clone()),
                        _ => {}
                    }
                }
                (AOp::Force(l, i), R::Unit | R::Gone) => out.extend(raise(l, *i)),
                (AOp::ForceV(l, i), r) => {
                    let fits = s[l].map_or(false, |(_, v)| v == version);
                    match r {
                        R::Bool(true) | R::Gone => out.extend(raise(l, *i).filter(|_| fits)),
                        R::Bool(false) if s[l].is_some() && !fits => out.push(s.clone()),
                        _ => {}
                    }
                }
                _ => {}
            }
            out
        };
        if !linearizable(start.clone(), &ops, &apply, &|_| true) {
            let h: Vec<String> = ops.iter().map(|o| format!("t{} [{},{}] {} -> {:?}", o.tid, o.inv, o.resp, o.op.0, o.res)).collect();
            return Err(format!("labels: no order explains the results: {}", h.join("; ")));
        }
        Ok(())
    }
}
fn sc4() -> Scene {
    scene("a p b, b p \"v, c q #1, a q c")
}
pub fn scenarios(th: bool) -> Vec<Box<dyn Choosing>> {
    use AOp::*;
    let mut v: Vec<Box<dyn Choosing>> = vec![];
    let sc = sc4();
    let coarse = !th;
    for kind in [SKind::Mem, SKind::Dir, SKind::CLab, SKind::Raw, SKind::Arch] {
        let base = vec![Op::Base(m(1)), Op::Tog(0, m(3)), Op::Tog(1, m(4)), Op::Base(m(10)), Op::Create("g".into()), Op::Set("g".into(), 0)];
        let t = Arc::new(Template::new(kind, &sc, &base));
        let files = matches!(kind, SKind::Dir | SKind::CLab);
        let labels = matches!(kind, SKind::Mem | SKind::Dir | SKind::CLab);
        if labels {
            let base = vec![Op::Base(m(1)), Op::Tog(0, m(2)), Op::Tog(1, m(1)), Op::Create("g".into()), Op::Set("g".into(), 0)];
            let t = Arc::new(Template::new(kind, &scene("a p b, a q b, b p a"), &base));
            let ops = [Create("h"), Create("g"), Delete("g"), Delete("h"), Set("g", 1), Force("g", 2), ForceV("g", 1), Head("g"), Open("g"), Labels];
            let changes = [Create("h"), Delete("g"), Set("g", 1), Set("g", 2), Force("g", 2), ForceV("g", 1)];
            for a in &ops {
                for b in &ops {
                    let same = touch(a) == touch(b) || touch(a).is_none() || touch(b).is_none();
                    if !same {
                        continue;
                    }
                    for apart in [false, true] {
                        if apart && kind != SKind::Dir {
                            continue;
                        }
                        let mut add = |others: Vec<AOp>, bound: u32| {
                            v.push(Box::new(Drops { t: t.clone(), warm: true, builder: None, victim: a.clone(), others, apart, bound, pack: None, coarse }));
                        };
                        if th {
                            add(vec![b.clone(), a.clone()], 2);
                        } else {
                            add(vec![b.clone(), a.clone()], 0);
                            // two stores on one directory share nothing but its files, as two operations on one store do
                            if !apart && changes.contains(a) && changes.contains(b) {
                                add(vec![b.clone()], 1);
                            }
                        }
                    }
                }
            }
        }
        if kind == SKind::CLab {
            continue;
        }
        let layer = [
            Load(2),
            Child(1, 5),
            ChildNoLoad(2, 8),
            Base(3),
            Roll(2),
            RollTo(2, 0),
            Imp(2, 0),
            Squash(2),
            SqTo(2, 0),
            Merge(0, 3),
            Delta(0, 1),
            Adds(1),
            Layers,
            Stack(2),
            Parent(1),
            Export(3),
        ];
        for a in &layer {
            let slow = matches!(a, Squash(_) | SqTo(..) | Merge(..));
            for warm in [true, false] {
                if warm && matches!(a, Load(_)) {
                    continue;
                }
                if !warm && !th && (slow || matches!(a, Child(..) | ChildNoLoad(..) | Base(_) | Delta(..) | Export(_))) {
                    continue;
                }
                // the plain archive store goes the same ways
                if kind == SKind::Arch && !th && !matches!(a, Load(_) | Child(..) | Roll(_) | Adds(_)) {
                    continue;
                }
                let mut add = |others: Vec<AOp>, bound: u32| {
                    v.push(Box::new(Drops { t: t.clone(), warm, builder: None, victim: a.clone(), others, apart: false, bound, pack: None, coarse }));
                };
                add(vec![a.clone(), Load(2)], 0);
                if th || (!slow && warm != matches!(a, Load(_))) {
                    add(vec![Child(2, 3), a.clone()], 0);
                }
                if th || (kind == SKind::Mem && !matches!(a, Merge(..) | Export(_))) {
                    add(vec![Load(2)], 1);
                }
                if th {
                    add(vec![a.clone()], 1);
                }
            }
        }
        v.push(Box::new(Drops { t: t.clone(), warm: true, builder: Some((1, 5)), victim: Commit, others: vec![Commit, Child(1, 5)], apart: false, bound: 0, pack: None, coarse }));
        let pack = make_pack(2).unwrap();
        v.push(Box::new(Drops { t: t.clone(), warm: true, builder: None, victim: Import, others: vec![Import, Load(1)], apart: false, bound: 0, pack: Some(pack), coarse }));
        let _ = files;
    }
    v
}
fn touch(o: &AOp) -> Option<&'static str> {
    match o {
        AOp::Create(l) | AOp::Delete(l) | AOp::Open(l) | AOp::Head(l) | AOp::Set(l, _) | AOp::Force(l, _) | AOp::ForceV(l, _) => Some(l),
        _ => None,
    }
}
pub fn c23(rep: &Report, fin: &(dyn Fn() -> i32 + Sync)) {
    with_watchdog(rep, 60, fin, || {
        let mut l=scenarios(rep.ctx.thorough); if let Ok(f)=std::env::var("MC_ONLY"){l.retain(|x|x.name().contains(&f));}
        explore_choices(rep, &l);
    });
}
