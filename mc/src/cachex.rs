//! The caching archive backend (C17, C18) over a backend whose answers the explorer gives.
use crate::api::block;
use crate::choice::*;
use crate::sched::{boundary, explore, now, Runner, Scenario};
use crate::seq::key_of;
use crate::util::*;
use async_trait::async_trait;
use bytes::Bytes;
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use terminus_store::storage::archive::*;
use terminus_store::storage::consts::LayerFileEnum;
use terminus_store::storage::PersistentLayerStore;
use tokio::io::AsyncReadExt;

pub type Name = [u32; 5];
fn id(i: usize) -> Name {
    [i as u32 + 1, 0x1111, 0x2222, 0x3333, 0x4444 + i as u32]
}
/// Memory that is counted while anybody holds on to it.
struct Counted {
    data: Arc<Vec<u8>>,
    alive: Arc<AtomicUsize>,
}
impl AsRef<[u8]> for Counted {
    fn as_ref(&self) -> &[u8] {
        &self.data
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        self.alive.fetch_sub(self.data.len(), Ordering::SeqCst);
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    /// answers at once
    Direct,
    /// the explorer says when and what a call answers
    Gated,
    /// a scheduling point before every answer; calls whose number is in `fail` fail
    Threads,
}
struct Event {
    id: Name,
    what: &'static str,
    /// operation that asked
    by: usize,
    answer: Option<Option<io::ErrorKind>>,
    waker: Option<Waker>,
    gone: bool,
}
struct Inner {
    stored: HashMap<Name, Arc<Vec<u8>>>,
    mode: Mode,
    events: Vec<Event>,
    calls: usize,
    fail: Vec<(usize, io::ErrorKind)>,
    /// data fetched: (layer, operation, answer)
    fetched: Vec<(Name, usize, Option<io::ErrorKind>)>,
    /// which operation is running
    running: usize,
}
#[derive(Clone)]
pub struct Mock {
    s: Arc<Mutex<Inner>>,
    alive: Arc<AtomicUsize>,
}
thread_local! {
    static OP: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
struct Gate {
    m: Mock,
    id: Name,
    what: &'static str,
    at: Option<usize>,
    done: bool,
}
impl Future for Gate {
    type Output = io::Result<()>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let m = self.m.clone();
        let mut s = m.s.lock().unwrap();
        let n = match self.at {
            Some(n) => n,
            None => {
                let by = if s.mode == Mode::Threads { OP.with(|o| o.get()) } else { s.running };
                s.events.push(Event { id: self.id, what: self.what, by, answer: None, waker: None, gone: false });
                self.at = Some(s.events.len() - 1);
                s.events.len() - 1
            }
        };
        match s.events[n].answer {
            Some(a) => {
                s.events[n].gone = true;
                let (id, by) = (s.events[n].id, s.events[n].by);
                if self.what != "size" || a.is_some() {
                    s.fetched.push((id, by, a));
                }
                self.done = true;
                Poll::Ready(match a {
                    None => Ok(()),
                    Some(k) => Err(io::Error::new(k, "backend")),
                })
            }
            None => {
                s.events[n].waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl Drop for Gate {
    fn drop(&mut self) {
        if !self.done {
            if let Some(n) = self.at {
                self.m.s.lock().unwrap().events[n].gone = true;
            }
        }
    }
}
impl Mock {
    fn new() -> Mock {
        Mock {
            s: Arc::new(Mutex::new(Inner {
                stored: HashMap::new(),
                mode: Mode::Direct,
                events: vec![],
                calls: 0,
                fail: vec![],
                fetched: vec![],
                running: 0,
            })),
            alive: Arc::new(AtomicUsize::new(0)),
        }
    }
    async fn gate(&self, id: Name, what: &'static str) -> io::Result<()> {
        let mode = self.s.lock().unwrap().mode;
        match mode {
            Mode::Gated => Gate { m: self.clone(), id, what, at: None, done: false }.await,
            _ => {
                if mode == Mode::Threads {
                    boundary();
                }
                let mut s = self.s.lock().unwrap();
                let n = s.calls;
                s.calls += 1;
                let by = OP.with(|o| o.get());
                let a = s.fail.iter().find(|f| f.0 == n).map(|f| f.1);
                if what != "size" || a.is_some() {
                    s.fetched.push((id, by, a));
                }
                match a {
                    None => Ok(()),
                    Some(k) => Err(io::Error::new(k, "backend")),
                }
            }
        }
    }
    fn find(&self, id: Name) -> io::Result<Arc<Vec<u8>>> {
        let mut s = self.s.lock().unwrap();
        match s.stored.get(&id) {
            Some(d) => Ok(d.clone()),
            None => {
                let by = if s.mode == Mode::Gated { s.running } else { OP.with(|o| o.get()) };
                s.fetched.push((id, by, Some(io::ErrorKind::NotFound)));
                Err(io::ErrorKind::NotFound.into())
            }
        }
    }
    fn bytes(&self, d: Arc<Vec<u8>>) -> Bytes {
        self.alive.fetch_add(d.len(), Ordering::SeqCst);
        Bytes::from_owner(Counted { data: d, alive: self.alive.clone() })
    }
}
struct Shared(Arc<Vec<u8>>);
impl AsRef<[u8]> for Shared {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
/// The same memory, not counted.
fn plain(d: &Arc<Vec<u8>>) -> Bytes {
    Bytes::from_owner(Shared(d.clone()))
}
#[async_trait]
impl ArchiveBackend for Mock {
    type Read = io::Cursor<Bytes>;
    async fn get_layer_bytes(&self, id: Name) -> io::Result<Bytes> {
        self.gate(id, "bytes").await?;
        Ok(self.bytes(self.find(id)?))
    }
    async fn get_layer_structure_bytes(&self, id: Name, f: LayerFileEnum) -> io::Result<Option<Bytes>> {
        self.gate(id, "structure").await?;
        Ok(Archive::parse(plain(&self.find(id)?)).slice_for(f))
    }
    async fn store_layer_file(&self, id: Name, bytes: Bytes) -> io::Result<()> {
        self.gate(id, "store").await?;
        let known = MADE.lock().unwrap().values().find(|a| a.as_ptr() == bytes.as_ptr() && a.len() == bytes.len()).cloned();
        self.s.lock().unwrap().stored.insert(id, known.unwrap_or_else(|| Arc::new(bytes.to_vec())));
        Ok(())
    }
    async fn read_layer_structure_bytes_from(&self, id: Name, f: LayerFileEnum, from: usize) -> io::Result<Self::Read> {
        self.gate(id, "slice").await?;
        let b = Archive::parse(plain(&self.find(id)?)).slice_for(f).ok_or(io::ErrorKind::NotFound)?;
        Ok(io::Cursor::new(b.slice(from..)))
    }
}
#[async_trait]
impl ArchiveMetadataBackend for Mock {
    async fn get_layer_names(&self) -> io::Result<Vec<Name>> {
        Ok(self.s.lock().unwrap().stored.keys().copied().collect())
    }
    async fn layer_exists(&self, id: Name) -> io::Result<bool> {
        Ok(self.s.lock().unwrap().stored.contains_key(&id))
    }
    async fn layer_size(&self, id: Name) -> io::Result<u64> {
        self.gate(id, "size").await?;
        Ok(self.find(id)?.len() as u64)
    }
    async fn layer_file_exists(&self, id: Name, f: LayerFileEnum) -> io::Result<bool> {
        Ok(match self.s.lock().unwrap().stored.get(&id) {
            Some(d) => Archive::parse(plain(d)).slice_for(f).is_some(),
            None => false,
        })
    }
    async fn get_layer_structure_size(&self, id: Name, f: LayerFileEnum) -> io::Result<usize> {
        Archive::parse(plain(&self.find(id)?)).size_of(f).ok_or_else(|| io::ErrorKind::NotFound.into())
    }
    async fn get_rollup(&self, _: Name) -> io::Result<Option<Name>> {
        Ok(None)
    }
    async fn set_rollup(&self, _: Name, _: Name) -> io::Result<()> {
        Ok(())
    }
    async fn get_parent(&self, id: Name) -> io::Result<Option<Name>> {
        let _ = self.find(id)?;
        Ok(None)
    }
}
const FILE: LayerFileEnum = LayerFileEnum::NodeDictionaryBlocks;
const FILE2: LayerFileEnum = LayerFileEnum::ValueDictionaryBlocks;
const ABSENT: LayerFileEnum = LayerFileEnum::Parent;
pub const MB: usize = 1024 * 1024;
lazy_static::lazy_static! {
    static ref MADE: Mutex<HashMap<(usize, usize), Arc<Vec<u8>>>> = Mutex::new(HashMap::new());
}
/// An archive of exactly this size.
fn archive(i: usize, size: usize) -> Arc<Vec<u8>> {
    if let Some(a) = MADE.lock().unwrap().get(&(i, size)) {
        return a.clone();
    }
    let make = |payload: usize| {
        let m = Mock::new();
        let s = ArchiveLayerStore::new(m.clone(), m.clone());
        block(async {
            s.create_named_directory(id(i)).await.unwrap();
            let small: Vec<u8> = (0..37).map(|k| (k * 7 + i) as u8).collect();
            s.write_bytes(id(i), FILE, Bytes::from(small));
            s.write_bytes(id(i), FILE2, Bytes::from((0..payload).map(|k| (k / 3 + i) as u8).collect::<Vec<_>>()));
            s.finalize(id(i)).await.unwrap();
        });
        let d = m.s.lock().unwrap().stored[&id(i)].clone();
        d
    };
    let probe = make(size.saturating_sub(200));
    let d = make(size.saturating_sub(200) + size - probe.len());
    assert_eq!(d.len(), size, "archive of the wanted size");
    MADE.lock().unwrap().insert((i, size), d.clone());
    d
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum COp {
    Read(usize),
    Struct(usize),
    StructAbsent(usize),
    Slice(usize),
    SliceAbsent(usize),
    Size(usize),
    Exists(usize),
    FileExists(usize),
    StructSize(usize),
    /// store a layer (again, if it is there)
    Store(usize),
}
use COp::*;
impl std::fmt::Display for COp {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", format!("{:?}", self).to_lowercase())
    }
}
fn target(o: &COp) -> usize {
    match o {
        Read(i) | Struct(i) | StructAbsent(i) | Slice(i) | SliceAbsent(i) | Size(i) | Exists(i) | FileExists(i) | StructSize(i) | Store(i) => *i,
    }
}
type Lru = LruArchiveBackend<Mock, Mock>;
#[derive(Clone, Debug)]
enum Val {
    Data(Option<Bytes>),
    Num(u64),
    Yes(bool),
    Unit,
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::Data(Some(a)), Val::Data(Some(b))) => (a.as_ptr() == b.as_ptr() && a.len() == b.len()) || a == b,
            (Val::Data(a), Val::Data(b)) => a == b,
            (Val::Num(a), Val::Num(b)) => a == b,
            (Val::Yes(a), Val::Yes(b)) => a == b,
            (Val::Unit, Val::Unit) => true,
            _ => false,
        }
    }
}
type Res = Result<Val, io::ErrorKind>;
async fn perform(b: Lru, m: Mock, o: COp, size: usize) -> Res {
    let i = id(target(&o));
    let k = |e: io::Error| e.kind();
    Ok(match o {
        Read(_) => Val::Data(Some(b.get_layer_bytes(i).await.map_err(k)?)),
        Struct(_) => Val::Data(b.get_layer_structure_bytes(i, FILE).await.map_err(k)?),
        StructAbsent(_) => Val::Data(b.get_layer_structure_bytes(i, ABSENT).await.map_err(k)?),
        Slice(_) | SliceAbsent(_) => {
            let mut r = b.read_layer_structure_bytes_from(i, if matches!(o, Slice(_)) { FILE } else { ABSENT }, 5).await.map_err(k)?;
            let mut v = vec![];
            r.read_to_end(&mut v).await.map_err(k)?;
            Val::Data(Some(v.into()))
        }
        Size(_) => Val::Num(b.layer_size(i).await.map_err(k)?),
        Exists(_) => Val::Yes(b.layer_exists(i).await.map_err(k)?),
        FileExists(_) => Val::Yes(b.layer_file_exists(i, FILE).await.map_err(k)?),
        StructSize(_) => Val::Num(b.get_layer_structure_size(i, FILE2).await.map_err(k)? as u64),
        Store(j) => {
            let d = m.bytes(archive(j, size));
            b.store_layer_file(i, d).await.map_err(k)?;
            Val::Unit
        }
    })
}
/// What the operation has to answer if the layer is there.
fn expected(o: &COp, d: &Arc<Vec<u8>>) -> Res {
    let a = Archive::parse(plain(d));
    Ok(match o {
        Read(_) => Val::Data(Some(plain(d))),
        Struct(_) => Val::Data(a.slice_for(FILE)),
        StructAbsent(_) => Val::Data(None),
        Slice(_) => Val::Data(Some(a.slice_for(FILE).unwrap().slice(5..))),
        SliceAbsent(_) => return Err(io::ErrorKind::NotFound),
        Size(_) => Val::Num(d.len() as u64),
        Exists(_) | FileExists(_) => Val::Yes(true),
        StructSize(_) => Val::Num(a.size_of(FILE2).unwrap() as u64),
        Store(_) => Val::Unit,
    })
}
fn expected_absent(o: &COp) -> Res {
    match o {
        Exists(_) | FileExists(_) => Ok(Val::Yes(false)),
        Store(_) => Ok(Val::Unit),
        _ => Err(io::ErrorKind::NotFound),
    }
}
fn brief(r: &Res) -> String {
    match r {
        Ok(Val::Data(Some(b))) => format!("{} bytes", b.len()),
        x => format!("{:?}", x),
    }
}
pub struct Setup {
    pub limit: usize,
    /// size of every layer, and whether it is stored from the start
    pub sizes: Vec<(usize, bool)>,
}
impl Setup {
    fn build(&self) -> (Mock, Lru) {
        let m = Mock::new();
        for (i, (s, there)) in self.sizes.iter().enumerate() {
            let a = archive(i, *s);
            if *there {
                m.s.lock().unwrap().stored.insert(id(i), a);
            }
        }
        let b = LruArchiveBackend::new(m.clone(), m.clone(), self.limit);
        (m, b)
    }
    fn text(&self) -> String {
        let v: Vec<String> = self.sizes.iter().map(|(s, t)| format!("{}{}", s, if *t { "" } else { "(absent)" })).collect();
        format!("limit {} MiB, layers of {}", self.limit, v.join(", "))
    }
    fn data(&self, i: usize) -> Arc<Vec<u8>> {
        archive(i, self.sizes[i].0)
    }
}

// ---------------------------------------------------------------- one at a time

/// Every sequence of reads and stores, compared with a cache that keeps the most recently used data that fits.
pub struct Order {
    pub setup: Setup,
    pub ops: Vec<COp>,
}
pub fn order_check(o: &Order) -> Result<(), String> {
    let (m, b) = o.setup.build();
    let limit = o.setup.limit * MB;
    // most recent last
    let mut kept: Vec<usize> = vec![];
    let mut there: Vec<bool> = o.setup.sizes.iter().map(|x| x.1).collect();
    for (n, op) in o.ops.iter().enumerate() {
        let i = target(op);
        let before = m.s.lock().unwrap().fetched.len();
        let r = guard(|| Ok(block(perform(b.clone(), m.clone(), *op, o.setup.sizes[i].0))))?;
        let want = if there[i] { expected(op, &o.setup.data(i)) } else { expected_absent(op) };
        if r != want {
            return Err(format!("operation {}: {} gave {} instead of {}", n, op, brief(&r), brief(&want)));
        }
        drop(r);
        drop(want);
        let fetched = m.s.lock().unwrap().fetched[before..].iter().filter(|f| f.2.is_none()).count();
        let size = o.setup.sizes[i].0;
        let fits = size <= limit;
        let keep = |kept: &mut Vec<usize>| {
            while kept.iter().map(|k| o.setup.sizes[*k].0).sum::<usize>() + size > limit {
                kept.remove(0);
            }
            kept.push(i);
        };
        match op {
            Read(_) | Struct(_) | StructAbsent(_) | Slice(_) | SliceAbsent(_) if there[i] => {
                let hit = kept.contains(&i);
                if hit != (fetched == 0) {
                    return Err(format!("operation {}: {} {}", n, op, if hit { "fetched data that should have been kept" } else { "was answered with data that should not have been kept" }));
                }
                if hit {
                    kept.retain(|x| *x != i);
                    kept.push(i);
                } else if fits {
                    keep(&mut kept);
                }
            }
            Store(_) => {
                there[i] = true;
                if fits && !kept.contains(&i) {
                    keep(&mut kept);
                }
            }
            _ => {}
        }
        let alive = m.alive.load(Ordering::SeqCst);
        if alive > limit {
            return Err(format!("operation {}: after {} the cache holds {} bytes, more than {}", n, op, alive, limit));
        }
    }
    // still everything can be read
    for i in 0..there.len() {
        if there[i] {
            let r = guard(|| Ok(block(b.get_layer_bytes(id(i)))))?;
            match r {
                Ok(x) if x[..] == o.setup.data(i)[..] => {}
                x => return Err(format!("afterwards: reading layer {} gave {:?}", i, x.map(|x| x.len()))),
            }
        }
    }
    drop(b);
    if m.alive.load(Ordering::SeqCst) != 0 {
        return Err("memory is held after the cache is gone".into());
    }
    Ok(())
}
fn orders(th: bool) -> Vec<(Setup, Vec<COp>, usize)> {
    let s = |limit: usize, sizes: &[(usize, bool)]| Setup { limit, sizes: sizes.to_vec() };
    let h = MB / 2;
    let mut v = vec![];
    let reads = |n: usize| (0..n).map(Read).collect::<Vec<_>>();
    let d = if th { 2 } else { 0 };
    v.push((s(0, &[(400, true), (MB, true), (500, false)]), vec![Read(0), Read(1), Struct(0), Store(2), Read(2)], 4 + d));
    v.push((s(1, &[(h, true), (h, true), (h, true)]), reads(3), 6 + d));
    v.push((s(1, &[(h, true), (h + 1, true), (400, true), (MB, true)]), reads(4), 5 + d));
    v.push((s(1, &[(MB, true), (MB + 1, true), (400, true), (MB - 400, true)]), reads(4), 5 + d));
    v.push((s(1, &[(h, true), (h, false), (h + 1, false), (MB + 1, false)]), vec![Read(0), Store(1), Store(2), Store(3), Read(1), Read(3), Struct(0)], 4 + d));
    v.push((s(2, &[(h, true), (MB, true), (h + MB, true), (2 * MB, true), (400, true)]), reads(5), 5 + d));
    v.push((s(2, &[(MB, true), (MB, true), (MB, false), (400, false)]), vec![Read(0), Read(1), Store(2), Store(3), Struct(0), StructAbsent(1)], 5 + d / 2));
    v
}
fn run_orders(rep: &Report) {
    for (setup, alphabet, depth) in orders(rep.ctx.thorough) {
        let n = alphabet.len();
        let total = n.pow(depth as u32);
        let setup = Arc::new(setup);
        par(8, |t| {
            for k in (t..total).step_by(8) {
                if rep.stopped() || rep.late() {
                    return;
                }
                let mut x = k;
                let mut ops = vec![];
                for _ in 0..depth {
                    ops.push(alphabet[x % n]);
                    x /= n;
                }
                // a layer is stored once
                if (0..ops.len()).any(|a| matches!(ops[a], Store(_)) && ops[..a].contains(&ops[a])) {
                    continue;
                }
                let o = Order { setup: Setup { limit: setup.limit, sizes: setup.sizes.clone() }, ops };
                let text = format!("{}; {}", o.setup.text(), o.ops.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
                let r = {
                    let _w = WATCH.enter("cache orders".into(), text.clone());
                    guard(|| order_check(&o))
                };
                rep.eval();
                rep.states.fetch_add(1, Ordering::Relaxed);
                rep.traces.fetch_add(1, Ordering::Relaxed);
                rep.transitions.fetch_add(o.ops.len() as u64, Ordering::Relaxed);
                rep.distinct(&text);
                rep.count("operation_orders", 1);
                rep.sample(|| text.clone());
                if let Err(e) = r {
                    rep.violation(format!("cache orders: {}", key_of(&e)), format!("{}: {}", text, e), text);
                }
            }
        });
    }
    rep.out_of_time("operation orders");
}

// ---------------------------------------------------------------- poll by poll

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}
pub struct Polls {
    pub setup: Setup,
    /// done before, one after the other
    pub before: Vec<COp>,
    pub tasks: Vec<Vec<COp>>,
    /// how many drops and errors at most
    pub drops: u32,
    pub errors: u32,
    pub check_limit: bool,
}
struct Rec {
    op: COp,
    task: usize,
    from: usize,
    to: usize,
    res: Option<Res>,
    /// the layer was there at the start, at the end
    there: (bool, bool),
}
/// Judges results: bytes of the layer, or an error its fetch, or a fetch by an operation at the same time, gave.
fn judge(setup: &Setup, recs: &[Rec], fetched: &[(Name, usize, Option<io::ErrorKind>)]) -> Result<(), String> {
    for (n, r) in recs.iter().enumerate() {
        let Some(res) = &r.res else { continue };
        let i = target(&r.op);
        let mut fine = false;
        if r.there.1 || matches!(r.op, Store(_)) {
            fine |= *res == expected(&r.op, &setup.data(i));
        }
        if !r.there.0 && !matches!(r.op, Store(_)) {
            fine |= *res == expected_absent(&r.op);
        }
        if let Err(k) = res {
            fine |= fetched.iter().any(|(f, by, a)| {
                *f == id(i) && *a == Some(*k) && (*by == n || recs.get(*by).map_or(false, |o| o.from <= r.to && r.from <= o.to))
            });
        }
        if !fine {
            return Err(format!("{} of task {} gave {}", r.op, r.task, brief(res)));
        }
    }
    Ok(())
}
impl Choosing for Polls {
    fn name(&self) -> String {
        let j = |v: &Vec<COp>| v.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(",");
        format!("cache {} after [{}] tasks {} drops {} errors {}", self.setup.text(), j(&self.before), self.tasks.iter().map(j).collect::<Vec<_>>().join(" || "), self.drops, self.errors)
    }
    fn class(&self) -> String {
        let mut v: Vec<String> = self.tasks.iter().flatten().map(|o| o.to_string().split('(').next().unwrap().to_string()).collect();
        v.sort();
        v.dedup();
        format!("cache polls {}", v.join("+"))
    }
    fn bound(&self) -> u32 {
        0
    }
    fn run(&self, c: &mut Ch) -> Result<(), String> {
        let (m, b) = self.setup.build();
        for o in &self.before {
            let _ = block(perform(b.clone(), m.clone(), *o, self.setup.sizes[target(o)].0));
        }
        {
            let mut s = m.s.lock().unwrap();
            s.mode = Mode::Gated;
            s.fetched.clear();
        }
        struct Task {
            next: usize,
            fut: Option<(Pin<Box<dyn Future<Output = Res> + Send>>, usize)>,
            flag: Arc<Flag>,
            polled: bool,
            dead: bool,
        }
        let mut ts: Vec<Task> = self.tasks.iter().map(|_| Task { next: 0, fut: None, flag: Arc::new(Flag(AtomicBool::new(true))), polled: false, dead: false }).collect();
        let mut recs: Vec<Rec> = vec![];
        let there = |i: usize| m.s.lock().unwrap().stored.contains_key(&id(i));
        let (mut drops, mut errors) = (self.drops, self.errors);
        let mut time = 0;
        enum A {
            Poll(usize),
            /// The backend answers, and the task that asked goes on: nobody else can see the answer before that.
            Answer(usize, Option<io::ErrorKind>, usize),
            Drop(usize),
        }
        loop {
            time += 1;
            if time > 400 {
                return Err("the operations do not end".into());
            }
            let mut acts = vec![];
            for (t, x) in ts.iter().enumerate() {
                if !x.dead && (x.fut.is_some() || x.next < self.tasks[t].len()) && x.flag.0.load(Ordering::SeqCst) {
                    acts.push(A::Poll(t));
                }
            }
            {
                let s = m.s.lock().unwrap();
                for (n, e) in s.events.iter().enumerate() {
                    if !e.gone && e.answer.is_none() {
                        let t = recs[e.by].task;
                        acts.push(A::Answer(n, None, t));
                        if errors > 0 {
                            acts.push(A::Answer(n, Some(io::ErrorKind::TimedOut), t));
                        }
                    }
                }
            }
            let unfinished: Vec<usize> = (0..ts.len()).filter(|t| !ts[*t].dead && (ts[*t].fut.is_some() || ts[*t].next < self.tasks[*t].len())).collect();
            if unfinished.is_empty() {
                break;
            }
            if acts.is_empty() {
                return Err(format!("nothing will ever wake task {:?}", unfinished));
            }
            if drops > 0 {
                for (t, x) in ts.iter().enumerate() {
                    if x.fut.is_some() && x.polled {
                        acts.push(A::Drop(t));
                    }
                }
            }
            let pick = c.pick(vec![0; acts.len()]);
            if let A::Answer(n, a, _) = acts[pick] {
                let w = {
                    let mut s = m.s.lock().unwrap();
                    let e = &mut s.events[n];
                    e.answer = Some(a);
                    c.say(format!("the backend's answer to {} of {} is {:?}", e.what, recs[e.by].op, a));
                    e.waker.take()
                };
                if a.is_some() {
                    errors -= 1;
                }
                if let Some(w) = w {
                    w.wake()
                }
            }
            match acts[pick] {
                A::Poll(t) | A::Answer(_, _, t) => {
                    let x = &mut ts[t];
                    x.flag.0.store(false, Ordering::SeqCst);
                    if x.fut.is_none() {
                        let op = self.tasks[t][x.next];
                        x.next += 1;
                        let i = target(&op);
                        recs.push(Rec { op, task: t, from: time, to: usize::MAX, res: None, there: (there(i), true) });
                        x.fut = Some((Box::pin(perform(b.clone(), m.clone(), op, self.setup.sizes[i].0)), recs.len() - 1));
                        x.polled = false;
                    }
                    let w: Waker = x.flag.clone().into();
                    let mut cx = Context::from_waker(&w);
                    let (f, n) = x.fut.as_mut().unwrap();
                    let n = *n;
                    m.s.lock().unwrap().running = n;
                    x.polled = true;
                    match f.as_mut().poll(&mut cx) {
                        Poll::Pending => c.say(format!("poll task {}: {} waits", t, recs[n].op)),
                        Poll::Ready(r) => {
                            c.say(format!("poll task {}: {} gives {}", t, recs[n].op, brief(&r)));
                            recs[n].to = time;
                            recs[n].there.1 = there(target(&recs[n].op));
                            recs[n].res = Some(r);
                            x.fut = None;
                            x.flag.0.store(true, Ordering::SeqCst);
                        }
                    }
                }
                A::Drop(t) => {
                    drops -= 1;
                    let (f, n) = ts[t].fut.take().unwrap();
                    drop(f);
                    recs[n].to = time;
                    c.say(format!("task {} abandons {}", t, recs[n].op));
                    ts[t].dead = true;
                }
            }
        }
        let fetched = {
            let mut s = m.s.lock().unwrap();
            s.mode = Mode::Direct;
            s.fetched.clone()
        };
        if !self.check_limit {
            judge(&self.setup, &recs, &fetched)?;
        }
        recs.clear();
        drop(ts);
        after(&self.setup, &m, &b, self.check_limit)
    }
}
/// Everything can be read, and the cache holds no more than it may.
fn after(setup: &Setup, m: &Mock, b: &Lru, check_limit: bool) -> Result<(), String> {
    let limit = setup.limit * MB;
    let held = |when: &str| {
        let a = m.alive.load(Ordering::SeqCst);
        if check_limit && a > limit {
            return Err(format!("{} the cache holds {} bytes, more than {}", when, a, limit));
        }
        Ok(())
    };
    held("afterwards")?;
    for round in 0..2 {
        for i in 0..setup.sizes.len() {
            let there = m.s.lock().unwrap().stored.contains_key(&id(i));
            for o in [Size(i), Exists(i), FileExists(i), StructSize(i), Read(i), Struct(i), Slice(i)] {
                let want = if there { expected(&o, &setup.data(i)) } else { expected_absent(&o) };
                let r = guard(|| Ok(block(perform(b.clone(), m.clone(), o, setup.sizes[i].0)))).map_err(|e| format!("afterwards: {}: {}", o, e))?;
                if r != want && !check_limit {
                    return Err(format!("afterwards: {} gives {} instead of {}", o, brief(&r), brief(&want)));
                }
                drop(r);
                held(&format!("afterwards, after {} round {}", o, round))?;
            }
        }
    }
    Ok(())
}
fn setups() -> Vec<(Setup, Vec<Vec<COp>>)> {
    let h = MB / 2;
    let s = |limit: usize, sizes: &[(usize, bool)]| Setup { limit, sizes: sizes.to_vec() };
    vec![
        // 0 and 1 fit together, 2 only alone, 3 not at all, 4 is not there
        (s(1, &[(400, true), (h, true), (MB, true), (MB + 1, true), (h, false)]), vec![vec![], vec![Read(0)], vec![Read(1), Read(0)]]),
        (s(1, &[(400, true), (h, true), (MB, true), (MB + 1, true), (h, false)]), vec![vec![Read(2)]]),
        (s(0, &[(400, true), (h, true), (MB, true), (MB + 1, true), (h, false)]), vec![vec![]]),
        (s(2, &[(400, true), (MB, true), (MB, true), (h, true), (MB, false)]), vec![vec![Read(1), Read(2)], vec![Read(1), Store(4)]]),
    ]
}
fn poll_scenarios(th: bool, limit: bool) -> Vec<Box<dyn Choosing>> {
    let mut v: Vec<Box<dyn Choosing>> = vec![];
    for (s, befores) in setups() {
        for before in befores {
            let mut add = |tasks: Vec<Vec<COp>>, drops: u32, errors: u32| {
                v.push(Box::new(Polls { setup: Setup { limit: s.limit, sizes: s.sizes.clone() }, before: before.clone(), tasks, drops, errors, check_limit: limit }))
            };
            let ops = [Read(0), Read(1), Read(2), Read(3), Read(4), Struct(1), Slice(2), StructAbsent(0), Store(4), Exists(1), StructSize(0), Store(0)];
            for a in &ops {
                add(vec![vec![*a, *a]], 1, 1);
                for b in &ops {
                    add(vec![vec![*a], vec![*b]], 2, 1);
                    add(vec![vec![*a], vec![*b, *a]], 1, 1);
                    if th {
                        add(vec![vec![*a, *b], vec![*b, *a]], 1, 1);
                    }
                }
            }
            let few = [Read(0), Read(1), Read(2), Struct(1), Store(4), Read(4)];
            for i in 0..few.len() {
                for j in i..few.len() {
                    for k in j..few.len() {
                        let same = (target(&few[i]) == target(&few[j])) as usize + (target(&few[j]) == target(&few[k])) as usize;
                        if th {
                            add(vec![vec![few[i]], vec![few[j]], vec![few[k]]], 2, 1);
                        } else if same > 0 {
                            add(vec![vec![few[i]], vec![few[j]], vec![few[k]]], 1, (same == 2) as u32);
                        }
                    }
                }
            }
            for x in [Read(0), Struct(1), Read(2)] {
                add(vec![vec![x], vec![x], vec![x, x]], 1 + th as u32, th as u32);
                if th {
                    add(vec![vec![x], vec![x], vec![x], vec![x]], 1, 1);
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- threads

/// Threads with preemptions at every lock; a thread may abandon its operation when it has to wait for the n-th time.
pub struct Threads {
    pub setup: Setup,
    pub before: Vec<COp>,
    /// operations, and after how many waits the first one is abandoned
    pub tasks: Vec<(Vec<COp>, Option<usize>)>,
    pub fail: Option<usize>,
    pub bound: usize,
    pub check_limit: bool,
}
struct Abandon<F> {
    f: Option<F>,
    left: usize,
}
impl<F: Future + Unpin> Future for Abandon<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match Pin::new(self.f.as_mut().unwrap()).poll(cx) {
            Poll::Ready(x) => Poll::Ready(Some(x)),
            Poll::Pending if self.left == 1 => {
                self.f = None;
                Poll::Ready(None)
            }
            Poll::Pending => {
                self.left = self.left.saturating_sub(1);
                Poll::Pending
            }
        }
    }
}
impl Scenario for Threads {
    fn name(&self) -> String {
        let j = |v: &Vec<COp>| v.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(",");
        format!(
            "cache threads {} after [{}] tasks {} fail {:?} bound {}",
            self.setup.text(),
            j(&self.before),
            self.tasks.iter().map(|(v, a)| format!("{}{}", j(v), a.map(|n| format!(" abandoned at wait {}", n)).unwrap_or_default())).collect::<Vec<_>>().join(" || "),
            self.fail,
            self.bound
        )
    }
    fn class(&self) -> String {
        let mut v: Vec<String> = self.tasks.iter().flat_map(|t| &t.0).map(|o| o.to_string().split('(').next().unwrap().to_string()).collect();
        v.sort();
        v.dedup();
        format!("cache threads {}{}", v.join("+"), if self.tasks.iter().any(|t| t.1.is_some()) { " abandoned" } else { "" })
    }
    fn threads(&self) -> usize {
        self.tasks.len()
    }
    fn bound(&self) -> usize {
        self.bound
    }
    fn run(&self, r: &mut Runner) -> Result<(), String> {
        let dir = Scratch::new();
        let (m, b) = self.setup.build();
        for o in &self.before {
            let _ = block(perform(b.clone(), m.clone(), *o, self.setup.sizes[target(o)].0));
        }
        {
            let mut s = m.s.lock().unwrap();
            s.mode = Mode::Threads;
            s.fetched.clear();
            s.calls = 0;
            if let Some(n) = self.fail {
                s.fail = vec![(n, io::ErrorKind::TimedOut)];
            }
        }
        let there = |i: usize| m.s.lock().unwrap().stored.contains_key(&id(i));
        let all: Vec<Vec<(usize, Rec)>> = r
            .go(self.tasks.len(), dir.path(), |t| {
                let mut out = vec![];
                for (n, op) in self.tasks[t].0.iter().enumerate() {
                    boundary();
                    let i = target(op);
                    let serial = t * 16 + n;
                    OP.with(|o| o.set(serial));
                    let (from, th) = (now() as usize, there(i));
                    let f = Box::pin(perform(b.clone(), m.clone(), *op, self.setup.sizes[i].0));
                    let res = match (n, self.tasks[t].1) {
                        (0, Some(k)) => block(Abandon { f: Some(f), left: k }),
                        _ => Some(block(f)),
                    };
                    out.push((serial, Rec { op: *op, task: t, from, to: now() as usize, res, there: (th, there(i)) }));
                }
                out
            })?
            .into_iter()
            .collect::<Result<_, _>>()?;
        let mut recs: Vec<Rec> = vec![];
        let mut at: BTreeMap<usize, usize> = BTreeMap::new();
        for (s, x) in all.into_iter().flatten() {
            at.insert(s, recs.len());
            recs.push(x);
        }
        let fetched: Vec<_> = {
            let mut s = m.s.lock().unwrap();
            s.mode = Mode::Direct;
            s.fail.clear();
            s.fetched.iter().map(|(i, by, a)| (*i, at.get(by).copied().unwrap_or(usize::MAX), *a)).collect()
        };
        OP.with(|o| o.set(usize::MAX));
        if !self.check_limit {
            judge(&self.setup, &recs, &fetched)?;
        }
        recs.clear();
        after(&self.setup, &m, &b, self.check_limit)
    }
}
pub fn thread_scenarios(th: bool, limit: bool) -> Vec<Box<dyn Scenario>> {
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    for (si, (s, befores)) in setups().into_iter().enumerate() {
        for before in befores {
            let mut add = |tasks: Vec<(Vec<COp>, Option<usize>)>, fail: Option<usize>, bound: usize| {
                v.push(Box::new(Threads { setup: Setup { limit: s.limit, sizes: s.sizes.clone() }, before: before.clone(), tasks, fail, bound, check_limit: limit }))
            };
            let ops = [Read(0), Read(1), Read(2), Read(3), Struct(1), Slice(2), Store(4), Read(4), Size(1), StructSize(0), FileExists(1)];
            for (i, a) in ops.iter().enumerate() {
                for b in &ops[i..] {
                    let near = target(a) == target(b);
                    add(vec![(vec![*a], None), (vec![*b], None)], None, 2 + th as usize);
                    if near || th {
                        for f in 0..2 {
                            add(vec![(vec![*a], None), (vec![*b], None)], Some(f), 2 + th as usize);
                        }
                    }
                    for k in 1..3 {
                        add(vec![(vec![*a], Some(k)), (vec![*b], None)], None, 1 + th as usize);
                        add(vec![(vec![*a], None), (vec![*b], Some(k))], None, 1 + th as usize);
                    }
                }
            }
            if si < 2 || th {
                for x in [Read(0), Struct(1), Read(2)] {
                    let n = if x == Struct(1) && !th { 0 } else { 1 };
                    add(vec![(vec![x], None), (vec![x], None), (vec![x], None)], None, n + th as usize);
                    add(vec![(vec![x], None), (vec![x], None), (vec![x], None)], Some(0), n);
                    for k in 1..3 {
                        add(vec![(vec![x], Some(k)), (vec![x], None), (vec![x], None)], None, n);
                        add(vec![(vec![x], Some(k)), (vec![x], Some(k)), (vec![x], None)], None, n);
                    }
                }
                add(vec![(vec![Read(0), Read(1)], None), (vec![Read(2), Read(0)], None)], None, 1 + th as usize);
                add(vec![(vec![Read(2), Read(0)], None), (vec![Read(1), Store(4)], None)], None, 1 + th as usize);
                add(vec![(vec![Read(0)], None), (vec![Read(1)], None), (vec![Read(2)], None)], None, 1 + th as usize);
            }
        }
    }
    v
}
pub fn c17_18(rep: &Report, fin: &(dyn Fn() -> i32 + Sync)) {
    let limit = rep.ctx.prop == "C18";
    let th = rep.ctx.thorough;
    with_watchdog(rep, 60, fin, || {
        if limit {
            run_orders(rep);
        }
        explore_choices(rep, &poll_scenarios(th, limit));
        explore(rep, &thread_scenarios(th, limit));
    });
}
