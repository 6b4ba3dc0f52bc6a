//! Scenarios for the interleaving explorer: labels (C11), heads (C12).
use crate::api::*;
use crate::sched::*;
use crate::util::*;
use std::collections::{BTreeMap, HashSet};
use std::io;
use std::path::Path;
use std::sync::Arc;
use terminus_store::storage::directory::*;
use terminus_store::storage::memory::*;
use terminus_store::storage::{CachedLayerStore, Label, LabelStore, LockingHashMapLayerCache};
use terminus_store::store::*;

/// Value of a label: its layer and version.
pub type Val = (Option<Name>, u64);
/// One finished operation of a history.
#[derive(Clone, Debug)]
pub struct Done<O, R> {
    pub tid: usize,
    pub inv: u64,
    pub resp: u64,
    pub op: O,
    pub res: R,
}
/// Is there an order of the operations, consistent with real time, in which `apply` accepts every one?
pub fn linearizable<S: Clone + Eq + std::hash::Hash, O, R>(init: S, ops: &[Done<O, R>], apply: &dyn Fn(&S, &Done<O, R>) -> Vec<S>, end: &dyn Fn(&S) -> bool) -> bool {
    fn go<S: Clone + Eq + std::hash::Hash, O, R>(s: S, done: u64, ops: &[Done<O, R>], apply: &dyn Fn(&S, &Done<O, R>) -> Vec<S>, end: &dyn Fn(&S) -> bool, seen: &mut HashSet<(u64, S)>) -> bool {
        if done.count_ones() as usize == ops.len() {
            return end(&s);
        }
        if !seen.insert((done, s.clone())) {
            return false;
        }
        let first = (0..ops.len()).filter(|i| done >> i & 1 == 0).map(|i| ops[i].resp).min().unwrap();
        for i in 0..ops.len() {
            if done >> i & 1 == 0 && ops[i].inv <= first {
                for t in apply(&s, &ops[i]) {
                    if go(t, done | 1 << i, ops, apply, end, seen) {
                        return true;
                    }
                }
            }
        }
        false
    }
    assert!(ops.len() <= 60);
    go(init, 0, ops, apply, end, &mut HashSet::new())
}

// ------------------------------------------------------------------ labels

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum LStore {
    Mem,
    Dir,
    Cached,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum LOp {
    Create,
    Get,
    /// update based on what this thread saw last
    Set,
    Del,
    List,
    /// update of another label, to the state it was first seen in
    SetB,
    CreateB,
    DelB,
}
fn lop_text(o: &LOp) -> &'static str {
    match o {
        LOp::Create => "create",
        LOp::Get => "get",
        LOp::Set => "set",
        LOp::Del => "delete",
        LOp::List => "list",
        LOp::SetB => "setB",
        LOp::CreateB => "createB",
        LOp::DelB => "deleteB",
    }
}
/// What was asked, fully determined.
#[derive(Clone, Debug)]
enum Ask {
    Create(usize),
    Get(usize),
    Set(usize, Val, Option<Name>),
    Del(usize),
}
#[derive(Clone, Debug, PartialEq)]
enum Ans {
    Val(Option<Val>),
    Bool(bool),
    Err,
    /// an update found another value
    Stale,
}
pub struct Labels {
    pub kind: LStore,
    /// versions of label a that exist at the start: none, 0, or more
    pub init: Option<u64>,
    pub scripts: Vec<Vec<LOp>>,
    pub bound: usize,
}
const LNAMES: [&str; 2] = ["a", "b"];
fn val(l: &Label) -> Val {
    (l.layer, l.version)
}
fn layer(n: u32) -> Name {
    [n, 7, 7, 7, n]
}
fn mk_label(n: usize, v: Val) -> Label {
    Label { name: LNAMES[n].into(), layer: v.0, version: v.1 }
}
impl Scenario for Labels {
    fn name(&self) -> String {
        format!(
            "labels {:?} a={} threads {} bound {}",
            self.kind,
            self.init.map(|v| v.to_string()).unwrap_or("absent".into()),
            self.scripts.iter().map(|s| s.iter().map(lop_text).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(" || "),
            self.bound
        )
    }
    fn class(&self) -> String {
        let mut k: Vec<&str> = self.scripts.iter().flatten().map(lop_text).collect();
        k.sort();
        k.dedup();
        format!("labels {:?} {}", self.kind, k.join("+"))
    }
    fn threads(&self) -> usize {
        self.scripts.len()
    }
    fn bound(&self) -> usize {
        self.bound
    }
    fn run(&self, r: &mut Runner) -> Result<(), String> {
        let dir = Scratch::new();
        let mem = MemoryLabelStore::new();
        let shared: Option<Arc<dyn LabelStore>> = match self.kind {
            LStore::Mem => Some(Arc::new(mem)),
            LStore::Dir => None,
            LStore::Cached => Some(Arc::new(block(CachedDirectoryLabelStore::open(dir.path().to_path_buf())).map_err(|e| e.to_string())?)),
        };
        let open = || shared.clone().unwrap_or_else(|| Arc::new(DirectoryLabelStore::new(dir.path().to_path_buf())));
        // set up
        let s0 = open();
        let mut start: BTreeMap<usize, Val> = BTreeMap::new();
        let es = |e: io::Error| format!("set up: {}", e);
        if let Some(v) = self.init {
            let mut l = block(s0.create_label("a")).map_err(es)?;
            for i in 0..v {
                l = block(s0.set_label(&l, layer(100 + i as u32))).map_err(es)?.ok_or("set up: stale")?;
            }
            start.insert(0, val(&l));
        }
        if self.init.is_some() {
            let l = block(s0.create_label("b")).map_err(es)?;
            start.insert(1, val(&l));
        }
        let stores: Vec<Arc<dyn LabelStore>> = self.scripts.iter().map(|_| open()).collect();
        type D = Done<Ask, Ans>;
        let res = r.go(self.scripts.len(), dir.path(), |t| -> (Vec<D>, Result<(), String>) {
            let s = &stores[t];
            let mut seen: BTreeMap<usize, Val> = start.clone();
            let mut log: Vec<D> = vec![];
            for (k, op) in self.scripts[t].iter().enumerate() {
                boundary();
                let inv = now();
                let new_layer = Some(layer((t * 10 + k) as u32));
                let mut one = |ask: Ask, res: Ans| log.push(Done { tid: t, inv, resp: now(), op: ask, res });
                match op {
                    LOp::Create | LOp::CreateB => {
                        let n = (*op == LOp::CreateB) as usize;
                        match block(s.create_label(LNAMES[n])) {
                            Ok(l) => {
                                if l.name != LNAMES[n] {
                                    return (log, Err(format!("create gave label {}", l.name)));
                                }
                                seen.insert(n, val(&l));
                                one(Ask::Create(n), Ans::Val(Some(val(&l))));
                            }
                            Err(e) if e.kind() == io::ErrorKind::InvalidInput => one(Ask::Create(n), Ans::Err),
                            Err(e) => return (log, Err(format!("create failed: {}", e))),
                        }
                    }
                    LOp::Get => match block(s.get_label("a")) {
                        Ok(v) => {
                            let v = v.map(|l| val(&l));
                            match v {
                                Some(v) => seen.insert(0, v),
                                None => seen.remove(&0),
                            };
                            one(Ask::Get(0), Ans::Val(v));
                        }
                        Err(e) => return (log, Err(format!("get failed: {}", e))),
                    },
                    LOp::Set | LOp::SetB => {
                        let n = (*op == LOp::SetB) as usize;
                        let base = seen.get(&n).copied().unwrap_or((None, 0));
                        match block(s.set_label_option(&mk_label(n, base), new_layer)) {
                            Ok(Some(l)) => {
                                seen.insert(n, val(&l));
                                one(Ask::Set(n, base, new_layer), Ans::Val(Some(val(&l))));
                            }
                            Ok(None) => one(Ask::Set(n, base, new_layer), Ans::Stale),
                            Err(e) if matches!(e.kind(), io::ErrorKind::InvalidInput | io::ErrorKind::NotFound) => one(Ask::Set(n, base, new_layer), Ans::Err),
                            Err(e) => return (log, Err(format!("set failed: {}", e))),
                        }
                    }
                    LOp::Del | LOp::DelB => {
                        let n = (*op == LOp::DelB) as usize;
                        match block(s.delete_label(LNAMES[n])) {
                            Ok(b) => one(Ask::Del(n), Ans::Bool(b)),
                            Err(e) => return (log, Err(format!("delete failed: {}", e))),
                        }
                    }
                    LOp::List => match block(s.labels()) {
                        Ok(v) => {
                            // a listing is one read of each label, at any time while it runs
                            for n in 0..2 {
                                let f: Vec<&Label> = v.iter().filter(|l| l.name == LNAMES[n]).collect();
                                if f.len() > 1 {
                                    return (log, Err(format!("label {} listed {} times", LNAMES[n], f.len())));
                                }
                                one(Ask::Get(n), Ans::Val(f.first().map(|l| val(l))));
                            }
                            if let Some(l) = v.iter().find(|l| !LNAMES.contains(&l.name.as_str())) {
                                return (log, Err(format!("listing shows label {}", l.name)));
                            }
                        }
                        Err(e) => return (log, Err(format!("listing failed: {}", e))),
                    },
                }
            }
            (log, Ok(()))
        })?;
        let mut ops: Vec<D> = vec![];
        for x in res {
            let (l, e) = x?;
            e?;
            ops.extend(l);
        }
        // what is there in the end, seen through the store and through a new one
        let end = ops.iter().map(|o| o.resp).max().unwrap_or(0) + 1;
        let mut views = vec![("the store", open())];
        if self.kind == LStore::Cached {
            views.push(("a store opened afterwards", Arc::new(block(CachedDirectoryLabelStore::open(dir.path().to_path_buf())).map_err(|e| format!("reopening: {}", e))?)));
        }
        for (_, s) in &views {
            for n in 0..2 {
                let v = block(s.get_label(LNAMES[n])).map_err(|e| format!("get afterwards: {}", e))?.map(|l| val(&l));
                ops.push(Done { tid: 9, inv: end, resp: end, op: Ask::Get(n), res: Ans::Val(v) });
            }
        }
        let apply = |s: &[Option<Val>; 2], d: &D| -> Vec<[Option<Val>; 2]> {
            let mut t = *s;
            let ok = match (&d.op, &d.res) {
                (Ask::Create(n), Ans::Val(Some(v))) => {
                    t[*n] = Some((None, 0));
                    s[*n].is_none() && *v == (None, 0)
                }
                (Ask::Create(n), Ans::Err) => s[*n].is_some(),
                (Ask::Get(n), Ans::Val(v)) => s[*n] == *v,
                (Ask::Set(n, base, l), Ans::Val(Some(v))) => {
                    t[*n] = Some((*l, base.1 + 1));
                    s[*n] == Some(*base) && *v == (*l, base.1 + 1)
                }
                (Ask::Set(n, base, _), Ans::Stale) => s[*n].is_some() && s[*n] != Some(*base),
                (Ask::Set(n, _, _), Ans::Err) => s[*n].is_none(),
                (Ask::Del(n), Ans::Bool(b)) => {
                    t[*n] = None;
                    s[*n].is_some() == *b
                }
                _ => false,
            };
            if ok {
                vec![t]
            } else {
                vec![]
            }
        };
        let init = [start.get(&0).copied(), start.get(&1).copied()];
        if !linearizable(init, &ops, &apply, &|_| true) {
            let h: Vec<String> = ops.iter().map(|o| format!("t{} [{},{}] {:?} -> {:?}", o.tid, o.inv, o.resp, o.op, o.res)).collect();
            return Err(format!("no sequential order explains the results: was {}", h.join("; ")));
        }
        Ok(())
    }
}
fn scripts(ops: &[LOp], len: usize) -> Vec<Vec<LOp>> {
    let mut all = vec![];
    let mut cur: Vec<Vec<LOp>> = vec![vec![]];
    for _ in 0..len {
        cur = cur.iter().flat_map(|s| ops.iter().map(move |o| s.iter().copied().chain([*o]).collect())).collect();
        all.extend(cur.clone());
    }
    all
}
pub fn c11_scenarios(th: bool) -> Vec<Box<dyn Scenario>> {
    use LOp::*;
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    let five = [Create, Get, Set, Del, List];
    for kind in [LStore::Mem, LStore::Dir, LStore::Cached] {
        for init in [None, Some(0), Some(1)] {
            let mut add = |scripts: Vec<Vec<LOp>>, bound: usize| v.push(Box::new(Labels { kind, init, scripts, bound }));
            // two threads with up to two operations each
            let s2 = scripts(&five, 2);
            for i in 0..s2.len() {
                for j in i..s2.len() {
                    if init == Some(1) && !th && s2[i].len() + s2[j].len() == 4 {
                        continue;
                    }
                    let b = if s2[i].len() + s2[j].len() == 2 { 3 } else if th { 2 } else { 1 };
                    add(vec![s2[i].clone(), s2[j].clone()], b + (th && s2[i].len() + s2[j].len() <= 3) as usize);
                }
            }
            // three threads with one operation
            for i in 0..5 {
                for j in i..5 {
                    for k in j..5 {
                        add(vec![vec![five[i]], vec![five[j]], vec![five[k]]], if th { 3 } else { 1 + (kind != LStore::Dir) as usize });
                    }
                }
            }
            if init.is_some() {
                // updates based on a fresh look
                for x in [vec![Get, Set], vec![Set], vec![Set, Set], vec![Del], vec![Del, Create], vec![Del, Create, Set], vec![Get, Set, Get]] {
                    add(vec![vec![Get, Set], x.clone()], if th { 3 } else { 2 });
                    add(vec![vec![Get, Set], vec![Get, Set], x], if th { 1 + (kind != LStore::Dir) as usize } else { (kind == LStore::Mem) as usize });
                }
                // the same value and version made a second time
                add(vec![vec![Set], vec![Del, Create, Set]], if th { 3 } else { 2 });
                add(vec![vec![Get, Set, Get], vec![Del, Create, Set, Get]], if th { 3 } else { 1 });
                // another label in the same listing
                for x in [vec![SetB], vec![DelB], vec![DelB, CreateB], vec![DelB, CreateB, SetB]] {
                    add(vec![vec![List], x.clone()], 2);
                    add(vec![vec![List], x.clone(), vec![Del]], 1 + th as usize);
                    add(vec![vec![Set], x.clone()], 2);
                    add(vec![vec![Del, Create], x], 2);
                }
            }
            // long scripts
            add(vec![vec![Create, Set, Del], vec![Create, Set, Del]], if th { 2 } else { 1 });
            add(vec![vec![Create, Set, Get], vec![Create, Set, Get], vec![List]], (th || kind != LStore::Dir) as usize);
        }
    }
    v
}
pub fn c11(rep: &Report, fin: &(dyn Fn() -> i32 + Sync)) {
    with_watchdog(rep, 60, fin, || explore(rep, &c11_scenarios(rep.ctx.thorough)));
}

// ------------------------------------------------------------------ heads

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum HOp {
    Set(usize),
    Force(usize),
    /// versioned force, with the version read just before (first flag) or at the start
    ForceV(usize, bool),
    Read,
    Del,
    Create,
}
impl std::fmt::Display for HOp {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            HOp::Set(l) => write!(f, "set({})", HL[*l]),
            HOp::Force(l) => write!(f, "force({})", HL[*l]),
            HOp::ForceV(l, true) => write!(f, "forcev({},seen)", HL[*l]),
            HOp::ForceV(l, false) => write!(f, "forcev({},start)", HL[*l]),
            HOp::Read => write!(f, "read"),
            HOp::Del => write!(f, "delete"),
            HOp::Create => write!(f, "create"),
        }
    }
}
/// base, two children, a grandchild, an unrelated base
const HL: [&str; 5] = ["base", "kid1", "kid2", "grandkid", "other"];
const HPARENT: [Option<usize>; 5] = [None, Some(0), Some(0), Some(1), None];
fn is_anc(a: usize, mut d: usize) -> bool {
    loop {
        if a == d {
            return true;
        }
        match HPARENT[d] {
            Some(p) => d = p,
            None => return false,
        }
    }
}
/// Layers made once, used by all executions (they are only read).
pub struct HLayers {
    dir: Scratch,
    mem: MemoryLayerStore,
    names: [Vec<Name>; 2],
}
impl HLayers {
    pub fn new() -> HLayers {
        let dir = Scratch::new();
        let mem = MemoryLayerStore::new();
        let make = |s: Store| -> Vec<Name> {
            let mut v: Vec<StoreLayer> = vec![];
            for (i, p) in HPARENT.iter().enumerate() {
                let b = match p {
                    None => block(s.create_base_layer()).unwrap(),
                    Some(p) => block(v[*p].open_write()).unwrap(),
                };
                b.add_value_triple(terminus_store::layer::ValueTriple::new_node(&format!("s{}", i), "p", "o")).unwrap();
                v.push(block(b.commit()).unwrap());
            }
            v.iter().map(|l| terminus_store::layer::Layer::name(l)).collect()
        };
        let a = make(Store::new(MemoryLabelStore::new(), mem.clone()));
        let b = make(Store::new(MemoryLabelStore::new(), DirectoryLayerStore::new(dir.path())));
        HLayers { dir, mem, names: [a, b] }
    }
}
pub struct Heads {
    pub lay: Arc<HLayers>,
    pub kind: LStore,
    pub init: Option<usize>,
    pub scripts: Vec<Vec<HOp>>,
    pub bound: usize,
}
type HState = Option<(Option<usize>, u64)>;
#[derive(Clone, Debug, PartialEq)]
enum HAns {
    Ok,
    Bool(bool),
    Read(Option<usize>, u64),
    Err,
}
impl Scenario for Heads {
    fn name(&self) -> String {
        format!(
            "heads {:?} head={} threads {} bound {}",
            self.kind,
            self.init.map(|v| HL[v]).unwrap_or("none"),
            self.scripts.iter().map(|s| s.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(" || "),
            self.bound
        )
    }
    fn class(&self) -> String {
        let mut k: Vec<String> = self.scripts.iter().flatten().map(|o| o.to_string().split('(').next().unwrap().to_string()).collect();
        k.sort();
        k.dedup();
        format!("heads {:?} {}", self.kind, k.join("+"))
    }
    fn threads(&self) -> usize {
        self.scripts.len()
    }
    fn bound(&self) -> usize {
        self.bound
    }
    fn run(&self, r: &mut Runner) -> Result<(), String> {
        let dir = Scratch::new();
        let mem = MemoryLabelStore::new();
        let disk = self.kind != LStore::Mem;
        let names = &self.lay.names[disk as usize];
        let mk = || match self.kind {
            LStore::Mem => Store::new(mem.clone(), CachedLayerStore::new(self.lay.mem.clone(), LockingHashMapLayerCache::new())),
            LStore::Dir => Store::new(DirectoryLabelStore::new(dir.path()), CachedLayerStore::new(DirectoryLayerStore::new(self.lay.dir.path()), LockingHashMapLayerCache::new())),
            LStore::Cached => Store::new(
                block(CachedDirectoryLabelStore::open(dir.path().to_path_buf())).unwrap(),
                CachedLayerStore::new(DirectoryLayerStore::new(self.lay.dir.path()), LockingHashMapLayerCache::new()),
            ),
        };
        let first = mk();
        let es = |e: io::Error| format!("set up: {}", e);
        let graph = block(first.create("g")).map_err(es)?;
        let mut start: (Option<usize>, u64) = (None, 0);
        if let Some(i) = self.init {
            let l = block(first.get_layer_from_id(names[i])).map_err(es)?.unwrap();
            if !block(graph.set_head(&l)).map_err(es)? {
                return Err("set up: head not set".into());
            }
            start = (Some(i), 1);
        }
        // threads of one process share a store; other processes have their own
        let stores: Vec<Store> = self.scripts.iter().map(|_| if self.kind == LStore::Dir { mk() } else { first.clone() }).collect();
        let mut ctx = vec![];
        for s in &stores {
            let g = block(s.open("g")).map_err(es)?.ok_or("set up: no graph")?;
            let l: Vec<StoreLayer> = names.iter().map(|n| block(s.get_layer_from_id(*n)).unwrap().unwrap()).collect();
            ctx.push((g, l));
        }
        type D = Done<(HOp, u64), HAns>;
        let idx = |l: &Option<StoreLayer>| l.as_ref().map(|l| names.iter().position(|n| *n == terminus_store::layer::Layer::name(l)).unwrap_or(99));
        let res = r.go(self.scripts.len(), dir.path(), |t| -> (Vec<D>, Result<(), String>) {
            let (g, l) = &ctx[t];
            let mut log = vec![];
            let mut seen = start.1;
            for op in &self.scripts[t] {
                boundary();
                let inv = now();
                let mut used = 0;
                let x: io::Result<HAns> = match op {
                    HOp::Set(i) => block(g.set_head(&l[*i])).map(HAns::Bool),
                    HOp::Force(i) => block(g.force_set_head(&l[*i])).map(|_| HAns::Ok),
                    HOp::ForceV(i, s) => {
                        used = if *s { seen } else { start.1 };
                        block(g.force_set_head_version(&l[*i], used)).map(HAns::Bool)
                    }
                    HOp::Read => block(g.head_version()).map(|(l, v)| {
                        seen = v;
                        HAns::Read(idx(&l), v)
                    }),
                    HOp::Del => block(stores[t].delete("g")).map(HAns::Bool),
                    HOp::Create => match block(stores[t].create("g")) {
                        Ok(_) => Ok(HAns::Bool(true)),
                        Err(e) if e.kind() == io::ErrorKind::InvalidInput => Ok(HAns::Bool(false)),
                        Err(e) => Err(e),
                    },
                };
                let x = match x {
                    Ok(x) => x,
                    Err(e) if matches!(e.kind(), io::ErrorKind::NotFound | io::ErrorKind::InvalidInput) => HAns::Err,
                    Err(e) => return (log, Err(format!("{} failed: {}", op, e))),
                };
                log.push(Done { tid: t, inv, resp: now(), op: (*op, used), res: x });
            }
            (log, Ok(()))
        })?;
        let mut ops: Vec<D> = vec![];
        for x in res {
            let (l, e) = x?;
            e?;
            ops.extend(l);
        }
        let end = ops.iter().map(|o| o.resp).max().unwrap_or(0) + 1;
        for s in [&first, &mk()] {
            let x = match block(s.open("g")).map_err(|e| format!("opening afterwards: {}", e))? {
                None => HAns::Err,
                Some(g) => {
                    let (l, v) = block(g.head_version()).map_err(|e| format!("reading afterwards: {}", e))?;
                    HAns::Read(idx(&l), v)
                }
            };
            ops.push(Done { tid: 9, inv: end, resp: end, op: (HOp::Read, 0), res: x });
        }
        // an update that another one gets in the way of may give up
        let moved = |d: &D| matches!((&d.op.0, &d.res), (HOp::Set(_) | HOp::ForceV(..), HAns::Bool(true)) | (HOp::Force(_), HAns::Ok) | (HOp::Del | HOp::Create, HAns::Bool(true)));
        let disturbed: Vec<(usize, u64)> = ops.iter().filter(|d| ops.iter().any(|o| o.tid != d.tid && moved(o) && o.inv <= d.resp && d.inv <= o.resp)).map(|d| (d.tid, d.inv)).collect();
        let apply = |s: &HState, d: &D| -> Vec<HState> {
            let up = |l: usize, s: &HState| Some((Some(l), s.unwrap().1 + 1));
            let r = match (&d.op.0, &d.res) {
                (HOp::Create, HAns::Bool(b)) => {
                    if s.is_none() == *b {
                        Some(if *b { Some((None, 0)) } else { *s })
                    } else {
                        None
                    }
                }
                (HOp::Del, HAns::Bool(b)) => (s.is_some() == *b).then_some(None),
                (_, HAns::Err) => s.is_none().then_some(*s),
                (_, _) if s.is_none() => None,
                (HOp::Read, HAns::Read(l, v)) => (*s == Some((*l, *v))).then_some(*s),
                (HOp::Force(l), HAns::Ok) => Some(up(*l, s)),
                (HOp::Set(l), HAns::Bool(b)) => {
                    let fits = s.unwrap().0.map_or(true, |h| is_anc(h, *l));
                    match b {
                        true => fits.then(|| up(*l, s)),
                        false => (!fits || disturbed.contains(&(d.tid, d.inv))).then_some(*s),
                    }
                }
                (HOp::ForceV(l, _), HAns::Bool(b)) => {
                    let fits = s.unwrap().1 == d.op.1;
                    match b {
                        true => fits.then(|| up(*l, s)),
                        false => (!fits).then_some(*s),
                    }
                }
                _ => None,
            };
            r.into_iter().collect()
        };
        if !linearizable(Some(start), &ops, &apply, &|_| true) {
            let h: Vec<String> = ops.iter().map(|o| format!("t{} [{},{}] {}{} -> {:?}", o.tid, o.inv, o.resp, o.op.0, if matches!(o.op.0, HOp::ForceV(..)) { format!("@{}", o.op.1) } else { String::new() }, o.res)).collect();
            return Err(format!("no sequential order explains the results: was {}", h.join("; ")));
        }
        Ok(())
    }
}
pub fn c12_scenarios(th: bool) -> Vec<Box<dyn Scenario>> {
    use HOp::*;
    let lay = Arc::new(HLayers::new());
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    // layers are symmetric enough: kid1, its rival kid2, the grandchild, an unrelated base
    let ops = [Set(0), Set(1), Set(2), Set(3), Set(4), Force(1), Force(4), ForceV(2, false), ForceV(3, true), Read];
    for kind in [LStore::Mem, LStore::Dir, LStore::Cached] {
        for init in [None, Some(0), Some(1)] {
            let mut add = |scripts: Vec<Vec<HOp>>, bound: usize| v.push(Box::new(Heads { lay: lay.clone(), kind, init, scripts, bound }));
            let d = kind == LStore::Dir;
            for i in 0..ops.len() {
                for j in i..ops.len() {
                    add(vec![vec![ops[i]], vec![ops[j]]], if th { 4 } else { 2 - d as usize });
                    for k in j..ops.len() {
                        let some = [i, j, k].iter().all(|x| [1, 2, 6, 7].contains(x));
                        if !th && !some && kind != LStore::Mem && (i + j + k) % 3 != 0 {
                            continue;
                        }
                        add(vec![vec![ops[i]], vec![ops[j]], vec![ops[k]]], if th { 2 } else { (some && kind == LStore::Mem) as usize });
                    }
                    for k in 0..ops.len() {
                        // one thread does two, the other one
                        if th || (i + j + k) % 3 == 0 {
                            add(vec![vec![ops[i], ops[k]], vec![ops[j]]], if th { 3 } else { (kind == LStore::Mem && k % 2 == 0) as usize });
                        }
                    }
                }
            }
            for a in [Set(1), Set(3), Force(1), ForceV(1, true)] {
                for b in [Set(2), Force(4), ForceV(2, true), Set(1)] {
                    add(vec![vec![Read, a, Read], vec![Read, b, Read]], if th { 2 } else { 1 - d as usize });
                }
                // deleted and made anew meanwhile
                for b in [vec![Del], vec![Del, Create], vec![Del, Create, Set(4)], vec![Del, Create, Set(2)], vec![Del, Create, Force(1)]] {
                    add(vec![vec![a], b], if th { 3 } else { 2 - d as usize });
                }
            }
        }
    }
    v
}
pub fn c12_races(rep: &Report) {
    explore(rep, &c12_scenarios(rep.ctx.thorough));
}
