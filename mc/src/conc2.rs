//! Scenarios for the interleaving explorer: whole stores (C04, C15, C19).
use crate::api::*;
use crate::conc::{linearizable, Done};
use crate::model::*;
use crate::obs::*;
use crate::sched::*;
use crate::sys::*;
use crate::util::*;
use crate::world::*;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use terminus_store::layer::Layer;
use terminus_store::storage::archive::*;
use terminus_store::storage::directory::*;
use terminus_store::storage::memory::*;
use terminus_store::storage::{CachedLayerStore, LayerCache, LayerStore, LockingHashMapLayerCache};
use terminus_store::store::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SKind {
    Mem,
    Dir,
    /// labels kept in memory as well
    CLab,
    Raw,
    Arch,
}
impl SKind {
    fn flavor(self) -> Flavor {
        match self {
            SKind::Mem => Flavor::Mem,
            SKind::Dir => Flavor::Dir,
            SKind::CLab => Flavor::DirCachedLabels,
            SKind::Raw => Flavor::RawArch,
            SKind::Arch => Flavor::Arch(16),
        }
    }
}
/// A store set up once; every execution starts from a copy.
pub struct Template {
    pub kind: SKind,
    pub sc: Scene,
    pub ops: Vec<Op>,
    files: Vec<(PathBuf, Option<Vec<u8>>)>,
    pub names: Vec<Name>,
    pub obs: Vec<Obs>,
    pub model: Model,
    /// everything the set up left in the store, rolled up layers included
    pub listed: BTreeSet<Name>,
}
fn read_tree(root: &Path, rel: &Path, out: &mut Vec<(PathBuf, Option<Vec<u8>>)>) {
    let mut v: Vec<_> = std::fs::read_dir(root.join(rel)).unwrap().map(|e| e.unwrap()).collect();
    v.sort_by_key(|e| e.file_name());
    for e in v {
        let r = rel.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            out.push((r.clone(), None));
            read_tree(root, &r, out);
        } else {
            out.push((r.clone(), Some(std::fs::read(root.join(&r)).unwrap())));
        }
    }
}
fn seeded<T>(root: &Path, f: impl FnOnce() -> T + Send) -> T
where
    T: Send,
{
    // a fresh thread has fresh random number generators
    std::thread::scope(|s| {
        s.spawn(|| {
            let mut ses = Session::new(root);
            let _a = Attach::new(&mut *ses, 4711);
            f()
        })
        .join()
        .unwrap()
    })
}
impl Template {
    pub fn new(kind: SKind, sc: &Scene, ops: &[Op]) -> Template {
        let dir = Scratch::new();
        let root = dir.path().to_path_buf();
        seeded(&root, move || {
            let mut w = World::at(dir, kind.flavor(), sc, LIGHT);
            w.run(ops).expect("template");
            let listed = block(w.backing.layer_store(w.f).layers()).unwrap().into_iter().collect();
            let mut files = vec![];
            if w.f.persistent() {
                aside(|| read_tree(w.dir.path(), Path::new(""), &mut files));
            }
            Template { kind, sc: sc.clone(), ops: ops.to_vec(), files, names: w.names.clone(), obs: w.obs.clone(), model: w.m.clone(), listed }
        })
    }
    pub fn backing(&self, dir: &Path) -> Result<Back, String> {
        Ok(match self.kind {
            SKind::Mem => seeded(dir, || {
                let mut w = World::at(Scratch::new(), Flavor::Mem, &self.sc, LIGHT);
                w.observe_new = false;
                w.run(&self.ops)?;
                if w.names != self.names {
                    return Err("set up: other names".to_string());
                }
                match w.backing.clone() {
                    Backing::Mem(l, s) => Ok(Back::Mem(l, s)),
                    _ => unreachable!(),
                }
            })?,
            k => {
                for (p, d) in &self.files {
                    match d {
                        None => std::fs::create_dir(dir.join(p)).unwrap(),
                        Some(d) => std::fs::write(dir.join(p), d).unwrap(),
                    }
                }
                Back::Disk(k, dir.to_path_buf())
            }
        })
    }
}
pub enum Back {
    Mem(MemoryLabelStore, MemoryLayerStore),
    Disk(SKind, PathBuf),
}
/// A store with a way to throw layers out of its cache.
#[derive(Clone)]
pub struct Open {
    pub store: AStore,
    pub cached: CachedLayerStore,
}
impl Back {
    pub fn open(&self) -> Open {
        let c = LockingHashMapLayerCache::new();
        let (labels, cached): (Result<MemoryLabelStore, DirectoryLabelStore>, CachedLayerStore) = match self {
            Back::Mem(l, s) => (Ok(l.clone()), CachedLayerStore::new(s.clone(), c)),
            Back::Disk(k, d) => {
                let b = DirectoryArchiveBackend::new(d.clone());
                let s = match k {
                    SKind::Raw => CachedLayerStore::new(ArchiveLayerStore::new(b.clone(), b), c),
                    SKind::Arch => {
                        let lru = LruArchiveBackend::new(b.clone(), b, 16);
                        CachedLayerStore::new(ArchiveLayerStore::new(lru.clone(), lru), c)
                    }
                    _ => CachedLayerStore::new(DirectoryLayerStore::new(d.clone()), c),
                };
                (Err(DirectoryLabelStore::new(d.clone())), s)
            }
        };
        if let Back::Disk(SKind::CLab, d) = self {
            let l = block(CachedDirectoryLabelStore::open(d.clone())).expect("open");
            return Open { store: AStore::A(Store::new(l, cached.clone())), cached };
        }
        let store = match labels {
            Ok(l) => Store::new(l, cached.clone()),
            Err(l) => Store::new(l, cached.clone()),
        };
        Open { store: AStore::A(store), cached }
    }
    /// the plain layer store
    fn plain(&self) -> Arc<dyn LayerStore> {
        match self {
            Back::Mem(_, s) => Arc::new(s.clone()),
            Back::Disk(SKind::Dir | SKind::CLab, d) => Arc::new(DirectoryLayerStore::new(d.clone())),
            Back::Disk(_, d) => {
                let b = DirectoryArchiveBackend::new(d.clone());
                Arc::new(ArchiveLayerStore::new(b.clone(), b))
            }
        }
    }
}
#[derive(Clone, PartialEq, Debug)]
pub enum SOp {
    /// load a layer and look at all of it
    Load(usize),
    /// load and keep
    Hold(usize),
    /// look again at what is kept
    Look,
    Drop,
    /// a child of a layer, toggling triples
    Commit(usize, u64),
    /// the same on top of the layer this thread made last
    More(u64),
    Base(u64),
    Roll(usize),
    RollTo(usize, usize),
    Imp(usize, usize),
    Squash(usize),
    SqTo(usize, usize),
    Merge(usize, usize),
    Delta(usize, usize),
    Layers,
    Anc(usize, usize),
    Stack(usize),
    Changes(usize),
    Inval(usize),
    /// load every layer that is listed
    Sweep,
    // a builder shared by all threads
    BAdd(usize),
    BRem(usize),
    BCommit,
    BCommitNoLoad,
    BCommitted,
    BFind,
}
impl std::fmt::Display for SOp {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", format!("{:?}", self).to_lowercase().replace(' ', ""))
    }
}
impl SOp {
    fn kind(&self) -> String {
        self.to_string().split('(').next().unwrap().into()
    }
}
pub struct StoreSc {
    pub t: Arc<Template>,
    /// every thread has its own store on the same data, as if it were another process
    pub apart: bool,
    /// the layers are held by somebody all the time
    pub warm: bool,
    /// layer the shared builder starts from
    pub builder: Option<usize>,
    pub scripts: Vec<Vec<SOp>>,
    pub bound: usize,
    /// look at the changes, too, whenever a layer is looked at
    pub deep: bool,
    /// report layers which are looked up while they are written
    pub note_half: bool,
}
/// directory layer stores keep no track of which layers are complete
pub const HALF: &str = "directory store: a layer is looked up by its id while it is being written";
fn abandoned(e: &str) -> bool {
    e.contains(ABANDONED)
}
#[derive(Clone, Debug)]
pub struct New {
    pub name: Name,
    pub parent: Option<Name>,
    pub content: TSet,
}
pub fn look(l: &ALayer, e: &Obs, deep: bool) -> Result<(), String> {
    let x: &dyn Layer = l.l();
    let n = e.objs.len();
    if x.name() != e.name {
        return Err("another layer's name".into());
    }
    if x.parent_name() != e.parent {
        return Err(format!("parent {:?} expected {:?}", x.parent_name(), e.parent));
    }
    if x.node_and_value_count() != n || x.predicate_count() != e.preds.len() {
        return Err(format!("{} nodes and values and {} predicates, expected {} and {}", x.node_and_value_count(), x.predicate_count(), n, e.preds.len()));
    }
    for id in 1..=n as u64 {
        let o = x.id_object(id).map(|o| term(&o));
        if o.as_ref() != Some(&e.objs[id as usize - 1]) {
            return Err(format!("id {} is {:?} expected {:?}", id, o, e.objs[id as usize - 1]));
        }
    }
    for id in 1..=e.preds.len() as u64 {
        if x.id_predicate(id).as_ref() != Some(&e.preds[id as usize - 1]) {
            return Err(format!("predicate id {} is {:?}", id, x.id_predicate(id)));
        }
    }
    let v: Vec<_> = x.triples().collect();
    let s: BTreeSet<_> = v.iter().copied().collect();
    if s != e.triples || s.len() != v.len() {
        return Err(format!("triples {:?} expected {:?}", v, e.triples));
    }
    for t in &e.triples {
        if !x.triple_exists(t.subject, t.predicate, t.object) || !x.triples_o(t.object).any(|y| y == *t) {
            return Err(format!("triple {:?} is listed, but not found", t));
        }
    }
    if deep {
        let es = |e: std::io::Error| format!("error {}", e);
        let a: BTreeSet<_> = l.adds().map_err(es)?.collect();
        let r: BTreeSet<_> = l.rems().map_err(es)?.collect();
        if a != e.adds || r != e.rems {
            return Err(format!("changes +{:?} -{:?} expected +{:?} -{:?}", a, r, e.adds, e.rems));
        }
        if l.add_count().map_err(es)? != a.len() || l.rem_count().map_err(es)? != r.len() {
            return Err("change counts".into());
        }
        if l.stack().map_err(es)? != e.stack {
            return Err(format!("ancestors {:?} expected {:?}", l.stack(), e.stack));
        }
    }
    Ok(())
}
pub fn strings(l: &dyn Layer) -> Result<TSet, String> {
    let mut r = TSet::new();
    for t in l.triples() {
        let s = l.id_triple_to_string(&t).ok_or_else(|| format!("no strings for {:?}", t))?;
        if !r.insert(from_vt(&s)) {
            return Err(format!("triple {:?} twice", s));
        }
    }
    Ok(r)
}
pub fn look_new(l: &ALayer, n: &New) -> Result<(), String> {
    let x = l.l();
    if x.name() != n.name || x.parent_name() != n.parent {
        return Err(format!("new layer: parent {:?} expected {:?}", x.parent_name(), n.parent));
    }
    let s = strings(x)?;
    if s != n.content {
        return Err(format!("new layer: content {:?} expected {:?}", s, n.content));
    }
    Ok(())
}
#[derive(Clone, Debug, PartialEq)]
enum BAns {
    Ok,
    Err,
    Bool(bool),
    Found(Option<TSet>),
    None,
}
impl Scenario for StoreSc {
    fn name(&self) -> String {
        format!(
            "store {:?}{}{}{} after [{}]{} threads {} bound {}",
            self.t.kind,
            if self.apart { " apart" } else { "" },
            if self.warm { " warm" } else { "" },
            if self.deep { " deep" } else { "" },
            fmt_ops(&self.t.ops),
            self.builder.map(|b| format!(" builder on {}", b)).unwrap_or_default(),
            self.scripts.iter().map(|s| s.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(" || "),
            self.bound
        )
    }
    fn class(&self) -> String {
        let mut k: Vec<String> = self.scripts.iter().flatten().map(|o| o.kind()).collect();
        k.sort();
        k.dedup();
        format!("store {:?}{} {}", self.t.kind, if self.apart { " apart" } else { "" }, k.join("+"))
    }
    fn threads(&self) -> usize {
        self.scripts.len()
    }
    fn bound(&self) -> usize {
        self.bound
    }
    fn run(&self, r: &mut Runner) -> Result<(), String> {
        let dir = Scratch::new();
        let t = &*self.t;
        let back = t.backing(dir.path())?;
        let first = back.open();
        let stores: Vec<Open> = self.scripts.iter().map(|_| if self.apart { back.open() } else { first.clone() }).collect();
        let es = |e: std::io::Error| format!("error {:?} {}", e.kind(), e);
        let kept: Vec<ALayer> = if self.warm {
            let mut v = vec![];
            for s in &stores {
                for n in &t.names {
                    v.push(s.store.get(*n).map_err(es)?.ok_or("set up: no layer")?);
                }
            }
            v
        } else {
            vec![]
        };
        let builder = match self.builder {
            None => None,
            Some(p) => {
                // made by the first thread's store
                let l = stores[0].store.get(t.names[p]).map_err(es)?.ok_or("set up: no layer")?;
                Some(l.child().map_err(es)?)
            }
        };
        let new: Mutex<Vec<New>> = Mutex::new(vec![]);
        let odd: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
        let bparent = self.builder.map(|p| t.names[p]);
        let bstart = t.model.content(self.builder);
        type D = Done<SOp, BAns>;
        let res = r.go(self.scripts.len(), dir.path(), |th| -> (Vec<D>, Result<(), String>) {
            let st = &stores[th];
            let mut log: Vec<D> = vec![];
            let mut held: Option<(ALayer, usize)> = None;
            let mut mine: Option<(ALayer, TSet)> = None;
            for op in &self.scripts[th] {
                boundary();
                let inv = now();
                let mut ans = BAns::None;
                let x: Result<(), String> = (|| {
                    let get = |i: usize| -> Result<ALayer, String> { st.store.get(t.names[i]).map_err(es)?.ok_or_else(|| "not found".to_string()) };
                    let finish = |b: ABuilder, parent: Option<Name>, content: TSet| -> Result<(ALayer, TSet), String> {
                        let l = b.commit().map_err(es)?;
                        let n = New { name: l.name(), parent, content: content.clone() };
                        look_new(&l, &n)?;
                        new.lock().unwrap().push(n);
                        Ok((l, content))
                    };
                    let toggle = |b: &ABuilder, base: &TSet, mask: u64| -> Result<TSet, String> {
                        let mut c = base.clone();
                        for (i, x) in t.sc.iter().enumerate() {
                            if mask >> i & 1 == 1 {
                                if c.remove(x) {
                                    b.rem(vt(x)).map_err(es)?;
                                } else {
                                    c.insert(x.clone());
                                    b.add(vt(x)).map_err(es)?;
                                }
                            }
                        }
                        Ok(c)
                    };
                    match op {
                        SOp::Load(i) => look(&get(*i)?, &t.obs[*i], self.deep)?,
                        SOp::Hold(i) => held = Some((get(*i)?, *i)),
                        SOp::Look => {
                            if let Some((l, i)) = &held {
                                look(l, &t.obs[*i], true)?;
                            }
                        }
                        SOp::Drop => held = None,
                        SOp::Commit(p, m) => {
                            let b = get(*p)?.child().map_err(es)?;
                            let c = toggle(&b, &t.model.content(Some(*p)), *m)?;
                            mine = Some(finish(b, Some(t.names[*p]), c)?);
                        }
                        SOp::More(m) => {
                            if let Some((l, c)) = mine.clone() {
                                let b = l.child().map_err(es)?;
                                let c = toggle(&b, &c, *m)?;
                                mine = Some(finish(b, Some(l.name()), c)?);
                            }
                        }
                        SOp::Base(m) => {
                            let b = st.store.base().map_err(es)?;
                            let c = toggle(&b, &TSet::new(), *m)?;
                            mine = Some(finish(b, None, c)?);
                        }
                        SOp::Roll(i) => get(*i)?.rollup().map_err(es)?,
                        SOp::RollTo(i, u) => get(*i)?.rollup_upto(&get(*u)?).map_err(es)?,
                        SOp::Imp(i, u) => get(*i)?.imprecise_rollup_upto(&get(*u)?).map_err(es)?,
                        SOp::Squash(_) | SOp::SqTo(..) | SOp::Merge(..) => {
                            let (l, n) = match op {
                                SOp::Squash(i) => {
                                    let l = get(*i)?.squash().map_err(es)?;
                                    let n = New { name: l.name(), parent: None, content: t.model.content(Some(*i)) };
                                    (l, n)
                                }
                                SOp::SqTo(i, u) => {
                                    let l = get(*i)?.squash_upto(&get(*u)?).map_err(es)?;
                                    let n = New { name: l.name(), parent: Some(t.names[*u]), content: t.model.content(Some(*i)) };
                                    (l, n)
                                }
                                SOp::Merge(a, b) => {
                                    let tmp = aside(Scratch::new);
                                    let n = st.store.merge(&[t.names[*a], t.names[*b]], tmp.path()).map_err(es)?;
                                    aside(|| drop(tmp));
                                    let l = st.store.get(n).map_err(es)?.ok_or("merged layer not found")?;
                                    let mut c = t.model.content(Some(*a));
                                    c.extend(t.model.content(Some(*b)));
                                    (l, New { name: n, parent: None, content: c })
                                }
                                _ => unreachable!(),
                            };
                            look_new(&l, &n)?;
                            new.lock().unwrap().push(n);
                        }
                        SOp::Delta(p, d) => {
                            let b = get(*p)?.child().map_err(es)?;
                            let ALayer::A(dl) = get(*d)? else { unreachable!() };
                            let ABuilder::A(bb) = &b else { unreachable!() };
                            block(bb.apply_delta(&dl)).map_err(es)?;
                            let mut c = t.model.content(Some(*p));
                            let ml = &t.model.layers[*d];
                            c.extend(ml.adds.iter().cloned());
                            for x in &ml.rems {
                                c.remove(x);
                            }
                            mine = Some(finish(b, Some(t.names[*p]), c)?);
                        }
                        SOp::Layers => {
                            let done: Vec<New> = new.lock().unwrap().clone();
                            let v = block(st.cached.layers()).map_err(es)?;
                            let s: BTreeSet<Name> = v.iter().copied().collect();
                            if s.len() != v.len() {
                                return Err("a layer is listed twice".into());
                            }
                            if let Some(n) = t.listed.iter().chain(done.iter().map(|n| &n.name)).find(|n| !s.contains(*n)) {
                                return Err(format!("layer {:?} is not listed", n));
                            }
                        }
                        SOp::Sweep => {
                            // whatever is listed can be loaded, if it is complete
                            let v = block(st.cached.layers()).map_err(es)?;
                            for n in v {
                                let done: Option<New> = new.lock().unwrap().iter().find(|x| x.name == n).cloned();
                                if done.is_none() && !t.names.contains(&n) && t.kind == SKind::Dir {
                                    let x = guard(|| match st.store.get(n).map_err(es)? {
                                        Some(l) => strings(l.l()).map(|_| ()),
                                        _ => Ok(()),
                                    });
                                    match x {
                                        Err(e) if !abandoned(&e) => {
                                            if self.note_half {
                                                odd.lock().unwrap().push((HALF.to_string(), e))
                                            }
                                        }
                                        x => x?,
                                    }
                                    continue;
                                }
                                match (st.store.get(n), done) {
                                    (Ok(Some(l)), Some(d)) => look_new(&l, &d)?,
                                    (Ok(None), Some(_)) => return Err("a finished layer is not found".into()),
                                    (Err(e), Some(_)) => return Err(format!("a finished layer cannot be loaded: {}", e)),
                                    (Ok(Some(l)), None) => {
                                        if let Some(i) = t.names.iter().position(|x| *x == n) {
                                            look(&l, &t.obs[i], false)?;
                                        } else if block(back.plain().get_layer(n)).is_ok() {
                                            strings(l.l())?;
                                        }
                                    }
                                    (x, None) => {
                                        if t.names.contains(&n) {
                                            return Err(format!("layer cannot be loaded: {:?}", x.err()));
                                        }
                                    }
                                }
                            }
                        }
                        SOp::Anc(d, a) => {
                            let x = block(st.cached.layer_is_ancestor_of(t.names[*d], t.names[*a])).map_err(es)?;
                            if x != t.model.is_ancestor_or_self(*d, *a) {
                                return Err(format!("is ancestor: {}", x));
                            }
                        }
                        SOp::Stack(i) => {
                            let x = block(st.cached.retrieve_layer_stack_names(t.names[*i])).map_err(es)?;
                            if x != t.obs[*i].stack {
                                return Err(format!("ancestors: {:?}", x));
                            }
                        }
                        SOp::Changes(i) => {
                            let n = t.names[*i];
                            let a: BTreeSet<_> = block(st.cached.triple_additions(n)).map_err(es)?.collect();
                            let r: BTreeSet<_> = block(st.cached.triple_removals(n)).map_err(es)?.collect();
                            if a != t.obs[*i].adds || r != t.obs[*i].rems {
                                return Err(format!("changes +{:?} -{:?}", a, r));
                            }
                        }
                        SOp::Inval(i) => st.cached.invalidate(t.names[*i]),
                        SOp::BAdd(i) | SOp::BRem(i) => {
                            let x = vt(&t.sc[*i]);
                            let b = builder.as_ref().unwrap();
                            let r = if matches!(op, SOp::BAdd(_)) { b.add(x) } else { b.rem(x) };
                            ans = if r.is_ok() { BAns::Ok } else { BAns::Err };
                        }
                        SOp::BCommit => {
                            ans = match builder.as_ref().unwrap().commit() {
                                Ok(_) => BAns::Ok,
                                Err(_) => BAns::Err,
                            }
                        }
                        SOp::BCommitNoLoad => {
                            let ABuilder::A(b) = builder.as_ref().unwrap() else { unreachable!() };
                            ans = match block(b.commit_no_load()) {
                                Ok(_) => BAns::Ok,
                                Err(_) => BAns::Err,
                            }
                        }
                        SOp::BCommitted => {
                            let ABuilder::A(b) = builder.as_ref().unwrap() else { unreachable!() };
                            ans = BAns::Bool(b.committed());
                        }
                        SOp::BFind => {
                            // before it is complete, the layer is not there
                            let x = guard(|| match st.store.get(builder.as_ref().unwrap().name()) {
                                Ok(Some(l)) => {
                                    if l.l().parent_name() != bparent {
                                        return Err("layer being committed has a wrong parent".into());
                                    }
                                    Ok(Some(strings(l.l())?))
                                }
                                // or it cannot be loaded
                                _ => Ok(None),
                            });
                            match x {
                                Ok(x) => ans = BAns::Found(x),
                                Err(e) if t.kind == SKind::Dir && !abandoned(&e) => odd.lock().unwrap().push((HALF.to_string(), e)),
                                Err(e) => return Err(e),
                            }
                        }
                    }
                    Ok(())
                })();
                if let Err(e) = x {
                    return (log, Err(format!("{}: {}", op, e)));
                }
                if ans != BAns::None {
                    log.push(Done { tid: th, inv, resp: now(), op: op.clone(), res: ans });
                }
            }
            (log, Ok(()))
        })?;
        r.odd.extend(odd.into_inner().unwrap());
        let mut ops: Vec<D> = vec![];
        for x in res {
            let (l, e) = x?;
            e?;
            ops.extend(l);
        }
        drop(kept);
        let new = new.into_inner().unwrap();
        // afterwards everything is there, through the old store and a new one
        let names: BTreeSet<Name> = new.iter().map(|n| n.name).collect();
        if names.len() != new.len() || names.iter().any(|n| t.listed.contains(n)) {
            return Err("two layers of one name".into());
        }
        for (what, s) in [("afterwards", &first), ("reopened", &back.open())] {
            for (i, n) in t.names.iter().enumerate() {
                let l = s.store.get(*n).map_err(|e| format!("{}: layer {}: {}", what, i, e))?.ok_or_else(|| format!("{}: layer {} is gone", what, i))?;
                look(&l, &t.obs[i], true).map_err(|e| format!("{}: layer {}: {}", what, i, e))?;
            }
            for n in &new {
                let l = s.store.get(n.name).map_err(|e| format!("{}: new layer: {}", what, e))?.ok_or_else(|| format!("{}: new layer is gone", what))?;
                look_new(&l, n).map_err(|e| format!("{}: {}", what, e))?;
            }
        }
        let v = block(back.plain().layers()).map_err(|e| format!("listing afterwards: {}", e))?;
        let s: BTreeSet<Name> = v.iter().copied().collect();
        if s.len() != v.len() || !t.listed.is_subset(&s) || !names.is_subset(&s) {
            return Err("listing afterwards".into());
        }
        if let Some(b) = &builder {
            // requests that were accepted, in some order, are what is in the layer
            let fresh = back.open();
            let end = match fresh.store.get(b.name()) {
                Ok(Some(l)) => Some((strings(l.l()).map_err(|e| format!("committed layer: {}", e))?, l.l().parent_name())),
                Ok(None) => None,
                Err(e) => {
                    if ops.iter().any(|o| matches!(o.op, SOp::BCommit | SOp::BCommitNoLoad) && o.res == BAns::Ok) {
                        return Err(format!("committed layer: {}", e));
                    }
                    None
                }
            };
            // whoever found the layer saw what it is in the end
            for o in &ops {
                if let BAns::Found(Some(c)) = &o.res {
                    if end.as_ref().map(|e| &e.0) != Some(c) {
                        let what = format!("the layer was seen as {:?} and in the end is {:?}", c, end);
                        if t.kind != SKind::Dir {
                            return Err(what);
                        }
                        r.odd.push((HALF.to_string(), what));
                    }
                }
            }
            // (additions, removals, committed)
            type S = (BTreeSet<usize>, BTreeSet<usize>, bool);
            let apply = |s: &S, d: &D| -> Vec<S> {
                let mut t2 = s.clone();
                let ok = match (&d.op, &d.res) {
                    (SOp::BAdd(i), BAns::Ok) => {
                        t2.0.insert(*i);
                        !s.2
                    }
                    (SOp::BRem(i), BAns::Ok) => {
                        t2.1.insert(*i);
                        !s.2
                    }
                    (SOp::BAdd(_) | SOp::BRem(_), BAns::Err) => s.2,
                    (SOp::BCommit | SOp::BCommitNoLoad, BAns::Ok) => {
                        t2.2 = true;
                        !s.2
                    }
                    (SOp::BCommit | SOp::BCommitNoLoad, BAns::Err) => s.2,
                    (SOp::BCommitted, BAns::Bool(b)) => *b == s.2,
                    (SOp::BFind, BAns::Found(b)) => s.2 || b.is_none() || t.kind == SKind::Dir,
                    _ => false,
                };
                if ok {
                    vec![t2]
                } else {
                    vec![]
                }
            };
            let finish = |s: &S| -> bool {
                let mut m = Model::default();
                let p = m.push_content(None, bstart.clone());
                let a: Vec<T3> = s.0.iter().map(|i| t.sc[*i].clone()).collect();
                let r: Vec<T3> = s.1.iter().map(|i| t.sc[*i].clone()).collect();
                let l = m.commit(Some(p), &a, &r);
                match &end {
                    None => !s.2,
                    Some((c, par)) => s.2 && *c == m.content(Some(l)) && *par == bparent,
                }
            };
            if !linearizable((BTreeSet::new(), BTreeSet::new(), false), &ops, &apply, &finish) {
                let h: Vec<String> = ops.iter().map(|o| format!("t{} [{},{}] {} -> {:?}", o.tid, o.inv, o.resp, o.op, o.res)).collect();
                return Err(format!("no order of the builder's operations explains the results: was {} and in the end {:?}", h.join("; "), end));
            }
        }
        Ok(())
    }
}
fn scene4() -> Scene {
    scene("a p b, b p \"v, c q #1, a q c")
}
fn chain3() -> Vec<Op> {
    vec![Op::Base(m(1)), Op::Tog(0, m(3)), Op::Tog(1, m(4))]
}
pub fn c04_scenarios(th: bool) -> Vec<Box<dyn Scenario>> {
    use SOp::*;
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    let sc = scene4();
    for kind in [SKind::Mem, SKind::Raw, SKind::Dir] {
        let t = Arc::new(Template::new(kind, &sc, &[Op::Base(m(1))]));
        // 0 is in the parent, the others are not
        let ops = [BAdd(1), BAdd(2), BRem(0), BRem(1), BCommit, BCommitNoLoad, BCommitted, BFind];
        let mem = kind == SKind::Mem;
        let mut add = |scripts: Vec<Vec<SOp>>, quick: usize, deep: usize| {
            v.push(Box::new(StoreSc { t: t.clone(), apart: false, warm: false, builder: Some(0), scripts, bound: if th { deep } else { quick }, deep: false, note_half: true }))
        };
        for a in &ops {
            for b in [BCommit, BCommitNoLoad, BAdd(3)] {
                add(vec![vec![a.clone()], vec![b.clone()]], 1, 4);
                for c in &ops {
                    add(vec![vec![a.clone(), c.clone()], vec![b.clone()]], mem as usize, 3);
                    add(vec![vec![a.clone()], vec![c.clone()], vec![b.clone()]], 0, 2);
                }
            }
        }
        for b in [vec![BAdd(3), BCommit], vec![BRem(0), BCommitNoLoad, BFind], vec![BCommit, BAdd(3)], vec![BCommitted, BCommit, BCommitted]] {
            add(vec![vec![BAdd(1), BAdd(2), BCommit], b.clone()], mem as usize, 3);
            add(vec![vec![BAdd(1), BCommit, BFind], b], mem as usize, 3);
        }
    }
    v
}
pub fn c04_races(rep: &Report) {
    explore(rep, &c04_scenarios(rep.ctx.thorough));
}
pub fn c19_scenarios(th: bool) -> Vec<Box<dyn Scenario>> {
    use SOp::*;
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    let sc = scene4();
    // preemptions in short histories
    for (kind, warm) in [(SKind::Mem, false), (SKind::Mem, true), (SKind::Dir, false), (SKind::Raw, false), (SKind::Arch, false)] {
        let t = Arc::new(Template::new(kind, &sc, &chain3()[..2]));
        let handles = vec![Hold(1), Look, Drop, Load(1)];
        let pairs = [
            (vec![Load(1)], vec![Load(1)]),
            (vec![Load(1)], vec![Load(0)]),
            (vec![Load(1)], vec![Inval(1)]),
            (vec![Load(1), Load(1)], vec![Inval(0), Load(1)]),
            (vec![Hold(1), Look, Drop], vec![Load(1), Inval(1)]),
            (handles.clone(), vec![Hold(1), Drop]),
            (handles, vec![Inval(1)]),
            (vec![Commit(1, 2)], vec![Load(1)]),
            (vec![Commit(1, 2)], vec![Commit(1, 4)]),
            (vec![Commit(0, 2)], vec![Roll(1)]),
            (vec![Commit(1, 2)], vec![Layers]),
            (vec![Commit(1, 2)], vec![Sweep]),
            (vec![Base(3)], vec![Sweep]),
            (vec![Base(3)], vec![Base(3)]),
            (vec![Squash(1)], vec![Roll(1)]),
            (vec![SqTo(1, 0)], vec![Inval(0)]),
            (vec![Delta(0, 1)], vec![Commit(0, 2)]),
            (vec![Merge(0, 0)], vec![Load(1)]),
            (vec![Changes(1)], vec![Roll(1)]),
            (vec![Roll(1)], vec![Inval(1), Load(1)]),
        ];
        for (a, b) in pairs {
            if warm && !th && !a.iter().chain(b.iter()).any(|x| matches!(x, Inval(_) | Hold(_) | Roll(_))) {
                continue;
            }
            if kind == SKind::Arch && !th && a.len() + b.len() > 3 {
                continue;
            }
            v.push(Box::new(StoreSc { t: t.clone(), apart: false, warm, builder: None, scripts: vec![a, b], bound: if th { 3 } else { 1 }, deep: false, note_half: true }));
        }
        for s in [vec![vec![Load(1)]; 3], vec![vec![Load(1)], vec![Inval(1)], vec![Load(1)]], vec![vec![Load(1)], vec![Hold(1), Drop], vec![Inval(0)]]] {
            v.push(Box::new(StoreSc { t: t.clone(), apart: false, warm, builder: None, scripts: s, bound: if th { 2 } else { 0 }, deep: false, note_half: true }));
        }
    }
    // every order of whole operations, and of the accesses where one has to wait, in longer ones
    for kind in [SKind::Mem, SKind::Dir, SKind::Raw, SKind::Arch] {
        let mut ts = vec![(0, Arc::new(Template::new(kind, &sc, &chain3())))];
        ts.push((1, Arc::new(Template::new(kind, &sc, &[chain3(), vec![Op::Roll(1)]].concat()))));
        ts.push((2, Arc::new(Template::new(kind, &sc, &[chain3(), vec![Op::Tog(2, m(1)), Op::RollTo(3, 1)]].concat()))));
        let all: Vec<SOp> = vec![
            Load(2),
            Load(0),
            Commit(2, 8),
            Commit(0, 6),
            Base(3),
            Roll(2),
            Roll(1),
            RollTo(2, 0),
            Imp(2, 0),
            Squash(2),
            SqTo(2, 0),
            Merge(0, 0),
            Delta(0, 2),
            Layers,
            Anc(2, 0),
            Stack(2),
            Changes(2),
            Inval(2),
            Sweep,
        ];
        for (ti, t) in &ts {
            for warm in [false, true] {
                let mut add = |scripts: Vec<Vec<SOp>>, bound: usize, deep: bool| {
                    let bound = if th { bound } else { 0 };
                    v.push(Box::new(StoreSc { t: t.clone(), apart: false, warm, builder: None, scripts, bound, deep, note_half: true }))
                };
                if *ti != 0 && !th && (warm || kind == SKind::Arch) {
                    continue;
                }
                for i in 0..all.len() {
                    for j in i..all.len() {
                        add(vec![vec![all[i].clone()], vec![all[j].clone()]], 2, false);
                    }
                }
                if *ti != 0 && !th {
                    continue;
                }
                // handles that come and go
                for x in [vec![Load(2)], vec![Roll(2)], vec![Commit(2, 8)], vec![Inval(2), Load(2)], vec![Hold(2), Drop, Load(2)], vec![Hold(1), Drop, Hold(2), Look]] {
                    add(vec![vec![Hold(2), Look, Drop, Load(2)], x.clone()], 1, false);
                    add(vec![vec![Hold(2), Drop], x, vec![Load(2)]], 1, false);
                }
                for x in [vec![Load(2), Load(1)], vec![RollTo(2, 0), Load(2)], vec![Commit(2, 8), More(3)], vec![Squash(2), Load(2)]] {
                    add(vec![vec![Roll(2), Load(2)], x.clone()], 1, true);
                    add(vec![vec![Roll(1), Roll(2)], x.clone()], 1, false);
                    add(vec![vec![Commit(1, 9), Roll(2)], x], 1, false);
                }
                add(vec![vec![Load(2)], vec![Load(2)], vec![Load(2)]], 1, false);
                add(vec![vec![Roll(2)], vec![Load(2)], vec![Load(1)]], 1, false);
                add(vec![vec![Commit(2, 8)], vec![Commit(2, 8)], vec![Commit(2, 4)]], 1, false);
                add(vec![vec![Roll(2)], vec![RollTo(2, 0)], vec![Load(2)]], 1, false);
            }
        }
    }
    v
}
pub fn c19(rep: &Report, fin: &(dyn Fn() -> i32 + Sync)) {
    with_watchdog(rep, 60, fin, || explore(rep, &c19_scenarios(rep.ctx.thorough)));
}
pub fn c15_scenarios(th: bool) -> Vec<Box<dyn Scenario>> {
    use SOp::*;
    let mut v: Vec<Box<dyn Scenario>> = vec![];
    let sc = scene4();
    let long = || vec![chain3(), vec![Op::Tog(2, m(9))]].concat();
    // preemptions in short histories
    for (kind, apart, warm) in [
        (SKind::Mem, false, true),
        (SKind::Mem, false, false),
        (SKind::Dir, true, false),
        (SKind::Dir, false, true),
        (SKind::Raw, true, false),
        (SKind::Arch, false, true),
        (SKind::Arch, true, true),
    ] {
        let ts = [
            (1, Arc::new(Template::new(kind, &sc, &chain3()[..2]))),
            (2, Arc::new(Template::new(kind, &sc, &[chain3(), vec![Op::RollTo(2, 1)]].concat()))),
        ];
        for (top, t) in &ts {
            let top = *top;
            for r in [Roll(top), Imp(top, 0)] {
                let mut xs = vec![
                    vec![Load(top)],
                    vec![Changes(top)],
                    vec![Commit(top, 2)],
                    vec![Roll(top)],
                    vec![Hold(top), Look, Drop, Load(top)],
                ];
                if matches!(r, Roll(_)) {
                    xs.extend([vec![SqTo(top, 0)], vec![Sweep], vec![Load(0)], vec![Imp(top, 0)], vec![Stack(top)]]);
                }
                if top == 2 && !th {
                    xs.truncate(3);
                }
                for (k, x) in xs.into_iter().enumerate() {
                    let bound = if th { 3 } else { 1 };
                    v.push(Box::new(StoreSc { t: t.clone(), apart, warm, builder: None, scripts: vec![vec![r.clone()], x], bound, deep: k < 1, note_half: false }));
                }
            }
        }
    }
    // every order of whole operations, and of the accesses where one has to wait, in longer ones
    for kind in [SKind::Mem, SKind::Dir, SKind::Raw, SKind::Arch] {
        let mut ts = vec![Arc::new(Template::new(kind, &sc, &long())), Arc::new(Template::new(kind, &sc, &[long(), vec![Op::RollTo(3, 1)]].concat()))];
        if th {
            ts.push(Arc::new(Template::new(kind, &sc, &[long(), vec![Op::Roll(1)]].concat())));
            ts.push(Arc::new(Template::new(kind, &sc, &[long(), vec![Op::RollTo(2, 0), Op::Roll(3)]].concat())));
        }
        for t in ts.iter() {
            for (apart, warm) in [(false, false), (true, true), (false, true), (true, false)] {
                if !th && (warm != apart) {
                    continue;
                }
                let mut add = |scripts: Vec<Vec<SOp>>, bound: usize, deep: bool| {
                    let bound = if th { bound } else { 0 };
                    v.push(Box::new(StoreSc { t: t.clone(), apart, warm, builder: None, scripts, bound, deep, note_half: false }))
                };
                let mut rolls = vec![Roll(3), RollTo(3, 1), Imp(3, 0), Roll(2), Roll(1), RollTo(3, 0), RollTo(2, 0), Imp(3, 1)];
                if !th {
                    rolls.truncate(5);
                }
                for (ri, r) in rolls.iter().enumerate() {
                    let readers = [Load(3), Load(2), Changes(3), Commit(3, 2), SqTo(3, 1), Sweep, Stack(3), Anc(3, 0), Squash(3), Delta(0, 3)];
                    for (k, x) in readers.iter().enumerate() {
                        add(vec![vec![r.clone()], vec![x.clone()]], 2, k < 2);
                    }
                    add(vec![vec![r.clone()], vec![Hold(3), Look, Drop, Load(3)]], 1, true);
                    add(vec![vec![r.clone(), Load(3)], vec![Load(3), Load(3)]], 1, false);
                    for (rj, q) in rolls.iter().enumerate() {
                        if rj >= ri {
                            add(vec![vec![r.clone()], vec![q.clone()]], 2, false);
                            add(vec![vec![r.clone()], vec![q.clone()], vec![Load(3)]], 1, false);
                        }
                        if th {
                            add(vec![vec![r.clone(), q.clone()], vec![Load(3)]], 1, false);
                        }
                    }
                }
            }
        }
    }
    v
}
pub fn c15(rep: &Report, fin: &(dyn Fn() -> i32 + Sync)) {
    with_watchdog(rep, 60, fin, || explore(rep, &c15_scenarios(rep.ctx.thorough)));
}
