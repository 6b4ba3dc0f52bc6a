//! One store under test together with its reference model, driven by a small text op language.
use crate::api::*;
use crate::model::*;
use crate::obs::*;
use crate::util::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Scene {
    pub text: String,
    pub ts: Vec<T3>,
}
impl std::ops::Deref for Scene {
    type Target = Vec<T3>;
    fn deref(&self) -> &Vec<T3> {
        &self.ts
    }
}
pub fn scene(s: &str) -> Scene {
    Scene { text: s.into(), ts: if s.is_empty() { vec![] } else { s.split(", ").map(t3s).collect() } }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sel {
    Mask(u64),
    /// generator kind, from, to, step
    Gen(String, usize, usize, usize),
    /// literal triples, written s|p|o
    Lit(T3),
}
pub type TSel = Vec<Sel>;
pub fn gen(kind: &str, i: usize) -> T3 {
    match kind {
        "star" => t3("hub", "p", &format!("x{:05}", i)),
        "nats" => t3("hub", "p", &format!("#{}", i * 3)),
        "rays" => t3(&format!("x{:05}", i), "p", "hub"),
        "chain" => t3(&format!("x{:05}", i), "p", &format!("x{:05}", i + 1)),
        "preds" => t3("s", &format!("p{:05}", i), "o"),
        "predp" => t3(&format!("s{}", i % 3), &format!("p{:05}", i), &format!("o{}", i % 5)),
        "strs" => t3(&format!("x{:05}", i), "p", &format!("\"x{:05}", i)),
        "ints" => t3(&format!("x{:05}", i / 2), "p", &format!("%{}", i as i64 * 7 - 40)),
        "mix" => {
            let o = match i % 4 {
                0 => format!("n{:04}", (i * 7) % 53),
                1 => format!("\"n{:04}", (i * 7) % 53),
                2 => format!("#{}", i % 97),
                _ => format!("%{}", i as i64 - 100),
            };
            t3(&format!("n{:04}", i % 23), &format!("p{}", i % 5), &o)
        }
        "grid" => t3(&format!("n{:03}", i % 16), &format!("p{}", (i / 16) % 4), &format!("n{:03}", i / 64)),
        // longer than any buffer on the way
        "huge" => t3("big", "p", &format!("\"{}{}", ["A", "B", "C", "D"][i % 4], "huge ".repeat((1 << 19) + (i << 16)))),
        "hugen" => t3(&format!("{}{}", ["A", "B", "C", "D"][i % 4], "node ".repeat((1 << 19) + (i << 16))), "p", "big"),
        "long" => t3(&format!("{}{:03}", "L".repeat(1 + (i * 37) % 400), i), "p", &format!("\"{}{:03}", "v".repeat((i * 53) % 700), i)),
        k => panic!("unknown generator {}", k),
    }
}
pub fn resolve(sel: &TSel, sc: &Scene) -> Vec<T3> {
    let mut r = vec![];
    for s in sel {
        match s {
            Sel::Mask(m) => r.extend((0..sc.len()).filter(|i| m >> i & 1 == 1).map(|i| sc[i].clone())),
            Sel::Gen(k, a, b, st) => r.extend((*a..*b).step_by(*st).map(|i| gen(k, i))),
            Sel::Lit(t) => r.push(t.clone()),
        }
    }
    r
}
pub fn m(mask: u64) -> TSel {
    vec![Sel::Mask(mask)]
}
pub fn g(kind: &str, a: usize, b: usize) -> TSel {
    vec![Sel::Gen(kind.into(), a, b, 1)]
}
pub fn gs(kind: &str, a: usize, b: usize, s: usize) -> TSel {
    vec![Sel::Gen(kind.into(), a, b, s)]
}
fn fmt_sel(s: &TSel) -> String {
    if s.is_empty() {
        return "-".into();
    }
    s.iter()
        .map(|x| match x {
            Sel::Mask(m) => format!("m{:x}", m),
            Sel::Gen(k, a, b, c) => format!("g:{}:{}:{}:{}", k, a, b, c),
            Sel::Lit(t) => format!("l:{:?}", t),
        })
        .collect::<Vec<_>>()
        .join(",")
}
fn parse_sel(s: &str) -> TSel {
    if s == "-" {
        return vec![];
    }
    s.split(',')
        .map(|x| {
            if let Some(m) = x.strip_prefix('m') {
                Sel::Mask(u64::from_str_radix(m, 16).unwrap())
            } else {
                let v: Vec<&str> = x.split(':').collect();
                Sel::Gen(v[1].into(), v[2].parse().unwrap(), v[3].parse().unwrap(), v[4].parse().unwrap())
            }
        })
        .collect()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Base(TSel),
    /// child that adds what is absent and removes what is present
    Tog(usize, TSel),
    /// raw requests: additions, removals
    Req(usize, TSel, TSel),
    Squash(usize),
    SqTo(usize, usize),
    Roll(usize),
    RollTo(usize, usize),
    Imp(usize, usize),
    Merge(Vec<usize>),
    Delta(Option<usize>, usize),
    Diff(Option<usize>, usize),
    Create(String),
    Del(String),
    Set(String, usize),
    Force(String, usize),
    /// version relative to the current one
    ForceV(String, usize, i64),
    Reopen(Flavor),
    DropHandles,
    /// observe everything through old handles, new loads and a fresh store
    Obs,
    /// open a builder on a layer (or none), use it, and abandon it
    Abandon(Option<usize>, TSel),
    Listing,
    Anc,
    /// the operation is done by another store instance on the same data
    Alt(Box<Op>),
    /// import a pack with a chain of this many layers made elsewhere; the same pack every time
    Import(usize),
    /// export every layer, import the pack into a memory store and look at it
    Export,
}
impl std::fmt::Display for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let o = |x: &Option<usize>| x.map(|v| v.to_string()).unwrap_or("-".into());
        match self {
            Op::Base(s) => write!(f, "base {}", fmt_sel(s)),
            Op::Tog(p, s) => write!(f, "tog {} {}", p, fmt_sel(s)),
            Op::Req(p, a, r) => write!(f, "req {} {} {}", p, fmt_sel(a), fmt_sel(r)),
            Op::Squash(l) => write!(f, "squash {}", l),
            Op::SqTo(l, u) => write!(f, "sqto {} {}", l, u),
            Op::Roll(l) => write!(f, "roll {}", l),
            Op::RollTo(l, u) => write!(f, "rollto {} {}", l, u),
            Op::Imp(l, u) => write!(f, "imp {} {}", l, u),
            Op::Merge(v) => write!(f, "merge {}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
            Op::Delta(b, l) => write!(f, "delta {} {}", o(b), l),
            Op::Diff(b, l) => write!(f, "diff {} {}", o(b), l),
            Op::Create(g) => write!(f, "create {}", g),
            Op::Del(g) => write!(f, "del {}", g),
            Op::Set(g, l) => write!(f, "set {} {}", g, l),
            Op::Force(g, l) => write!(f, "force {} {}", g, l),
            Op::ForceV(g, l, v) => write!(f, "forcev {} {} {}", g, l, v),
            Op::Reopen(fl) => write!(f, "reopen {:?}", fl),
            Op::DropHandles => write!(f, "drop"),
            Op::Obs => write!(f, "obs"),
            Op::Abandon(b, s) => write!(f, "abandon {} {}", o(b), fmt_sel(s)),
            Op::Listing => write!(f, "listing"),
            Op::Anc => write!(f, "anc"),
            Op::Alt(x) => write!(f, "alt {}", x),
            Op::Import(n) => write!(f, "import {}", n),
            Op::Export => write!(f, "export"),
        }
    }
}
impl Op {
    pub fn parse(s: &str) -> Op {
        let v: Vec<&str> = s.split(' ').collect();
        let u = |i: usize| v[i].parse::<usize>().unwrap();
        let o = |i: usize| if v[i] == "-" { None } else { Some(v[i].parse::<usize>().unwrap()) };
        match v[0] {
            "base" => Op::Base(parse_sel(v[1])),
            "tog" => Op::Tog(u(1), parse_sel(v[2])),
            "req" => Op::Req(u(1), parse_sel(v[2]), parse_sel(v[3])),
            "squash" => Op::Squash(u(1)),
            "sqto" => Op::SqTo(u(1), u(2)),
            "roll" => Op::Roll(u(1)),
            "rollto" => Op::RollTo(u(1), u(2)),
            "imp" => Op::Imp(u(1), u(2)),
            "merge" => Op::Merge(v[1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
            "delta" => Op::Delta(o(1), u(2)),
            "diff" => Op::Diff(o(1), u(2)),
            "create" => Op::Create(v[1].into()),
            "del" => Op::Del(v[1].into()),
            "set" => Op::Set(v[1].into(), u(2)),
            "force" => Op::Force(v[1].into(), u(2)),
            "forcev" => Op::ForceV(v[1].into(), u(2), v[3].parse().unwrap()),
            "reopen" => Op::Reopen(Flavor::parse(v[1]).unwrap()),
            "drop" => Op::DropHandles,
            "obs" => Op::Obs,
            "abandon" => Op::Abandon(o(1), parse_sel(v[2])),
            "listing" => Op::Listing,
            "anc" => Op::Anc,
            "import" => Op::Import(u(1)),
            "export" => Op::Export,
            "alt" => Op::Alt(Box::new(Op::parse(s.strip_prefix("alt ").unwrap()))),
            x => panic!("unknown op {}", x),
        }
    }
}
pub fn fmt_ops(ops: &[Op]) -> String {
    ops.iter().map(|o| o.to_string()).collect::<Vec<_>>().join("; ")
}

pub struct World {
    pub f: Flavor,
    pub sc: Scene,
    pub dir: Scratch,
    pub backing: Backing,
    pub store: AStore,
    pub m: Model,
    pub names: Vec<Name>,
    /// handles obtained when the layer was made (None after DropHandles)
    pub handles: Vec<Option<ALayer>>,
    pub obs: Vec<Obs>,
    pub depth: Depth,
    /// layers whose delta from the parent is only known by content (apply_delta etc.)
    pub trace: Vec<Op>,
    pub transitions: u64,
    pub observations: u64,
    /// observe layers when they are made
    pub observe_new: bool,
    pub builders: Vec<Name>,
    pub dead: bool,
    /// left-overs of interrupted operations may be listed
    pub lenient: bool,
    pub pack: Option<Pack>,
}
/// A pack made in another store: bytes, layer names from the base up, their contents.
#[derive(Clone)]
pub struct Pack {
    pub bytes: Vec<u8>,
    pub names: Vec<Name>,
    pub content: Vec<TSet>,
}
pub fn make_pack(n: usize) -> Result<Pack, String> {
    let sc = scene("a p b, i q \"x, c p #1");
    let mut w = World::new(Flavor::Mem, &sc, LIGHT);
    w.observe_new = false;
    w.step(&Op::Base(m(1)))?;
    for i in 1..n {
        w.step(&Op::Tog(i - 1, m(2 + i as u64)))?;
    }
    let bytes = e("export", w.store.export(&w.names))?;
    Ok(Pack { bytes, names: w.names.clone(), content: (0..n).map(|i| w.m.content(Some(i))).collect() })
}
thread_local! {
    /// an operation of the store returned an error
    pub static IO_ERR: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn e<T>(what: &str, r: std::io::Result<T>) -> Result<T, String> {
    r.map_err(|x| {
        IO_ERR.with(|i| i.set(true));
        format!("{} failed: {:?}: {}", what, x.kind(), x)
    })
}
impl World {
    pub fn new(f: Flavor, sc: &Scene, depth: Depth) -> World {
        World::at(Scratch::new(), f, sc, depth)
    }
    pub fn at(dir: Scratch, f: Flavor, sc: &Scene, depth: Depth) -> World {
        let backing = Backing::new(f, dir.path());
        let store = backing.open(f);
        World {
            f,
            sc: sc.clone(),
            dir,
            backing,
            store,
            m: Model::default(),
            names: vec![],
            handles: vec![],
            obs: vec![],
            depth,
            trace: vec![],
            transitions: 0,
            observations: 0,
            observe_new: true,
            builders: vec![],
            dead: false,
            lenient: false,
            pack: None,
        }
    }
    pub fn trace_text(&self) -> String {
        fmt_ops(&self.trace)
    }
    pub fn handle(&self, i: usize) -> Result<ALayer, String> {
        if let Some(h) = &self.handles[i] {
            return Ok(h.clone());
        }
        self.load(&self.store, i)
    }
    pub fn load(&self, s: &AStore, i: usize) -> Result<ALayer, String> {
        match s.get(self.names[i]) {
            Ok(Some(l)) => Ok(l),
            Ok(None) => Err(format!("layer {} not found", i)),
            Err(x) => {
                IO_ERR.with(|i| i.set(true));
                Err(format!("loading layer {} failed: {:?} {}", i, x.kind(), x))
            }
        }
    }
    fn added(&mut self, idx: usize, l: ALayer, id_parent: Option<usize>) -> Result<usize, String> {
        assert_eq!(idx, self.names.len());
        if self.names.contains(&l.name()) {
            return Err(format!("layer {} got the name of an existing layer", idx));
        }
        self.names.push(l.name());
        self.handles.push(Some(l.clone()));
        if self.observe_new {
            let o = observe(&l, self.depth).map_err(|x| format!("new layer {}: {}", idx, x))?;
            self.observations += 1;
            against_model(&o, &self.m, idx, &self.names, self.depth)?;
            if let Some(p) = id_parent {
                ids_extend(&self.obs[p], &o).map_err(|x| format!("layer {}: {}", idx, x))?;
            }
            self.obs.push(o);
        }
        Ok(idx)
    }
    fn builder(&self, p: Option<usize>) -> Result<ABuilder, String> {
        match p {
            None => e("create_base_layer", self.store.base()),
            Some(p) => e("open_write", self.handle(p)?.child()),
        }
    }
    fn commit(&mut self, b: ABuilder) -> Result<ALayer, String> {
        let l = e("commit", b.commit())?;
        if l.name() != b.name() {
            return Err("committed layer has another name than its builder".into());
        }
        Ok(l)
    }
    pub fn graph(&self, g: &str) -> Result<Option<AGraph>, String> {
        e("open graph", self.store.open(g))
    }
    pub fn step(&mut self, op: &Op) -> Result<(), String> {
        self.trace.push(op.clone());
        self.transitions += 1;
        let op = op.clone();
        guard(|| self.step_inner(&op)).map_err(|x| format!("[{}] {}", op, x))
    }
    pub fn run(&mut self, ops: &[Op]) -> Result<(), String> {
        for o in ops {
            self.step(o)?;
        }
        Ok(())
    }
    fn step_inner(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::Base(s) => {
                let ts = resolve(s, &self.sc);
                let b = self.builder(None)?;
                for t in &ts {
                    e("add", b.add(vt(t)))?;
                }
                let l = self.commit(b)?;
                let i = self.m.commit(None, &ts, &[]);
                self.added(i, l, None)?;
            }
            Op::Tog(p, s) => {
                let ts = resolve(s, &self.sc);
                let base = self.m.content(Some(*p));
                let (r, a): (Vec<T3>, Vec<T3>) = ts.into_iter().partition(|t| base.contains(t));
                self.child(*p, a, r)?;
            }
            Op::Req(p, a, r) => {
                let (a, r) = (resolve(a, &self.sc), resolve(r, &self.sc));
                self.child(*p, a, r)?;
            }
            Op::Squash(l) => {
                let h = self.handle(*l)?;
                let n = e("squash", h.squash())?;
                let i = self.m.push_content(None, self.m.content(Some(*l)));
                self.added(i, n, None)?;
            }
            Op::SqTo(l, u) => {
                let h = self.handle(*l)?;
                let hu = self.handle(*u)?;
                let n = e("squash_upto", h.squash_upto(&hu))?;
                let i = self.m.push_content(Some(*u), self.m.content(Some(*l)));
                self.added(i, n, Some(*u))?;
            }
            Op::Roll(l) => {
                let h = self.handle(*l)?;
                e("rollup", h.rollup())?;
            }
            Op::RollTo(l, u) => {
                let (h, hu) = (self.handle(*l)?, self.handle(*u)?);
                e("rollup_upto", h.rollup_upto(&hu))?;
            }
            Op::Imp(l, u) => {
                let (h, hu) = (self.handle(*l)?, self.handle(*u)?);
                e("imprecise_rollup_upto", h.imprecise_rollup_upto(&hu))?;
            }
            Op::Merge(v) => {
                let ns: Vec<Name> = v.iter().map(|i| self.names[*i]).collect();
                let tmp = Scratch::new();
                let n = e("merge_base_layers", self.store.merge(&ns, tmp.path()))?;
                let mut c = TSet::new();
                for i in v {
                    c.extend(self.m.content(Some(*i)));
                }
                let l = e("get merged layer", self.store.get(n))?.ok_or("merged layer not found")?;
                let i = self.m.push_content(None, c);
                self.added(i, l, None)?;
            }
            Op::Delta(b, l) => {
                let h = self.handle(*l)?;
                let bl = self.builder(*b)?;
                e("apply_delta", bl.apply_delta(&h))?;
                let n = self.commit(bl)?;
                let (a, r) = (self.m.layers[*l].adds.clone(), self.m.layers[*l].rems.clone());
                let i = self.m.commit(*b, &a, &r);
                self.added(i, n, *b)?;
            }
            Op::Diff(b, l) => {
                let h = self.handle(*l)?;
                let bl = self.builder(*b)?;
                e("apply_diff", bl.apply_diff(&h))?;
                let n = self.commit(bl)?;
                let i = self.m.push_content(*b, self.m.content(Some(*l)));
                self.added(i, n, *b)?;
            }
            Op::Create(g) => {
                let r = self.store.create(g);
                match (r, self.m.labels.contains_key(g)) {
                    (Ok(x), false) => {
                        if x.name() != *g {
                            return Err(format!("created graph is named {:?}", x.name()));
                        }
                        self.m.labels.insert(g.clone(), (None, 0));
                    }
                    (Err(x), true) if x.kind() == std::io::ErrorKind::InvalidInput => {}
                    (Ok(_), true) => return Err("creating an existing graph succeeded".into()),
                    (Err(x), false) => return e("create", Err(x)),
                    (Err(x), true) => return e("create an existing graph", Err(x)),
                }
            }
            Op::Del(g) => {
                // every other time by the graph's own handle, which does not tell whether it was there
                let r = if self.transitions % 2 == 1 && self.m.labels.contains_key(g) {
                    let h = e("open", self.store.open(g))?.ok_or("open before delete found nothing")?;
                    e("delete by handle", h.delete())?;
                    if e("open", self.store.open(g))?.is_some() {
                        return Err("a graph deleted by its handle is still there".into());
                    }
                    e("delete by handle again", h.delete())?;
                    true
                } else {
                    e("delete", self.store.delete(g))?
                };
                let w = self.m.labels.remove(g).is_some();
                if r != w {
                    return Err(format!("delete returned {} but existed = {}", r, w));
                }
            }
            Op::Set(g, l) | Op::Force(g, l) | Op::ForceV(g, l, _) => {
                let (gr, cur) = match (self.graph(g)?, self.m.labels.get(g).cloned()) {
                    (Some(a), Some(b)) => (a, b),
                    (None, None) => return Ok(()),
                    (a, b) => return Err(format!("graph open: present={} expected={}", a.is_some(), b.is_some())),
                };
                let h = self.handle(*l)?;
                let (want, got) = match op {
                    Op::Set(..) => (
                        cur.0.map(|c| self.m.is_ancestor_or_self(*l, c)).unwrap_or(true),
                        e("set_head", gr.set_head(&h))?,
                    ),
                    Op::Force(..) => {
                        e("force_set_head", gr.force(&h))?;
                        (true, true)
                    }
                    Op::ForceV(_, _, d) => {
                        let v = cur.1 as i64 + d;
                        if v < 0 {
                            return Ok(());
                        }
                        (*d == 0, e("force_set_head_version", gr.force_v(&h, v as u64))?)
                    }
                    _ => unreachable!(),
                };
                if want != got {
                    return Err(format!("returned {} but expected {} (head {:?})", got, want, cur));
                }
                if want {
                    self.m.labels.insert(g.clone(), (Some(*l), cur.1 + 1));
                }
                self.check_label(g)?;
            }
            Op::Reopen(f) => {
                self.f = *f;
                for h in self.handles.iter_mut() {
                    *h = None;
                }
                self.store = e("opening the store", self.backing.try_open(*f))?;
            }
            Op::DropHandles => {
                for h in self.handles.iter_mut() {
                    *h = None;
                }
            }
            Op::Obs => self.check_all()?,
            Op::Abandon(b, s) => {
                let bl = self.builder(*b)?;
                for t in resolve(s, &self.sc) {
                    e("add", bl.add(vt(&t)))?;
                }
                let n = bl.name();
                if let Ok(Ok(Some(_))) = guard(|| Ok(self.store.get(n))) {
                    return Err("an uncommitted layer can be loaded".into());
                }
                self.builders.push(n);
            }
            Op::Listing => self.check_listing()?,
            Op::Anc => self.check_ancestry()?,
            Op::Import(n) => {
                if self.pack.is_none() {
                    self.pack = Some(make_pack(*n)?);
                }
                let p = self.pack.clone().unwrap();
                e("import", self.store.import(&p.bytes, &p.names))?;
                if self.names.contains(&p.names[0]) {
                    return Ok(());
                }
                let mut parent = None;
                let mut ls = vec![];
                for nm in p.names.iter() {
                    ls.push(e("get imported layer", self.store.get(*nm))?.ok_or("imported layer not found")?);
                }
                for (i, l) in ls.into_iter().enumerate() {
                    let ix = self.m.push_content(parent, p.content[i].clone());
                    parent = Some(self.added(ix, l, parent)?);
                }
            }
            Op::Export => {
                let p = e("export", self.store.export(&self.names))?;
                let other = Backing::new(Flavor::MemUncached, self.dir.path()).open(Flavor::MemUncached);
                other.import(&p, &self.names).map_err(|x| format!("importing the exported pack: {}", x))?;
                for i in 0..self.names.len() {
                    let l = match other.get(self.names[i]) {
                        Ok(Some(l)) => l,
                        x => return Err(format!("layer {} is not in the exported pack ({:?})", i, x.err())),
                    };
                    let o = observe(&l, self.depth)?;
                    against_model(&o, &self.m, i, &self.names, self.depth)?;
                }
            }
            Op::Alt(x) => {
                let fresh = self.backing.fresh(self.f);
                let mine = std::mem::replace(&mut self.store, fresh);
                let n = self.handles.len();
                let held: Vec<_> = self.handles.iter_mut().map(|h| h.take()).collect();
                let r = self.step_inner(x);
                self.store = mine;
                for (i, h) in held.into_iter().enumerate() {
                    self.handles[i] = h;
                }
                for h in self.handles[n..].iter_mut() {
                    *h = None;
                }
                r?
            }
        }
        Ok(())
    }
    pub fn child(&mut self, p: usize, a: Vec<T3>, r: Vec<T3>) -> Result<usize, String> {
        let b = self.builder(Some(p))?;
        for t in &a {
            e("add", b.add(vt(t)))?;
        }
        for t in &r {
            e("remove", b.rem(vt(t)))?;
        }
        let l = self.commit(b)?;
        let i = self.m.commit(Some(p), &a, &r);
        self.added(i, l, Some(p))
    }
    pub fn check_label(&self, g: &str) -> Result<(), String> {
        let want = self.m.labels.get(g);
        match (self.graph(g)?, want) {
            (None, None) => Ok(()),
            (Some(x), Some((l, v))) => {
                let (hl, hv) = e("head_version", x.head_version())?;
                let h2 = e("head", x.head())?;
                let wn = l.map(|l| self.names[l]);
                let (gn, g2) = (hl.as_ref().map(|z| z.name()), h2.map(|z| z.name()));
                if gn != wn || g2 != wn || hv != *v {
                    return Err(format!("graph {}: head {:?}/{:?} version {}, expected {:?} {}", g, gn.map(hexn), g2.map(hexn), hv, wn.map(hexn), v));
                }
                Ok(())
            }
            (a, b) => Err(format!("graph {}: open gives {} but expected {:?}", g, a.is_some(), b)),
        }
    }
    pub fn check_listing(&self) -> Result<(), String> {
        let mut got = e("labels", self.store.labels())?;
        got.sort();
        let want: Vec<String> = self.m.labels.keys().cloned().collect();
        if got != want {
            return Err(format!("labels listed {:?}, expected {:?}", got, want));
        }
        let mut got2: Vec<_> = e("label store labels", block(self.backing.label_store().labels()))?
            .into_iter()
            .map(|l| (l.name, l.layer, l.version))
            .collect();
        got2.sort();
        let want2: Vec<_> = self.m.labels.iter().map(|(k, (l, v))| (k.clone(), l.map(|l| self.names[l]), *v)).collect();
        if got2 != want2 {
            return Err(format!("label values listed {:?}, expected {:?}", got2, want2));
        }
        for l in want {
            self.check_label(&l)?;
        }
        let ls = self.backing.layer_store(self.f);
        let mut l1 = e("layers", block(ls.layers()))?;
        l1.sort();
        let n = l1.len();
        l1.dedup();
        if l1.len() != n {
            return Err("a layer is listed twice".into());
        }
        for (i, n) in self.names.iter().enumerate() {
            if !l1.contains(n) {
                return Err(format!("layer {} ({}) missing from the layer listing of {} entries", i, hexn(*n), l1.len()));
            }
        }
        for n in &l1 {
            if !self.names.contains(n) && !self.builders.contains(n) && !self.lenient {
                // rollup layers are stored layers too; anything listed must be loadable
                if e("listed layer", block(ls.get_layer(*n)))?.is_none() {
                    return Err(format!("listed layer {} does not exist", hexn(*n)));
                }
            }
        }
        Ok(())
    }
    pub fn check_ancestry(&self) -> Result<(), String> {
        let ls = self.backing.layer_store(self.f);
        for i in 0..self.names.len() {
            let h = self.handle(i)?;
            let want: Vec<Name> = self.m.stack(i).into_iter().map(|j| self.names[j]).collect();
            let got = e("retrieve_layer_stack_names", h.stack())?;
            if got != want {
                return Err(format!("stack names of {}: {:?} expected {:?}", i, got, want));
            }
            let wp = self.m.layers[i].parent.map(|p| self.names[p]);
            if h.l().parent_name() != wp {
                return Err(format!("parent_name of {}", i));
            }
            let gp = e("parent", h.parent())?.map(|p| p.name());
            if gp != wp {
                return Err(format!("parent() of {} is {:?}", i, gp.map(hexn)));
            }
            let gp = e("get_layer_parent_name", block(ls.get_layer_parent_name(self.names[i])))?;
            if gp != wp {
                return Err(format!("get_layer_parent_name of {} is {:?}", i, gp.map(hexn)));
            }
            for j in 0..self.names.len() {
                let w = self.m.is_ancestor_or_self(i, j);
                let g = e("layer_is_ancestor_of", block(ls.layer_is_ancestor_of(self.names[i], self.names[j])))?;
                if w != g {
                    return Err(format!("layer_is_ancestor_of({}, {}) = {}", i, j, g));
                }
                if w && i != j {
                    let g = e("stack_names_upto", block(ls.retrieve_layer_stack_names_upto(self.names[i], self.names[j])))?;
                    let st = self.m.stack(i);
                    let at = st.iter().position(|x| *x == j).unwrap();
                    let wn: Vec<Name> = st[at + 1..].iter().map(|x| self.names[*x]).collect();
                    if g != wn {
                        return Err(format!("retrieve_layer_stack_names_upto({}, {}) = {:?}", i, j, g));
                    }
                }
            }
        }
        Ok(())
    }
    /// every layer, through handles kept since creation, a load in this store, and a load in a fresh store
    pub fn check_all(&mut self) -> Result<(), String> {
        let fresh = self.backing.fresh(self.f);
        for i in 0..self.names.len() {
            let mut ways: Vec<(&str, ALayer)> = vec![];
            if let Some(h) = &self.handles[i] {
                ways.push(("held handle", h.clone()));
            }
            ways.push(("load", self.load(&self.store, i)?));
            ways.push(("fresh load", self.load(&fresh, i)?));
            for (what, l) in ways {
                let o = observe(&l, self.depth).map_err(|x| format!("layer {} by {}: {}", i, what, x))?;
                self.observations += 1;
                if self.obs.len() > i {
                    let w = &self.obs[i];
                    if o != *w {
                        return Err(format!("layer {} by {} answers differently than when it was made: {}", i, what, obs_diff(&o, w)));
                    }
                } else {
                    against_model(&o, &self.m, i, &self.names, self.depth).map_err(|x| format!("by {}: {}", what, x))?;
                    assert_eq!(self.obs.len(), i);
                    self.obs.push(o);
                }
            }
        }
        Ok(())
    }
    /// a name independent rendering of the whole visible state
    pub fn canon(&mut self) -> Result<String, String> {
        use std::fmt::Write;
        let mut s = String::new();
        let ix: BTreeMap<Name, usize> = self.names.iter().enumerate().map(|(i, n)| (*n, i)).collect();
        for i in 0..self.names.len() {
            let l = self.load(&self.store, i)?;
            let o = observe(&l, self.depth)?;
            self.observations += 1;
            write!(
                s,
                "L{} p{:?} st{:?} o{:?} pr{:?} t{:?} a{:?} r{:?}\n",
                i,
                o.parent.map(|p| ix[&p]),
                o.stack.iter().map(|p| ix[p]).collect::<Vec<_>>(),
                o.objs,
                o.preds,
                o.triples,
                o.adds,
                o.rems
            )
            .unwrap();
        }
        Ok(s)
    }
}
pub fn obs_diff(a: &Obs, b: &Obs) -> String {
    if a.strs != b.strs {
        let x: Vec<_> = a.strs.difference(&b.strs).take(3).collect();
        let y: Vec<_> = b.strs.difference(&a.strs).take(3).collect();
        return format!("triples gained {:?} lost {:?}", x, y);
    }
    if a.objs != b.objs || a.preds != b.preds {
        return format!("ids {:?}/{:?} were {:?}/{:?}", a.objs, a.preds, b.objs, b.preds);
    }
    if a.triples != b.triples {
        return format!("id triples {:?} were {:?}", a.triples, b.triples);
    }
    if a.adds != b.adds || a.rems != b.rems {
        return format!("delta +{:?} -{:?} was +{:?} -{:?}", a.sadds, a.srems, b.sadds, b.srems);
    }
    if a.parent != b.parent || a.stack != b.stack {
        return format!("parent {:?} stack {:?} was {:?} {:?}", a.parent.map(hexn), a.stack, b.parent.map(hexn), b.stack);
    }
    "name".into()
}
