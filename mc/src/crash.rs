//! Exhaustive exploration of crash points and of the file system states a crash can leave (C13-C15).
use crate::api::*;
use crate::model::*;
use crate::obs::*;
use crate::seq::*;
use crate::seq2::seqs;
use crate::sys::*;
use crate::util::*;
use crate::world::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::Path;
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::sync::Mutex;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ent {
    Dir,
    File(Rc<Vec<u8>>),
}
pub type Tree = BTreeMap<String, Ent>;

fn hash_tree(t: &Tree) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for (k, v) in t {
        h = h.rotate_left(5) ^ fnv(k.as_bytes());
        h = h.wrapping_mul(0x100000001b3);
        match v {
            Ent::Dir => h ^= 1,
            Ent::File(d) => h ^= fnv(d).rotate_left(17),
        }
        h = h.wrapping_mul(0x9E3779B97F4A7C15);
    }
    h
}
pub fn write_tree(root: &Path, t: &Tree) {
    for (k, v) in t {
        let p = root.join(k);
        match v {
            Ent::Dir => std::fs::create_dir_all(p).unwrap(),
            Ent::File(d) => std::fs::write(p, &**d).unwrap(),
        }
    }
}

/// A file during replay of the log.
#[derive(Clone, Default)]
struct FileSt {
    cur: Rc<Vec<u8>>,
    dur: Rc<Vec<u8>>,
    /// has unsynced changes of its data
    dirty: bool,
}
#[derive(Clone, Debug)]
enum DirOp {
    Put(String, NodeId),
    Del(String),
}
#[derive(Clone, Default)]
struct DirSt {
    cur: BTreeMap<String, NodeId>,
    dur: BTreeMap<String, NodeId>,
    /// one element per operation since the last sync of the directory
    pending: Vec<Vec<DirOp>>,
}
#[derive(Clone, Default)]
struct Sim {
    files: HashMap<NodeId, FileSt>,
    dirs: HashMap<NodeId, DirSt>,
}
fn put(d: &mut BTreeMap<String, NodeId>, ops: &[DirOp]) {
    for o in ops {
        match o {
            DirOp::Put(n, x) => {
                d.insert(n.clone(), *x);
            }
            DirOp::Del(n) => {
                d.remove(n);
            }
        }
    }
}
fn splice(v: &Rc<Vec<u8>>, off: u64, data: &[u8]) -> Rc<Vec<u8>> {
    let mut v = (**v).clone();
    let end = off as usize + data.len();
    if v.len() < end {
        v.resize(end, 0);
    }
    v[off as usize..end].copy_from_slice(data);
    Rc::new(v)
}
impl Sim {
    fn new() -> Sim {
        let mut s = Sim::default();
        s.dirs.insert(0, DirSt::default());
        s
    }
    fn dirop(&mut self, d: NodeId, ops: Vec<DirOp>) {
        let d = self.dirs.entry(d).or_default();
        put(&mut d.cur, &ops);
        d.pending.push(ops);
    }
    /// what a write or truncation does to the current content
    fn apply(&mut self, e: &Ev) {
        match e {
            Ev::Create { dir, name, node } => {
                self.files.entry(*node).or_default();
                self.dirop(*dir, vec![DirOp::Put(name.clone(), *node)]);
            }
            Ev::Mkdir { dir, name, node } => {
                self.dirs.entry(*node).or_default();
                self.dirop(*dir, vec![DirOp::Put(name.clone(), *node)]);
            }
            Ev::Remove { dir, name } => self.dirop(*dir, vec![DirOp::Del(name.clone())]),
            Ev::Rename { dir, name, dir2, name2, node } => {
                if dir == dir2 {
                    self.dirop(*dir, vec![DirOp::Del(name.clone()), DirOp::Put(name2.clone(), *node)]);
                } else {
                    self.dirop(*dir2, vec![DirOp::Put(name2.clone(), *node)]);
                    self.dirop(*dir, vec![DirOp::Del(name.clone())]);
                }
            }
            Ev::Link { dir, name, node } => self.dirop(*dir, vec![DirOp::Put(name.clone(), *node)]),
            Ev::Write { node, off, data } => {
                let f = self.files.entry(*node).or_default();
                f.cur = splice(&f.cur, *off, data);
                f.dirty = true;
            }
            Ev::Trunc { node, len } => {
                let f = self.files.entry(*node).or_default();
                let mut v = (*f.cur).clone();
                if v.len() as u64 != *len {
                    v.resize(*len as usize, 0);
                    f.cur = Rc::new(v);
                    f.dirty = true;
                }
            }
            Ev::Sync { node } => {
                let f = self.files.entry(*node).or_default();
                f.dur = f.cur.clone();
                f.dirty = false;
            }
            Ev::SyncDir { node } => {
                let d = self.dirs.entry(*node).or_default();
                d.dur = d.cur.clone();
                d.pending.clear();
            }
            Ev::Begin(_) | Ev::End(_) => {}
        }
    }
    fn tree(&self, dirs: &dyn Fn(NodeId, &DirSt) -> BTreeMap<String, NodeId>, files: &dyn Fn(NodeId, &FileSt) -> Rc<Vec<u8>>) -> Tree {
        fn walk(s: &Sim, n: NodeId, at: &str, out: &mut Tree, dirs: &dyn Fn(NodeId, &DirSt) -> BTreeMap<String, NodeId>, files: &dyn Fn(NodeId, &FileSt) -> Rc<Vec<u8>>) {
            let Some(d) = s.dirs.get(&n) else { return };
            for (name, c) in dirs(n, d) {
                let p = if at.is_empty() { name.clone() } else { format!("{}/{}", at, name) };
                if s.dirs.contains_key(&c) {
                    out.insert(p.clone(), Ent::Dir);
                    walk(s, c, &p, out, dirs, files);
                } else if let Some(f) = s.files.get(&c) {
                    out.insert(p, Ent::File(files(c, f)));
                }
            }
        }
        let mut t = Tree::new();
        walk(self, 0, "", &mut t, dirs, files);
        t
    }
    fn current(&self) -> Tree {
        self.tree(&|_, d| d.cur.clone(), &|_, f| f.cur.clone())
    }
}
/// Every state the file system may be in after a crash when the first `t` events of the log have happened.
/// The label says how the state came about.
fn states(log: &[Ev], t: usize, devs: usize, f: &mut dyn FnMut(&str, Tree)) {
    let mut sim = Sim::new();
    let mut commit = 0;
    for (i, e) in log[..t].iter().enumerate() {
        sim.apply(e);
        if matches!(e, Ev::Sync { .. } | Ev::SyncDir { .. }) {
            commit = i + 1;
        }
    }
    // A: the process is killed, the system stays up; the next write may be cut
    f("kill", sim.current());
    if let Some(Ev::Write { node, off, data }) = log.get(t) {
        let mut cuts = vec![1, data.len() / 2, data.len().saturating_sub(1)];
        cuts.dedup();
        for c in cuts {
            if c > 0 && c < data.len() {
                let mut s = sim.clone();
                s.apply(&Ev::Write { node: *node, off: *off, data: data[..c].to_vec() });
                f(&format!("kill with {} of {} bytes written", c, data.len()), s.current());
            }
        }
    }
    // B: metadata journalled in order, data of unsynced files written out or not
    let dirty: Vec<NodeId> = sim.files.iter().filter(|(_, x)| x.dirty).map(|(k, _)| *k).collect();
    for mcut in commit..=t {
        if mcut > commit && !matches!(log[mcut - 1], Ev::Create { .. } | Ev::Mkdir { .. } | Ev::Remove { .. } | Ev::Rename { .. } | Ev::Link { .. } | Ev::Trunc { .. }) {
            continue;
        }
        let mut meta = Sim::new();
        // contents with no unsynced data written: synced content, then truncations
        for (i, e) in log[..mcut].iter().enumerate() {
            match e {
                Ev::Write { node, .. } => {
                    // counts only when synced later
                    let synced = log[i..t].iter().any(|x| matches!(x, Ev::Sync { node: n } if n == node));
                    if synced {
                        meta.apply(e);
                    }
                }
                e => meta.apply(e),
            }
        }
        let mut sets: Vec<(String, HashSet<NodeId>)> = vec![("no".into(), HashSet::new()), ("all".into(), dirty.iter().copied().collect())];
        for d in &dirty {
            sets.push(("one".into(), [*d].into_iter().collect()));
            if dirty.len() > 2 {
                sets.push(("all but one".into(), dirty.iter().copied().filter(|x| x != d).collect()));
            }
        }
        for (what, keep) in sets {
            let tr = meta.tree(&|_, d| d.cur.clone(), &|n, x| if keep.contains(&n) { sim.files[&n].cur.clone() } else { x.cur.clone() });
            f(&format!("power loss: metadata up to event {}, {} unsynced data", mcut, what), tr);
        }
    }
    // C: only what was synced is sure; everything else independently
    #[derive(Clone, Copy)]
    enum Dim {
        File(NodeId),
        Dir(NodeId),
    }
    let mut dims: Vec<(Dim, usize)> = vec![];
    let mut fs: Vec<_> = sim.files.iter().filter(|(_, x)| x.dirty).map(|(k, _)| *k).collect();
    fs.sort();
    for n in fs {
        let x = &sim.files[&n];
        // current, durable, half, zeros
        let mut opts = 2;
        if x.cur.len() > x.dur.len() {
            opts = 4;
        }
        dims.push((Dim::File(n), opts));
    }
    let mut ds: Vec<_> = sim.dirs.iter().filter(|(_, x)| !x.pending.is_empty()).map(|(k, _)| *k).collect();
    ds.sort();
    for n in ds {
        let x = &sim.dirs[&n];
        // option k: the last k pending operations are lost
        dims.push((Dim::Dir(n), x.pending.len() + 1));
    }
    let build = |ch: &[usize]| -> Tree {
        let mut fo: HashMap<NodeId, usize> = HashMap::new();
        let mut dord: HashMap<NodeId, usize> = HashMap::new();
        for ((d, _), c) in dims.iter().zip(ch) {
            match d {
                Dim::File(n) => {
                    fo.insert(*n, *c);
                }
                Dim::Dir(n) => {
                    dord.insert(*n, *c);
                }
            }
        }
        sim.tree(
            &|n, d| {
                let lost = dord.get(&n).copied().unwrap_or(0);
                if lost == 0 {
                    return d.cur.clone();
                }
                let mut r = d.dur.clone();
                for o in &d.pending[..d.pending.len() - lost] {
                    put(&mut r, o);
                }
                r
            },
            &|n, x| match fo.get(&n).copied().unwrap_or(0) {
                0 => x.cur.clone(),
                1 => x.dur.clone(),
                2 => Rc::new(x.cur[..x.dur.len() + (x.cur.len() - x.dur.len()) / 2].to_vec()),
                _ => {
                    let mut v = (*x.dur).clone();
                    v.resize(x.cur.len(), 0);
                    Rc::new(v)
                }
            },
        )
    };
    let last: Vec<usize> = dims.iter().map(|(d, o)| if let Dim::File(_) = d { 1 } else { o - 1 }).collect();
    let product: usize = dims.iter().map(|(_, o)| *o).fold(1usize, |a, b| a.saturating_mul(b));
    if product <= 128 {
        let mut ch = vec![0; dims.len()];
        loop {
            f("power loss: any subset of unsynced changes", build(&ch));
            let mut i = 0;
            while i < ch.len() {
                ch[i] += 1;
                if ch[i] < dims[i].1 {
                    break;
                }
                ch[i] = 0;
                i += 1;
            }
            if i == ch.len() {
                break;
            }
        }
        return;
    }
    for (base, nd) in [(vec![0; dims.len()], devs), (last, 1)] {
        f("power loss: all or nothing unsynced", build(&base));
        for i in 0..dims.len() {
            for a in 0..dims[i].1 {
                if a == base[i] {
                    continue;
                }
                let mut c = base.clone();
                c[i] = a;
                f("power loss: one deviation", build(&c));
                if nd > 1 {
                    for j in i + 1..dims.len() {
                        for b in 0..dims[j].1 {
                            if b != base[j] {
                                let mut c = c.clone();
                                c[j] = b;
                                f("power loss: two deviations", build(&c));
                            }
                        }
                    }
                }
            }
        }
    }
}

/// A recorded history: operations, the log of file system events, and the model before and after each operation.
pub struct Hist {
    pub f: Flavor,
    pub sc: Scene,
    pub ops: Vec<Op>,
    pub log: Vec<Ev>,
    /// model and names after i operations
    pub models: Vec<(Model, Vec<Name>)>,
    pub pack: Option<Pack>,
}
pub fn record(f: Flavor, sc: &Scene, ops: &[Op]) -> Result<Hist, String> {
    let dir = Scratch::new();
    let root = dir.path().to_path_buf();
    let mut ses = Session::new(&root);
    ses.record = true;
    let _a = Attach::new(&mut *ses, 7);
    let mut w = World::at(dir, f, sc, LIGHT);
    w.observe_new = false;
    let mut models = vec![(w.m.clone(), w.names.clone())];
    for (i, o) in ops.iter().enumerate() {
        ses.ev(Ev::Begin(i));
        w.step(o)?;
        ses.ev(Ev::End(i));
        models.push((w.m.clone(), w.names.clone()));
    }
    drop(_a);
    Ok(Hist { f, sc: sc.clone(), ops: ops.to_vec(), log: std::mem::take(&mut ses.log), models, pack: w.pack.clone() })
}
const SEE: Depth = Depth { cube: false, queries: false, deltas: false, ids: false, stack: true, few: true };

/// Opens the store on a tree and checks it: `C13` acknowledged things, `C14` the rest. The message starts with the property.
fn check_tree(h: &Hist, step: usize, acked: bool, tree: &Tree, full: bool, see: Depth) -> Result<u64, (Vec<&'static str>, String)> {
    let dir = Scratch::new();
    write_tree(dir.path(), tree);
    let (m0, n0) = &h.models[if acked { step + 1 } else { step }];
    let (m1, _) = &h.models[step + 1];
    let bad = |t: &[&'static str], s: String| Err((t.to_vec(), s));
    let open = guard(|| Ok(World::at(dir, h.f, &h.sc, see)));
    let mut w = match open {
        Ok(w) => w,
        Err(x) => return bad(&["C13", "C14", "C15"], format!("opening the store: {}", x)),
    };
    w.observe_new = false;
    w.lenient = true;
    w.pack = h.pack.clone();
    w.names = n0.clone();
    w.handles = vec![None; n0.len()];
    w.m = m0.clone();
    let mut n = 0;
    // layers acknowledged before
    for i in 0..n0.len() {
        let r = guard(|| {
            let l = w.load(&w.store, i)?;
            let o = observe(&l, see)?;
            against_model(&o, &w.m, i, &w.names, see)
        });
        n += 1;
        if let Err(x) = r {
            return bad(&["C13", "C15"], format!("acknowledged layer {}: {}", i, x));
        }
    }
    // labels: the value before or after
    let mut all: Vec<&String> = m0.labels.keys().chain(m1.labels.keys()).collect();
    all.sort();
    all.dedup();
    let mut actual = BTreeMap::new();
    for g in &all {
        let allowed = [m0.labels.get(*g), m1.labels.get(*g)];
        let r = guard(|| match w.graph(g)? {
            None => Ok(None),
            Some(x) => {
                let (l, v) = x.head_version().map_err(|x| format!("head_version: {:?} {}", x.kind(), x))?;
                Ok(Some((l.map(|l| l.name()), v)))
            }
        });
        let same = allowed[0] == allowed[1];
        let tags: &[&'static str] = if same { &["C13", "C14", "C15"] } else { &["C14"] };
        match r {
            Err(x) => return bad(&["C13", "C14", "C15"], format!("graph {}: {}", g, x)),
            Ok(got) => {
                let hit = allowed.iter().find(|a| {
                    let want = a.map(|(l, v)| (l.map(|l| if l < n0.len() { n0[l] } else { [0; 5] }), *v));
                    want == got
                });
                match hit {
                    Some(Some(v)) => {
                        actual.insert((*g).clone(), (*v).clone());
                    }
                    Some(None) => {}
                    None => {
                        let tags: &[&'static str] = if tags.len() == 1 { &["C13", "C14"] } else { tags };
                        return bad(
                            tags,
                            format!("graph {} is {:?}, allowed {:?}", g, got.map(|(l, v)| (l.map(hexn), v)), allowed),
                        );
                    }
                }
            }
        }
    }
    w.m.labels = actual;
    let r = guard(|| w.check_listing());
    if let Err(x) = r {
        return bad(&["C14", "C15"], format!("listing: {}", x));
    }
    if !full {
        return Ok(n);
    }
    // the store takes operations again, the interrupted one first
    let mut post: Vec<Op> = vec![];
    if !acked {
        post.push(h.ops[step].clone());
    }
    let mut layers = n0.len() + post.iter().filter(|o| makes_layer(o)).count();
    if let Some(Op::Import(k)) = post.first() {
        layers += *k;
    }
    if layers == 0 {
        post.push(Op::Base(m(1)));
        layers += 1;
    }
    let newest = layers - 1;
    post.push(Op::Tog(newest, m(1)));
    for g in ["a", "zz"] {
        if !w.m.labels.contains_key(g) && !matches!(post[0], Op::Create(ref x) if x == g) {
            post.push(Op::Create(g.into()));
        }
        post.push(Op::Force(g.into(), newest));
        post.push(Op::Set(g.into(), newest + 1));
    }
    post.push(Op::Del("zz".into()));
    post.push(Op::Roll(newest + 1));
    post.push(Op::Listing);
    post.push(Op::Reopen(h.f));
    post.push(Op::Obs);
    for o in &post {
        n += 1;
        if let Err(x) = w.step(o) {
            let tag: &[&'static str] = if matches!(h.ops[step], Op::Roll(_) | Op::RollTo(..) | Op::Imp(..)) { &["C14", "C15"] } else { &["C14"] };
            return bad(tag, format!("after the crash: {}", x));
        }
    }
    Ok(n)
}
fn ev_text(e: &Ev, names: &HashMap<NodeId, String>) -> String {
    let nm = |n: &NodeId| names.get(n).cloned().unwrap_or_else(|| format!("#{}", n));
    match e {
        Ev::Write { node, off, data } => format!("write {} @{} {} bytes", nm(node), off, data.len()),
        Ev::Trunc { node, len } => format!("truncate {} {}", nm(node), len),
        Ev::Sync { node } => format!("fsync {}", nm(node)),
        Ev::SyncDir { node } => format!("fsync dir {}", nm(node)),
        Ev::Create { dir, name, .. } => format!("create {}/{}", nm(dir), name),
        Ev::Mkdir { dir, name, .. } => format!("mkdir {}/{}", nm(dir), name),
        Ev::Remove { dir, name } => format!("remove {}/{}", nm(dir), name),
        Ev::Rename { dir, name, dir2, name2, .. } => format!("rename {}/{} {}/{}", nm(dir), name, nm(dir2), name2),
        Ev::Link { dir, name, .. } => format!("link {}/{}", nm(dir), name),
        x => format!("{:?}", x),
    }
}
pub fn log_text(log: &[Ev]) -> Vec<String> {
    let mut names = HashMap::new();
    names.insert(0, "".to_string());
    let mut out = vec![];
    for e in log {
        match e {
            Ev::Create { dir, name, node } | Ev::Mkdir { dir, name, node } | Ev::Link { dir, name, node } => {
                let d = names.get(dir).cloned().unwrap_or_default();
                let p = format!("{}/{}", d, name);
                names.insert(*node, p);
            }
            _ => {}
        }
        out.push(ev_text(e, &names));
    }
    out
}
fn key(x: &str) -> String {
    key_of(x)
}
/// Explores the crash points of the last operation of every history.
pub fn explore(rep: &Report, hists: &[(Flavor, Scene, Vec<Op>)], devs: usize, full: bool) {
    let tag: &'static str = match rep.ctx.prop.as_str() {
        "C13" => "C13",
        "C14" => "C14",
        _ => "C15",
    };
    let see = if tag == "C15" { Depth { deltas: true, ids: true, ..SEE } } else { SEE };
    let recs: Mutex<Vec<Hist>> = Mutex::new(vec![]);
    par(hists.len(), |i| {
        let (f, sc, ops) = &hists[i];
        match record(*f, sc, ops) {
            Ok(h) => recs.lock().unwrap().push(h),
            Err(x) => rep.violation(format!("history: {}", key(&x)), &x, replay_text(*f, sc, ops)),
        }
    });
    let mut recs = recs.into_inner().unwrap();
    recs.sort_by_key(|h| (format!("{:?}", h.f), fmt_ops(&h.ops)));
    // tasks: (history, event)
    let mut tasks = vec![];
    for (hi, h) in recs.iter().enumerate() {
        let last = h.ops.len() - 1;
        let from = h.log.iter().position(|e| matches!(e, Ev::Begin(i) if *i == last)).unwrap();
        for t in from..=h.log.len() {
            if t > 0 && t < h.log.len() && matches!(h.log[t - 1], Ev::Begin(_)) && t != from + 1 {
                continue;
            }
            tasks.push((hi, t));
        }
    }
    rep.count("histories", recs.len() as u64);
    rep.count("crash_points", tasks.len() as u64);
    let seen: Mutex<HashSet<(usize, bool, u64)>> = Mutex::new(HashSet::new());
    par(tasks.len(), |k| {
        if rep.stopped() || rep.out_of_time("crash points") {
            return;
        }
        let (hi, t) = tasks[k];
        let h = &recs[hi];
        let step = h.ops.len() - 1;
        let acked = t == h.log.len();
        states(&h.log, t, devs, &mut |how, tree| {
            if rep.stopped() || rep.out_of_time("crash states") {
                return;
            }
            rep.transitions.fetch_add(1, Ordering::Relaxed);
            let hv = hash_tree(&tree);
            if !seen.lock().unwrap().insert((hi, acked, hv)) {
                return;
            }
            rep.states.fetch_add(1, Ordering::Relaxed);
            rep.distinct_h(hv ^ (hi as u64).wrapping_mul(0x9E3779B97F4A7C15));
            rep.eval();
            rep.sample(|| format!("{:?} [{}] crash after event {} of {} ({})", h.f, fmt_ops(&h.ops), t, h.log.len(), how));
            match check_tree(h, step, acked, &tree, full, see) {
                Ok(n) => {
                    rep.count("observations_after_crash", n);
                }
                Err((tags, msg)) => {
                    if tags.contains(&tag) {
                        let lt = log_text(&h.log);
                        let from = t.saturating_sub(12);
                        let near = lt[from..(t + 2).min(lt.len())].iter().enumerate().map(|(i, x)| format!("  {:3}{} {}", from + i, if from + i == t { " <- crash before this" } else { "" }, x)).collect::<Vec<_>>().join("\n");
                        rep.violation(
                            format!("{}: {} [{}]", op_kind(&h.ops[step]), key(&msg), how.split(':').next().unwrap().split(" with").next().unwrap()),
                            format!("{:?} [{}] crash at event {} ({}): {}", h.f, fmt_ops(&h.ops), t, how, msg),
                            format!("{}\ncrash at event {} of {}: {}\n{}\ntree: {:?}", replay_text(h.f, &h.sc, &h.ops), t, lt.len(), how, near, tree.keys().collect::<Vec<_>>()),
                        );
                    } else {
                        rep.count("states_failing_only_another_property", 1);
                    }
                }
            }
        });
    });
    rep.traces.fetch_add(rep.states.load(Ordering::Relaxed), Ordering::Relaxed);
}
pub fn op_kind(o: &Op) -> String {
    o.to_string().split(' ').next().unwrap().to_string()
}
pub fn crash_scene() -> Scene {
    scene("a p b, b p \"v, c q #1")
}
/// Operation alphabet; layers 0 and 1 exist, 1 on top of 0, label a at 0, label e without a head.
fn setup() -> Vec<Op> {
    vec![Op::Base(m(1)), Op::Create("a".into()), Op::Set("a".into(), 0), Op::Tog(0, m(3)), Op::Create("e".into())]
}
fn alphabet(newest: usize) -> Vec<Op> {
    vec![
        Op::Base(m(2)),
        Op::Tog(newest, m(5)),
        Op::Create("b".into()),
        Op::Set("a".into(), newest),
        Op::Force("a".into(), 0),
        Op::Set("e".into(), newest),
        Op::Del("a".into()),
        Op::Create("a".into()),
        Op::Roll(newest),
        Op::RollTo(1, 0),
        Op::Squash(newest),
        Op::SqTo(1, 0),
        Op::Merge(vec![0]),
        Op::Import(2),
    ]
}
/// all sequences of the given length; the newest layer is tracked
fn histories(f: Flavor, len: usize, only: impl Fn(&Op) -> bool) -> Vec<(Flavor, Scene, Vec<Op>)> {
    let mut out = vec![];
    fn rec(f: Flavor, ops: &mut Vec<Op>, newest: usize, left: usize, out: &mut Vec<(Flavor, Scene, Vec<Op>)>, only: &dyn Fn(&Op) -> bool) {
        for o in alphabet(newest) {
            if left == 1 && !only(&o) {
                continue;
            }
            if let Op::Import(_) = o {
                if ops.iter().any(|x| *x == o) {
                    continue;
                }
            }
            let n2 = match &o {
                Op::Import(k) => newest + k,
                x if makes_layer(x) => newest + 1,
                _ => newest,
            };
            ops.push(o);
            if left == 1 {
                out.push((f, crash_scene(), ops.clone()));
            } else {
                rec(f, ops, n2, left - 1, out, only);
            }
            ops.pop();
        }
    }
    let mut ops = setup();
    rec(f, &mut ops, 1, len, &mut out, &only);
    // the first operations of all
    if len == 1 {
        for k in 0..setup().len() {
            let ops = setup()[..=k].to_vec();
            if only(&ops[k]) {
                out.push((f, crash_scene(), ops));
            }
        }
    }
    out
}
pub fn c13_14(rep: &Report) {
    let th = rep.ctx.thorough;
    let full = rep.ctx.prop == "C14";
    let mut hs = vec![];
    let fls: Vec<Flavor> = vec![Flavor::Dir, Flavor::RawArch, Flavor::Arch(16), Flavor::DirCachedLabels];
    for f in &fls {
        let labels_only = *f == Flavor::DirCachedLabels;
        let only = move |o: &Op| !labels_only || matches!(o, Op::Create(_) | Op::Set(..) | Op::Force(..) | Op::Del(_));
        hs.extend(histories(*f, 1, only));
        if *f != Flavor::Arch(16) || th {
            hs.extend(histories(*f, 2, only));
        }
        if th {
            hs.extend(histories(*f, 3, only));
        }
    }
    explore(rep, &hs, if th { 2 } else { 1 }, full);
}
/// A rollup cut short, in stacks with and without earlier rollups.
pub fn c15_crash(rep: &Report) {
    let th = rep.ctx.thorough;
    let mut hs = vec![];
    let sc = crash_scene();
    let chain = vec![Op::Base(m(1)), Op::Tog(0, m(3)), Op::Tog(1, m(4)), Op::Create("a".into()), Op::Set("a".into(), 2)];
    let mut rolls: Vec<Op> = (1..3).map(Op::Roll).collect();
    rolls.extend([Op::RollTo(2, 1), Op::RollTo(2, 0), Op::Imp(2, 0), Op::RollTo(1, 0)]);
    for f in [Flavor::Dir, Flavor::RawArch, Flavor::Arch(16)] {
        for r in &rolls {
            hs.push((f, sc.clone(), [chain.clone(), vec![r.clone()]].concat()));
            for q in &rolls {
                if f != Flavor::Arch(16) || th {
                    hs.push((f, sc.clone(), [chain.clone(), vec![q.clone(), r.clone()]].concat()));
                }
                if th {
                    hs.push((f, sc.clone(), [chain.clone(), vec![q.clone(), Op::Tog(2, m(1)), r.clone()]].concat()));
                    for z in &rolls {
                        hs.push((f, sc.clone(), [chain.clone(), vec![q.clone(), z.clone(), r.clone()]].concat()));
                    }
                }
            }
        }
    }
    explore(rep, &hs, if th { 2 } else { 1 }, true);
}
