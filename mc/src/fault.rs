//! Every file system call of an operation fails in turn (C16).
use crate::api::*;
use crate::crash::*;
use crate::model::*;
use crate::obs::*;
use crate::seq::*;
use crate::sys::*;
use crate::util::*;
use crate::world::*;
use std::sync::atomic::Ordering;
use std::sync::Mutex;

const SEE: Depth = Depth { cube: false, queries: false, deltas: false, ids: false, stack: true, few: true };

#[derive(Clone)]
pub struct Case {
    pub f: Flavor,
    pub setup: Vec<Op>,
    pub op: Op,
}
fn kinds(c: Call, thorough: bool) -> Vec<FaultKind> {
    use libc::*;
    use FaultKind::*;
    let mut v = match c {
        Call::Open => vec![Errno(EMFILE)],
        Call::Read => vec![Errno(EIO), Short],
        Call::Write => vec![Errno(EIO), Sticky(ENOSPC), Short],
        Call::Fsync => vec![Errno(EIO)],
        Call::Trunc => vec![Errno(EIO)],
        Call::Mkdir => vec![Errno(ENOSPC)],
        Call::Rmdir | Call::Unlink => vec![Errno(EIO)],
        Call::Rename | Call::Link => vec![Errno(EIO), Sticky(ENOSPC)],
        Call::Flock => vec![Errno(ENOLCK), Errno(EINTR)],
        Call::Stat => vec![Errno(EACCES)],
        Call::Dup => vec![Errno(EMFILE)],
        Call::Opendir => vec![Errno(EMFILE)],
        Call::Readdir => vec![Errno(EIO)],
        Call::Close => vec![],
    };
    if thorough {
        v.push(Errno(EINTR));
        v.push(Errno(ENAMETOOLONG));
        if c != Call::Close {
            v.push(Sticky(EIO));
        }
    }
    v
}
/// The operation without faults: its calls, and the model before and after.
struct Clean {
    calls: Vec<(Call, String)>,
    after: Model,
}
fn world(ses: &mut Session, case: &Case, dir: Scratch) -> Result<World, String> {
    let mut w = World::at(dir, case.f, &crash_scene(), SEE);
    w.observe_new = false;
    w.run(&case.setup)?;
    ses.calls = 0;
    Ok(w)
}
fn clean(case: &Case) -> Result<Clean, String> {
    let dir = Scratch::new();
    let mut ses = Session::new(dir.path());
    let _a = Attach::new(&mut *ses, 7);
    let mut w = world(&mut ses, case, dir)?;
    ses.trace = Some(vec![]);
    w.step(&case.op)?;
    Ok(Clean { calls: ses.trace.take().unwrap(), after: w.m.clone() })
}
/// Ok(true): the operation reported an error.
fn exec(case: &Case, cl: &Clean, faults: &[Fault], hit: &mut Vec<(Call, String)>) -> Result<bool, String> {
    let dir = Scratch::new();
    let mut ses = Session::new(dir.path());
    let _a = Attach::new(&mut *ses, 7);
    let mut w = world(&mut ses, case, dir).map_err(|x| format!("setup: {}", x))?;
    let before = w.m.clone();
    ses.faults = faults.to_vec();
    IO_ERR.with(|i| i.set(false));
    let r = w.step(&case.op);
    ses.faults.clear();
    if let Some(x) = ses.faulted.take() {
        hit.push(x);
    }
    let failed = match r {
        Ok(()) => false,
        Err(x) => {
            if x.contains("panic at") {
                return Err(x);
            }
            if !IO_ERR.with(|i| i.get()) {
                return Err(format!("wrong result under a fault: {}", x));
            }
            if hit.is_empty() {
                return Err(format!("error without a fault: {}", x));
            }
            true
        }
    };
    w.lenient = true;
    if failed {
        // labels: old or new
        let mut all: Vec<String> = before.labels.keys().chain(cl.after.labels.keys()).cloned().collect();
        all.sort();
        all.dedup();
        for g in all {
            let got = guard(|| match w.graph(&g)? {
                None => Ok(None),
                Some(x) => {
                    let (l, v) = x.head_version().map_err(|x| format!("head_version: {:?} {}", x.kind(), x))?;
                    Ok(Some((l.map(|l| l.name()), v)))
                }
            })
            .map_err(|x| format!("after the fault: graph {}: {}", g, x))?;
            let allowed = [before.labels.get(&g).cloned(), cl.after.labels.get(&g).cloned()];
            let hit = allowed.iter().find(|a| a.map(|(l, v)| (l.map(|l| w.names[l]), v)) == got);
            match hit {
                None => return Err(format!("after the fault: graph {} is {:?}, allowed {:?}", g, got.map(|(l, v)| (l.map(hexn), v)), allowed)),
                Some(None) => {
                    w.m.labels.remove(&g);
                }
                Some(Some(v)) => {
                    w.m.labels.insert(g.clone(), *v);
                }
            }
        }
    }
    let here = |x: String| format!("after the fault: {}", x);
    w.step(&Op::Obs).map_err(here)?;
    w.step(&Op::Listing).map_err(here)?;
    // again, without a fault
    if failed {
        w.step(&case.op).map_err(|x| format!("repeating: {}", x))?;
    }
    let mut post = vec![];
    let mut n = w.names.len();
    if n == 0 {
        post.push(Op::Base(m(1)));
        n = 1;
    }
    post.push(Op::Tog(n - 1, m(1)));
    for g in ["a", "zz"] {
        if !w.m.labels.contains_key(g) {
            post.push(Op::Create(g.into()));
        }
        post.push(Op::Force(g.into(), n - 1));
        post.push(Op::Set(g.into(), n));
    }
    post.push(Op::Roll(n));
    post.push(Op::Obs);
    post.push(Op::Del("zz".into()));
    post.push(Op::Listing);
    post.push(Op::Reopen(case.f));
    post.push(Op::Obs);
    post.push(Op::Listing);
    for o in post {
        w.step(&o).map_err(|x| format!("later: {}", x))?;
    }
    Ok(failed)
}
fn setup() -> Vec<Op> {
    vec![Op::Base(m(1)), Op::Create("a".into()), Op::Set("a".into(), 0), Op::Tog(0, m(3)), Op::Create("e".into())]
}
fn cases(f: Flavor, thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let labels_only = f == Flavor::DirCachedLabels;
    let mut add = |setup: Vec<Op>, op: Op| {
        let l = matches!(op, Op::Create(_) | Op::Set(..) | Op::Force(..) | Op::ForceV(..) | Op::Del(_) | Op::Listing | Op::Reopen(_));
        if !labels_only || l {
            v.push(Case { f, setup, op });
        }
    };
    let ops = vec![
        Op::Base(m(2)),
        Op::Tog(1, m(5)),
        Op::Create("b".into()),
        Op::Create("a".into()),
        Op::Set("a".into(), 1),
        Op::Set("e".into(), 1),
        Op::Force("a".into(), 1),
        Op::ForceV("a".into(), 1, 0),
        Op::Del("a".into()),
        Op::Del("nope".into()),
        Op::Roll(1),
        Op::RollTo(1, 0),
        Op::Squash(1),
        Op::SqTo(1, 0),
        Op::Merge(vec![0]),
        Op::Delta(Some(1), 0),
        Op::Diff(Some(0), 1),
        Op::Import(2),
        Op::Export,
        Op::Obs,
        Op::Listing,
        Op::Anc,
        Op::Reopen(f),
    ];
    for o in &ops {
        for variant in 0..3 {
            if f == Flavor::Arch(16) && !thorough && (variant == 0 || !matches!(o, Op::Tog(..) | Op::Roll(_) | Op::Obs | Op::Set(..) | Op::Import(_) | Op::Export)) {
                continue;
            }
            let mut s = setup();
            match variant {
                0 => {}
                // nothing cached
                1 => s.push(Op::Reopen(f)),
                // after a rollup, loaded anew
                _ => {
                    if labels_only || matches!(o, Op::Create(_) | Op::Del(_) | Op::Base(_) | Op::Force(..) | Op::ForceV(..) | Op::Merge(_) | Op::Import(_) | Op::Listing | Op::Anc) {
                        continue;
                    }
                    s.push(Op::Roll(1));
                    s.push(Op::Reopen(f));
                }
            }
            add(s, o.clone());
        }
    }
    // the first operations of a store
    add(vec![], Op::Base(m(1)));
    add(vec![], Op::Create("a".into()));
    add(vec![], Op::Listing);
    if thorough {
        // two operations, the second of which fails
        for a in &ops {
            if makes_layer(a) || matches!(a, Op::Roll(_) | Op::RollTo(..) | Op::Set(..) | Op::Del(_) | Op::Import(_)) {
                for b in &ops {
                    let mut s = setup();
                    s.push(a.clone());
                    if matches!((a, b), (Op::Import(_), Op::Import(_))) {
                        continue;
                    }
                    add(s.clone(), b.clone());
                }
            }
        }
    }
    v
}
pub fn c16(rep: &Report, fin: &(dyn Fn() -> i32 + Sync)) {
    with_watchdog(rep, 60, fin, || run(rep));
}
fn run(rep: &Report) {
    let th = rep.ctx.thorough;
    let mut cs = vec![];
    for f in [Flavor::Dir, Flavor::RawArch, Flavor::Arch(16), Flavor::DirCachedLabels] {
        cs.extend(cases(f, th));
    }
    let tasks: Mutex<Vec<(usize, Vec<Fault>)>> = Mutex::new(vec![]);
    let cleans: Mutex<Vec<Option<Clean>>> = Mutex::new((0..cs.len()).map(|_| None).collect());
    par(cs.len(), |i| match clean(&cs[i]) {
        Ok(c) => {
            let mut t = vec![];
            for (k, (call, _)) in c.calls.iter().enumerate() {
                for kind in kinds(*call, th) {
                    t.push((i, vec![Fault { at: k as u64, kind }]));
                }
            }
            tasks.lock().unwrap().extend(t);
            cleans.lock().unwrap()[i] = Some(c);
        }
        Err(x) => rep.violation(format!("clean run: {}", key_of(&x)), &x, replay_text(cs[i].f, &crash_scene(), &cs[i].setup)),
    });
    let cleans = cleans.into_inner().unwrap();
    let mut tasks = tasks.into_inner().unwrap();
    tasks.sort_by_key(|(i, f)| (*i, f[0].at));
    rep.count("operations", cs.len() as u64);
    rep.count("single_fault_placements", tasks.len() as u64);
    if th {
        // pairs: the second fault anywhere after the first, in the operations with few calls; close after it otherwise
        let mut pairs = vec![];
        for (i, c) in cleans.iter().enumerate() {
            let Some(c) = c else { continue };
            if cs[i].setup.len() > 7 {
                continue;
            }
            let n = c.calls.len() as u64;
            let reach = if n <= 60 { n + 10 } else { 6 };
            for k in 0..n {
                for j in k + 1..(k + 1 + reach) {
                    let e = |_| FaultKind::Errno(libc::EIO);
                    pairs.push((i, vec![Fault { at: k, kind: e(()) }, Fault { at: j, kind: e(()) }]));
                }
            }
        }
        rep.count("fault_pair_placements", pairs.len() as u64);
        tasks.extend(pairs);
    }
    par(tasks.len(), |k| {
        if rep.stopped() || rep.out_of_time("fault placements") {
            return;
        }
        let (i, faults) = &tasks[k];
        let case = &cs[*i];
        let cl = cleans[*i].as_ref().unwrap();
        let at = |f: &Fault| {
            let c = cl.calls.get(f.at as usize);
            format!("{:?} at call {} ({})", f.kind, f.at, c.map(|(c, p)| format!("{:?} {}", c, p)).unwrap_or_default())
        };
        let text = || format!("{:?} [{}] then [{}] with {}", case.f, fmt_ops(&case.setup), case.op, faults.iter().map(at).collect::<Vec<_>>().join(" and "));
        let _w = WATCH.enter(format!("{}", op_kind(&case.op)), text());
        rep.eval();
        rep.states.fetch_add(1, Ordering::Relaxed);
        rep.transitions.fetch_add(cl.calls.len() as u64, Ordering::Relaxed);
        rep.traces.fetch_add(1, Ordering::Relaxed);
        rep.distinct(&text());
        rep.sample(text);
        let mut hit = vec![];
        match exec(case, cl, faults, &mut hit) {
            Ok(true) => rep.count("reported_as_error", 1),
            Ok(false) => rep.count("completed_in_spite", 1),
            Err(x) => {
                let c = hit.first().map(|(c, _)| format!("{:?}", c)).unwrap_or_default();
                rep.violation(
                    format!("{}: {} {:?}: {}", op_kind(&case.op), c, faults[0].kind, key_of(&x)),
                    format!("{}: {}", text(), x),
                    format!("{}\nfaults: {}\ncalls:\n{}", text(), faults.iter().map(at).collect::<Vec<_>>().join("; "), cl.calls.iter().enumerate().map(|(n, (c, p))| format!("  {} {:?} {}", n, c, p)).collect::<Vec<_>>().join("\n")),
                );
            }
        }
    });
}
