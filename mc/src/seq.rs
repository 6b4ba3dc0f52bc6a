//! Exhaustive exploration of sequential histories (C01-C03, C05-C10, C12, C20-C22).
use crate::api::*;
use crate::model::*;
use crate::obs::*;
use crate::util::*;
use crate::world::*;
use std::sync::atomic::Ordering;

/// small sets of triples that collide in every dictionary and index the layers keep
pub fn scenes() -> Vec<(&'static str, Scene)> {
    vec![
        ("basic", scene("a p b, a p c, b p a")),
        ("collide", scene("a p b, a q b, a p \"b")),
        ("newvals", scene("b p a, a r #1, c q \"a")),
        ("prednode", scene("p p p, p q \"p, q p p")),
        ("types", scene("a p #1, a p %1, a p \"1")),
        ("types2", scene("a p ~1, a p !t, a p $1")),
        ("gaps", scene("a p z, z p a, m q \"m")),
        ("gaps4", scene("z z z, a p #9, m q m, a p z")),
        ("fan4", scene("a p a, a p b, a q a, b p a")),
        ("uni", scene("é p ü, \u{10348} p \"é, a ü \"")),
    ]
}

pub struct Conf {
    pub flavor: Flavor,
    pub name: String,
    pub scene: Scene,
    pub prefix: Vec<Op>,
    pub depth: usize,
    pub obs: Depth,
}
fn chain_text(conf: &Conf, path: &[u64]) -> String {
    let mut ops = conf.prefix.clone();
    let mut cur = if ops.is_empty() { None } else { Some(ops.iter().filter(|o| makes_layer(o)).count() - 1) };
    for mk in path {
        match cur {
            None => {
                ops.push(Op::Base(m(*mk)));
                cur = Some(0);
            }
            Some(c) => {
                ops.push(Op::Tog(c, m(*mk)));
                cur = Some(c + 1);
            }
        }
    }
    replay_text(conf.flavor, &conf.scene, &ops)
}
pub fn makes_layer(o: &Op) -> bool {
    if let Op::Alt(x) = o {
        return makes_layer(x);
    }
    matches!(
        o,
        Op::Base(_) | Op::Tog(..) | Op::Req(..) | Op::Squash(_) | Op::SqTo(..) | Op::Merge(_) | Op::Delta(..) | Op::Diff(..)
    )
}
pub fn scene_text(s: &Scene) -> String {
    s.text.clone()
}
pub fn replay_text(f: Flavor, sc: &Scene, ops: &[Op]) -> String {
    format!("engine=world\nflavor={:?}\nscene={}\nops={}", f, scene_text(sc), fmt_ops(ops))
}
/// classify a message so that one defect is reported once
pub fn key_of(msg: &str) -> String {
    let mut x = msg;
    if x.starts_with('[') {
        x = x.split_once("] ").map(|z| z.1).unwrap_or(x);
    }
    for cut in [": got", " was", " expected"] {
        x = x.split(cut).next().unwrap();
    }
    let mut k = String::new();
    let mut last = ' ';
    // layer names are random
    let mut y = String::new();
    let mut run = String::new();
    for c in x.chars().chain(std::iter::once(' ')) {
        if c.is_ascii_hexdigit() && !c.is_ascii_uppercase() {
            run.push(c);
            continue;
        }
        y.push_str(if run.len() == 40 { "LAYER" } else { &run });
        run.clear();
        y.push(c);
    }
    for c in y.trim().chars().take(110) {
        let c = if c.is_ascii_digit() { '0' } else if c == '"' || c == '\'' { '_' } else { c };
        if c == '0' && last == '0' {
            continue;
        }
        k.push(if c.is_whitespace() { '_' } else { c });
        last = c;
    }
    k
}

/// all histories: every net change over the scene at every layer, up to `depth` layers
pub fn tree(rep: &Report, confs: &[Conf]) {
    let mut jobs = vec![];
    for (ci, c) in confs.iter().enumerate() {
        for first in 0..(1u64 << c.scene.len()) {
            jobs.push((ci, first));
        }
    }
    par(jobs.len(), |j| {
        if rep.stopped() || rep.out_of_time("history tree") {
            return;
        }
        let (ci, first) = jobs[j];
        let conf = &confs[ci];
        let mut w = World::new(conf.flavor, &conf.scene, conf.obs);
        if let Err(x) = w.run(&conf.prefix) {
            rep.violation(key_of(&x), &x, w.trace_text());
            return;
        }
        let start = w.names.len().checked_sub(1);
        let mut path = vec![first];
        dfs(rep, conf, &mut w, start, &mut path);
        rep.states.fetch_add(w.names.len() as u64, Ordering::Relaxed);
        rep.transitions.fetch_add(w.transitions, Ordering::Relaxed);
        rep.evaluations.fetch_add(w.observations, Ordering::Relaxed);
    });
}
fn dfs(rep: &Report, conf: &Conf, w: &mut World, cur: Option<usize>, path: &mut Vec<u64>) {
    if rep.stopped() || w.dead {
        return;
    }
    let mk = *path.last().unwrap();
    let op = match cur {
        None => Op::Base(m(mk)),
        Some(c) => Op::Tog(c, m(mk)),
    };
    if let Err(x) = w.step(&op) {
        rep.violation(key_of(&x), format!("{} ({})", x, conf.name), chain_text(conf, path));
        w.dead = true;
        return;
    }
    rep.traces.fetch_add(1, Ordering::Relaxed);
    let me = w.names.len() - 1;
    let l = &w.m.layers[me];
    rep.distinct(&format!("{}|{:?}|{:?}|{:?}|{}", conf.name, l.triples, l.adds, l.rems, w.obs[me].objs.len()));
    if path.len() == 3 {
        rep.sample(|| chain_text(conf, path).replace('\n', " "));
    }
    if path.len() < conf.depth {
        for n in 0..(1u64 << conf.scene.len()) {
            path.push(n);
            dfs(rep, conf, w, Some(me), path);
            path.pop();
        }
    }
    if !w.dead {
        w.handles[me] = None;
    }
}

/// run complete histories, each in its own store
pub fn histories(rep: &Report, what: &str, items: &[(Flavor, Scene, Vec<Op>)], obs: Depth) {
    par(items.len(), |i| {
        if rep.stopped() || rep.out_of_time(what) {
            return;
        }
        let (f, sc, ops) = &items[i];
        // on disk every restricted delta query opens a dozen files: fewer of them there
        let few = obs.few || f.persistent() || (!rep.ctx.thorough && items.len() > 4000 && i % 4 != 0);
        run_one(rep, *f, sc, ops, Depth { few, ..obs });
    });
}
pub fn run_one(rep: &Report, f: Flavor, sc: &Scene, ops: &[Op], obs: Depth) {
    let mut w = World::new(f, sc, obs);
    if let Err(x) = w.run(ops) {
        rep.violation(key_of(&x), &x, replay_text(f, sc, &w.trace));
    }
    rep.distinct(&format!("{:?}|{}|{}", f, scene_text(sc), fmt_ops(ops)));
    rep.states.fetch_add(w.names.len() as u64, Ordering::Relaxed);
    rep.transitions.fetch_add(w.transitions, Ordering::Relaxed);
    rep.evaluations.fetch_add(w.observations.max(1), Ordering::Relaxed);
    rep.traces.fetch_add(1, Ordering::Relaxed);
    rep.sample(|| replay_text(f, sc, ops).replace('\n', " "));
}

/// sizes at which blocks, superblocks, widths and dictionary blocks change
pub fn sizes(big: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=20).collect();
    v.extend([31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258]);
    if big {
        v.extend(21..=70);
        v.extend([383, 384, 385, 510, 511, 512, 513, 514, 575, 576, 640, 1022, 1023, 1024, 1025, 1026, 2048, 2049, 4096, 4097]);
    } else {
        v.extend([511, 512, 513, 1025]);
    }
    v.sort();
    v.dedup();
    v
}
pub const GENS: &[&str] = &["star", "nats", "rays", "chain", "preds", "predp", "strs", "ints", "mix", "grid", "long"];

pub fn sweep_items(big: bool, flavors: &[Flavor]) -> Vec<(Flavor, Scene, Vec<Op>)> {
    let mut v = vec![];
    for f in flavors {
        for k in GENS {
            for n in sizes(big) {
                if (*k == "long" || *k == "preds" || *k == "predp") && n > 520 {
                    continue;
                }
                if *k == "ints" && n > 1100 || *k == "mix" && n > 2100 {
                    continue;
                }
                // base of n; child adds the next block and drops every third; child drops all but one
                let ops = vec![
                    Op::Base(g(k, 0, n)),
                    Op::Tog(0, [g(k, n, n + n / 2 + 1), gs(k, 0, n, 3)].concat()),
                    Op::Tog(1, [g(k, 0, n / 2), g("star", 0, 3)].concat()),
                ];
                v.push((*f, Scene::default(), ops));
            }
        }
    }
    // heavier ones first, for balance
    v.sort_by_key(|x| match &x.2[0] {
        Op::Base(s) => match &s[0] {
            Sel::Gen(_, _, n, _) => std::cmp::Reverse(*n),
            _ => std::cmp::Reverse(0),
        },
        _ => std::cmp::Reverse(0),
    });
    v
}
/// long stacks
pub fn long_chain(k: &str, n: usize, per: usize) -> Vec<Op> {
    let mut v = vec![Op::Base(g(k, 0, per))];
    for i in 1..n {
        v.push(Op::Tog(i - 1, [g(k, i * per, i * per + per), gs(k, 0, i * per, 5)].concat()));
    }
    v
}

pub fn c01_02_03(rep: &Report, obs: Depth, bulk: Depth) {
    let th = rep.ctx.thorough;
    let mut confs = vec![];
    for (n, sc) in scenes() {
        let d = match (sc.len(), th) {
            (3, false) => 4,
            (3, true) => 5,
            (_, false) => 3,
            (_, true) => 4,
        };
        confs.push(Conf { flavor: Flavor::Mem, name: n.to_string(), scene: sc.clone(), prefix: vec![], depth: d, obs });
        // the same changes on top of a populated base that holds half of the scene and nine more nodes
        confs.push(Conf {
            flavor: Flavor::Mem,
            name: format!("{}+base", n),
            scene: sc.clone(),
            prefix: vec![Op::Base([m(0b101), g("mix", 0, 9)].concat())],
            depth: if sc.len() == 3 { d - 2 + th as usize } else { d - 1 },
            obs,
        });
    }
    for f in [Flavor::Dir, Flavor::RawArch, Flavor::Arch(16)] {
        for (n, sc) in scenes().into_iter().take(if th { 20 } else { 3 }) {
            confs.push(Conf { flavor: f, name: format!("{}@{:?}", n, f), scene: sc, prefix: vec![], depth: 2, obs });
        }
    }
    if th {
        let sc = scene("a p b, a p c, b p a, a q b, a p \"b, c q #7");
        confs.push(Conf { flavor: Flavor::Mem, name: "six".into(), scene: sc.clone(), prefix: vec![], depth: 3, obs });
    }
    rep.note("tree_configurations", confs.len());
    tree(rep, &confs);
    rep.note("tree_s", format!("{:.1}", rep.start.elapsed().as_secs_f64()));
    let mut items = sweep_items(th, &[Flavor::Mem]);
    for k in ["mix", "strs", "predp", "grid"] {
        for n in if th { vec![5, 9, 17, 33, 65, 100] } else { vec![5, 17, 33] } {
            items.push((Flavor::Mem, Scene::default(), long_chain(k, n, 2)));
        }
    }
    if th {
        items.extend(sweep_items(false, &[Flavor::Dir, Flavor::RawArch]));
    }
    rep.note("sweep_histories", items.len());
    histories(rep, "size sweep", &items, bulk);
    rep.note("sweep_s", format!("{:.1}", rep.start.elapsed().as_secs_f64()));
    let items = other_kinds(th);
    rep.note("other_layer_kinds_histories", items.len());
    histories(rep, "rolled up, squashed and merged layers", &items, obs);
    rep.note("other_kinds_s", format!("{:.1}", rep.start.elapsed().as_secs_f64()));
    if rep.ctx.prop != "C02" {
        index_chunks(rep, bulk);
    }
}

/// The same for layers that are not simply committed: rolled up in each way, squashed, merged, and
/// for layers on top of those.
pub fn other_kinds(th: bool) -> Vec<(Flavor, Scene, Vec<Op>)> {
    let again = || vec![Op::DropHandles, Op::Obs];
    let tails: Vec<Vec<Op>> = vec![
        [vec![Op::Roll(2)], again(), vec![Op::Tog(2, m(7)), Op::Tog(3, m(5)), Op::Roll(4)], again()].concat(),
        [vec![Op::RollTo(2, 0)], again(), vec![Op::Tog(2, m(6)), Op::Imp(3, 0)], again()].concat(),
        [vec![Op::Roll(1)], again(), vec![Op::Imp(2, 0)], again()].concat(),
        [vec![Op::Squash(2), Op::SqTo(2, 0), Op::Merge(vec![3, 0]), Op::Tog(4, m(3)), Op::Tog(5, m(5)), Op::Roll(5), Op::Roll(4)], again()].concat(),
    ];
    let mut v = vec![];
    for (n, (_, sc)) in scenes().into_iter().enumerate() {
        let full = (1u64 << sc.len()) - 1;
        for f in [Flavor::Mem, Flavor::Dir, Flavor::Arch(16)] {
            if f.persistent() && (n > if th { 9 } else { 1 }) {
                continue;
            }
            for a in 0..=full {
                for b in 0..=full {
                    // quick: scenes of four triples and disks see one change of the third layer only
                    for c in if !th && (f.persistent() || full > 7) { vec![(a ^ b ^ 5) & full] } else { (0..=full).collect() } {
                        for (i, t) in tails.iter().enumerate() {
                            if f.persistent() && !th && (a + b) as usize % 4 != i {
                                continue;
                            }
                            let base = if i % 2 == 0 { m(a) } else { [m(a), g("mix", 0, 3)].concat() };
                            v.push((f, sc.clone(), [vec![Op::Base(base), Op::Tog(0, m(b)), Op::Tog(1, m(c))], t.clone()].concat()));
                        }
                    }
                }
            }
        }
    }
    v
}
/// The index by object is sorted in pieces when a layer is large; here the pieces are small.
pub fn index_chunks(rep: &Report, bulk: Depth) {
    let th = rep.ctx.thorough;
    let limit = &terminus_store::mc_sync::SINGLE_SORT_LIMIT;
    let usual = limit.load(Ordering::SeqCst);
    for l in if th { vec![1, 2, 3, 4, 7, 16, 33, 64, 100] } else { vec![1, 2, 3, 16] } {
        limit.store(l, Ordering::SeqCst);
        let mut items = vec![];
        for k in GENS {
            for n in (0..=if th { 20 } else { 9 }).chain([16, 17, 32, 33, 34, 64, 65]).chain(if th { vec![99, 100, 101, 128, 129, 257] } else { vec![] }) {
                if matches!(*k, "preds" | "predp" | "long") && n > 70 {
                    continue;
                }
                let ops = vec![
                    Op::Base(g(k, 0, n)),
                    Op::Tog(0, [g(k, n, n + n / 2 + 1), gs(k, 0, n, 3)].concat()),
                    Op::Tog(1, [g(k, 0, n / 2), g("star", 0, 3)].concat()),
                    Op::Squash(2),
                    Op::Base(gs(k, 0, n, 2)),
                    Op::Merge(vec![0, 4]),
                    Op::RollTo(2, 0),
                    Op::DropHandles,
                    Op::Obs,
                    Op::Roll(2),
                    Op::DropHandles,
                    Op::Obs,
                ];
                items.push((Flavor::Mem, Scene::default(), ops));
            }
        }
        for k in 0..32u64 {
            let sc = scene("a p b, b p a, a q b, b q b, c p b");
            items.push((Flavor::Mem, sc, vec![Op::Base(m(k)), Op::Tog(0, m(31)), Op::Tog(1, m(k / 2)), Op::Squash(2), Op::RollTo(2, 0), Op::DropHandles, Op::Obs]));
        }
        rep.note("index_piece_histories", items.len());
        histories(rep, "index pieces", &items, bulk);
    }
    limit.store(usual, Ordering::SeqCst);
}
