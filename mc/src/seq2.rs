//! History checks beyond the plain commit tree.
use crate::api::*;
use crate::model::*;
use crate::obs::*;
use crate::seq::*;
use crate::util::*;
use crate::world::*;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;

type Item = (Flavor, Scene, Vec<Op>);

/// every chain of n layers over the scene
pub fn chains(sc: &Scene, n: usize) -> Vec<Vec<Op>> {
    let k = 1u64 << sc.len();
    let total = k.pow(n as u32);
    (0..total)
        .map(|mut x| {
            let mut v = vec![];
            for i in 0..n {
                let mk = x % k;
                x /= k;
                v.push(if i == 0 { Op::Base(m(mk)) } else { Op::Tog(i - 1, m(mk)) });
            }
            v
        })
        .collect()
}
/// a spread of chains: every k-th
pub fn chains_every(sc: &Scene, n: usize, want: usize) -> Vec<Vec<Op>> {
    let c = chains(sc, n);
    let step = (c.len() / want).max(1) | 1;
    (0..want.min(c.len())).map(|i| c[(i * step + i / 3) % c.len()].clone()).collect()
}
pub fn rollups(n: usize) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..n {
        v.push(Op::Roll(i));
        for j in 0..i {
            v.push(Op::RollTo(i, j));
            v.push(Op::Imp(i, j));
        }
    }
    v
}
pub fn seqs<T: Clone>(al: &[T], len: usize) -> Vec<Vec<T>> {
    let mut v: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..len {
        v = v.into_iter().flat_map(|p| al.iter().map(move |a| [p.clone(), vec![a.clone()]].concat())).collect();
    }
    v
}

// ---------------------------------------------------------------- C05
pub fn c05(rep: &Report) {
    let th = rep.ctx.thorough;
    let obs = FULL;
    let mut items: Vec<Item> = vec![];
    let tail = |n: usize, mk: u64| {
        vec![Op::Obs, Op::Tog(n - 1, m(mk)), Op::DropHandles, Op::Obs, Op::Tog(n, m(mk ^ 1)), Op::Tog(n - 2, m(2)), Op::Obs]
    };
    let scs: Vec<Scene> = vec![
        scene("a p b, b q a"),
        scene("a p \"b, c q b"),
        scene("a p b, a p c, b p a"),
        scene("p p p, p q \"p, q p p"),
        scene("c q c, a p #1, b p a"),
    ];
    for (i, sc) in scs[..2].iter().enumerate() {
        let n = 4;
        for c in chains_every(sc, n, if th || i == 0 { 256 } else { 64 }) {
            for r in rollups(n) {
                items.push((Flavor::Mem, sc.clone(), [c.clone(), vec![r], tail(n, 3)].concat()));
            }
        }
        let cs = chains_every(sc, n, if th { 256 } else { 5 });
        for c in cs {
            for r in seqs(&rollups(n), 2) {
                items.push((Flavor::Mem, sc.clone(), [c.clone(), r, tail(n, 3)].concat()));
            }
        }
    }
    for sc in &scs[2..] {
        let n = 3;
        for c in chains_every(sc, n, if th { 512 } else { 100 }) {
            for r in rollups(n) {
                items.push((Flavor::Mem, sc.clone(), [c.clone(), vec![r], tail(n, 5)].concat()));
            }
        }
    }
    // new names in every layer, five layers: three rollups one after another, with layers committed in between
    let spread = vec![
        Op::Base([m(1), g("mix", 0, 3)].concat()),
        Op::Tog(0, [m(3), g("mix", 3, 6)].concat()),
        Op::Tog(1, [m(6), g("mix", 5, 9)].concat()),
        Op::Tog(2, [m(5), g("mix", 2, 4), g("strs", 0, 2)].concat()),
        Op::Tog(3, [m(2), g("preds", 0, 3), g("mix", 0, 2)].concat()),
    ];
    for r in seqs(&rollups(5), 2) {
        items.push((Flavor::Mem, scs[2].clone(), [spread.clone(), r.clone(), tail(5, 3)].concat()));
        // handles dropped between the rollups, and the second one after another commit
        let mut v = spread.clone();
        v.push(r[0].clone());
        v.push(Op::DropHandles);
        v.push(Op::Tog(4, m(7)));
        v.push(r[1].clone());
        v.push(Op::RollTo(5, 1));
        v.push(Op::Imp(5, 0));
        v.push(Op::Obs);
        v.push(Op::DropHandles);
        v.push(Op::Obs);
        items.push((Flavor::Mem, scs[2].clone(), v));
    }
    if th {
        for c in chains_every(&scs[0], 4, 8).into_iter().chain([spread.clone()]) {
            for r in seqs(&rollups(4), 3) {
                items.push((Flavor::Mem, scs[2].clone(), [c.clone(), r, vec![Op::Obs, Op::DropHandles, Op::Obs]].concat()));
            }
        }
    }
    for f in [Flavor::Dir, Flavor::RawArch, Flavor::Arch(16), Flavor::SyncMem, Flavor::SyncDir, Flavor::SyncArch(16)] {
        for r in rollups(5) {
            items.push((f, scs[2].clone(), [spread.clone(), vec![r.clone()], tail(5, 3)].concat()));
            items.push((f, scs[2].clone(), [spread.clone(), vec![Op::Alt(Box::new(r))], tail(5, 3)].concat()));
        }
        if th {
            for r in seqs(&rollups(5), 2) {
                items.push((f, scs[2].clone(), [spread.clone(), r, tail(5, 3)].concat()));
            }
        }
    }
    rep.note("small_histories", items.len());
    histories(rep, "rollup histories", &items, obs);
    // sizes
    let mut items: Vec<Item> = vec![];
    for k in GENS {
        for n in if th { vec![3, 7, 8, 9, 16, 17, 33, 63, 64, 65, 129, 257, 513] } else { vec![8, 9, 33, 65, 257] } {
            if matches!(*k, "preds" | "predp" | "long") && n > 130 {
                continue;
            }
            let c = vec![
                Op::Base(g(k, 0, n)),
                Op::Tog(0, [g(k, n, 2 * n), gs(k, 0, n, 3)].concat()),
                Op::Tog(1, [g("mix", 0, 9), gs(k, 1, n, 2)].concat()),
                Op::Tog(2, g(k, 0, n / 2 + 1)),
            ];
            for r in [Op::Roll(3), Op::RollTo(3, 0), Op::RollTo(3, 1), Op::Imp(3, 0), Op::Roll(2)] {
                items.push((Flavor::Mem, Scene::default(), [c.clone(), vec![r, Op::DropHandles, Op::Obs]].concat()));
            }
        }
    }
    rep.note("size_histories", items.len());
    histories(rep, "rollup sizes", &items, BULK);
}

// ---------------------------------------------------------------- C06
pub fn c06(rep: &Report) {
    let th = rep.ctx.thorough;
    let mut items: Vec<Item> = vec![];
    let all = |n: usize| {
        let mut v = vec![];
        for i in 0..n {
            v.push(Op::Squash(i));
            for j in 0..i {
                v.push(Op::SqTo(i, j));
            }
        }
        let made = v.len();
        // go on from each of them
        for i in 0..made {
            v.push(Op::Tog(n + i, m(3)));
        }
        v.push(Op::Obs);
        v.push(Op::DropHandles);
        v.push(Op::Obs);
        v
    };
    for (_, sc) in scenes() {
        let n = 3;
        let cs = chains_every(&sc, n, if th { 4096 } else { 150 });
        for c in cs {
            items.push((Flavor::Mem, sc.clone(), [c, all(n)].concat()));
        }
        for c in chains_every(&sc, n, if th { 200 } else { 12 }) {
            for r in rollups(n) {
                items.push((Flavor::Mem, sc.clone(), [c.clone(), vec![r, Op::DropHandles], all(n)].concat()));
            }
        }
    }
    for c in chains_every(&scene("a p b, b q \"a, c p a"), 5, if th { 3000 } else { 150 }) {
        items.push((Flavor::Mem, scene("a p b, b q \"a, c p a"), [c, all(5)].concat()));
    }
    let sc = scene("a p b, a p c, b p a");
    for f in [Flavor::Dir, Flavor::RawArch, Flavor::Arch(16), Flavor::SyncMem, Flavor::SyncDir] {
        for c in chains_every(&sc, 3, if th { 100 } else { 10 }) {
            items.push((f, sc.clone(), [c, all(3)].concat()));
        }
    }
    rep.note("small_histories", items.len());
    histories(rep, "squash histories", &items, FULL);
    let mut items: Vec<Item> = vec![];
    for k in GENS {
        for n in if th { sizes(false) } else { vec![1, 7, 8, 9, 17, 33, 64, 65, 129, 257] } {
            if matches!(*k, "preds" | "predp" | "long") && n > 130 {
                continue;
            }
            let c = vec![
                Op::Base(g(k, 0, n)),
                Op::Tog(0, [g(k, n, 2 * n), gs(k, 0, n, 3)].concat()),
                Op::Tog(1, [g("mix", 0, 9), gs(k, 1, n, 2)].concat()),
                Op::Tog(2, [gs(k, 0, n, 3), g("strs", 0, 3)].concat()),
                Op::Squash(3),
                Op::SqTo(3, 0),
                Op::SqTo(3, 1),
                Op::SqTo(3, 2),
                Op::Tog(4, g(k, n / 2, n + 2)),
                Op::Tog(5, g(k, n / 2, n + 2)),
                Op::RollTo(3, 0),
                Op::SqTo(3, 1),
                Op::Squash(3),
                Op::Obs,
            ];
            items.push((Flavor::Mem, Scene::default(), c));
        }
    }
    rep.note("size_histories", items.len());
    histories(rep, "squash sizes", &items, BULK);
}

// ---------------------------------------------------------------- C07
pub fn c07(rep: &Report) {
    let th = rep.ctx.thorough;
    let mut items: Vec<Item> = vec![];
    let scs = [
        scene("a p b, a p c, b p a"),
        scene("a p b, a q b, a p \"b"),
        scene("b p a, a r #1, c q \"a"),
        scene("p p p, p q \"p, q p p"),
        scene("a p #1, a p %1, a p \"1"),
        scene("z z z, a p #9, m q m"),
    ];
    for sc in &scs {
        let k = 1usize << sc.len();
        // all ordered pairs and triples of base layers with all contents, each result also reversed
        for x in 0..k {
            let mut v: Vec<Op> = (0..k).map(|i| Op::Base(m(i as u64))).collect();
            v.push(Op::Merge(vec![x]));
            for y in 0..k {
                v.push(Op::Merge(vec![x, y]));
                for z in 0..k {
                    v.push(Op::Merge(vec![x, y, z]));
                }
            }
            // merge the merged, and go on from a merged layer
            v.push(Op::Merge(vec![k, k + 1, 0]));
            v.push(Op::Tog(k + 2, m(5)));
            v.push(Op::Obs);
            items.push((Flavor::Mem, sc.clone(), v));
        }
    }
    // inputs that are squashes of stacks, rolled up, or merged before
    for sc in &scs {
        let k = 1u64 << sc.len();
        for x in 0..k {
            for y in 0..k {
                for z in if th { 0..k } else { y..y + 1 } {
                    let mut v = vec![
                        Op::Base([m(x), g("mix", 0, (x % 3) as usize)].concat()),
                        Op::Tog(0, m(y)),
                        Op::Tog(1, [m(z), g("strs", 0, (y % 2) as usize)].concat()),
                        Op::Squash(2),
                        Op::Squash(1),
                        Op::Base(m(k - 1 - x)),
                        Op::Roll(5),
                        Op::Roll(3),
                        Op::Merge(vec![3, 5]),
                        Op::Merge(vec![0, 3]),
                        Op::Merge(vec![4, 3, 0]),
                        Op::Merge(vec![6, 4]),
                    ];
                    v.push(Op::Tog(7, m(y ^ 3)));
                    v.push(Op::Squash(10));
                    v.push(Op::Merge(vec![11, 8, 5]));
                    v.push(Op::Obs);
                    items.push((Flavor::Mem, sc.clone(), v));
                }
            }
        }
    }
    rep.note("small_histories", items.len());
    histories(rep, "merge histories", &items, FULL);
    let mut items: Vec<Item> = vec![];
    let ns = if th { vec![1, 2, 7, 8, 9, 16, 17, 31, 33, 63, 64, 65, 127, 129, 255, 257, 511, 513, 1025] } else { vec![1, 7, 8, 9, 17, 33, 64, 65, 129, 257] };
    for k in GENS {
        for &n in &ns {
            if matches!(*k, "preds" | "predp" | "long") && n > 260 {
                continue;
            }
            for parts in [2usize, 3, 5] {
                // interleaved, overlapping parts
                let mut v: Vec<Op> = (0..parts).map(|i| Op::Base([gs(k, i, n, parts), g(k, 0, n / 4)].concat())).collect();
                v.push(Op::Base(vec![]));
                v.push(Op::Base(g("mix", 0, 5)));
                let mut l: Vec<usize> = (0..parts + 2).collect();
                v.push(Op::Merge(l.clone()));
                l.reverse();
                v.push(Op::Merge(l.clone()));
                l.rotate_left(1);
                l.push(0);
                v.push(Op::Merge(l));
                v.push(Op::Tog(parts + 2, g(k, n / 2, n + 3)));
                v.push(Op::Obs);
                items.push((Flavor::Mem, Scene::default(), v));
            }
        }
    }
    for f in [Flavor::Dir, Flavor::RawArch, Flavor::Arch(16), Flavor::SyncMem, Flavor::SyncDir, Flavor::SyncRaw] {
        for k in ["mix", "grid", "strs"] {
            let mut v: Vec<Op> = (0..9).map(|i| Op::Base([gs(k, i, 40, 9), g(k, 0, 4)].concat())).collect();
            v.push(Op::Merge((0..9).collect()));
            v.push(Op::Merge((0..9).rev().collect()));
            v.push(Op::Obs);
            v.push(Op::DropHandles);
            v.push(Op::Obs);
            items.push((f, Scene::default(), v));
        }
    }
    for parts in [10usize, 20, 33] {
        let mut v: Vec<Op> = (0..parts).map(|i| Op::Base(gs("mix", i, 100, parts))).collect();
        v.push(Op::Merge((0..parts).collect()));
        items.push((Flavor::Mem, Scene::default(), v));
    }
    rep.note("size_histories", items.len());
    histories(rep, "merge sizes", &items, BULK);
    merge_order(rep);
}
/// the merged layer does not depend on the order of its inputs
fn merge_order(rep: &Report) {
    let sc = scene("a p b, b q \"a, c p #1, a q c");
    par(16, |j| {
        let mut w = World::new(Flavor::Mem, &sc, FULL);
        let masks = [j as u64, (j as u64 * 7 + 3) % 16, (j as u64 * 5 + 9) % 16];
        let r = guard(|| {
            for mk in masks {
                w.step(&Op::Base(m(mk)))?;
            }
            let mut seen: Option<Obs> = None;
            for p in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
                w.step(&Op::Merge(p.to_vec()))?;
                let o = w.obs.last().unwrap().clone();
                if let Some(s) = &seen {
                    if s.objs != o.objs || s.preds != o.preds || s.triples != o.triples {
                        return Err(format!("merging in order {:?} gives another layer", p));
                    }
                }
                seen = Some(o);
            }
            Ok(())
        });
        rep.eval();
        rep.traces.fetch_add(1, Ordering::Relaxed);
        if let Err(x) = r {
            rep.violation(key_of(&x), &x, replay_text(w.f, &sc, &w.trace));
        }
    });
}

// ---------------------------------------------------------------- C09
pub fn c09(rep: &Report) {
    let th = rep.ctx.thorough;
    let mut items: Vec<Item> = vec![];
    let all = |bases: &[Option<usize>], ls: &[usize]| {
        let mut v = vec![];
        for b in bases {
            for l in ls {
                v.push(Op::Delta(*b, *l));
                v.push(Op::Diff(*b, *l));
            }
        }
        v
    };
    let scs: Vec<Scene> = scenes().into_iter().map(|x| x.1).filter(|s| s.len() == 3).collect();
    for (i, sc) in scs.iter().enumerate() {
        if !th && i > 4 {
            break;
        }
        // 0 <- 1, and an unrelated 2
        let k = 8u64;
        for a in 0..k {
            for b in 0..k {
                for c in 0..k {
                    let mut v = vec![Op::Base(m(a)), Op::Tog(0, m(b)), Op::Base(m(c))];
                    v.extend(all(&[None, Some(0), Some(1), Some(2)], &[0, 1, 2]));
                    items.push((Flavor::Mem, sc.clone(), v));
                }
            }
        }
    }
    let sc = scene("a p b, a p \"c, b q a");
    for c in chains_every(&sc, 4, if th { 800 } else { 40 }) {
        for r in rollups(4) {
            let mut v = c.clone();
            v.push(r);
            v.push(Op::DropHandles);
            v.extend(all(&[Some(0), Some(2), Some(3)], &[0, 1, 2, 3]));
            items.push((Flavor::Mem, sc.clone(), v));
        }
    }
    for f in [Flavor::Dir, Flavor::RawArch, Flavor::Arch(16), Flavor::SyncMem, Flavor::SyncDir] {
        for c in chains_every(&sc, 3, if th { 60 } else { 6 }) {
            for r in [Op::Roll(2), Op::RollTo(2, 0), Op::Listing] {
                let mut v = c.clone();
                v.push(r);
                v.push(Op::DropHandles);
                v.extend(all(&[None, Some(1), Some(2)], &[0, 1, 2]));
                v.push(Op::Obs);
                items.push((f, sc.clone(), v));
            }
        }
    }
    rep.note("small_histories", items.len());
    histories(rep, "delta histories", &items, FULL);
    let mut items: Vec<Item> = vec![];
    for k in GENS {
        for n in if th { vec![9, 65, 129, 257, 513, 1025] } else { vec![9, 65, 257] } {
            if matches!(*k, "preds" | "predp" | "long") && n > 260 {
                continue;
            }
            let mut v = vec![
                Op::Base(g(k, 0, n)),
                Op::Tog(0, [g(k, n, 2 * n), gs(k, 0, n, 3)].concat()),
                Op::Base([gs(k, 0, 2 * n, 2), g("mix", 0, 9)].concat()),
            ];
            v.extend(all(&[None, Some(0), Some(1), Some(2)], &[0, 1, 2]));
            items.push((Flavor::Mem, Scene::default(), v));
        }
    }
    histories(rep, "delta sizes", &items, BULK);
}

// ---------------------------------------------------------------- C22
pub fn trees(n: usize) -> Vec<Vec<Option<usize>>> {
    let mut v: Vec<Vec<Option<usize>>> = vec![vec![]];
    for i in 0..n {
        v = v
            .into_iter()
            .flat_map(|p| (0..=i).map(move |x| [p.clone(), vec![if x == i { None } else { Some(x) }]].concat()))
            .collect();
    }
    v
}
pub fn tree_ops(t: &[Option<usize>], k: usize) -> Vec<Op> {
    t.iter()
        .enumerate()
        .map(|(i, p)| match p {
            None => Op::Base(m(1 << (i % k))),
            Some(p) => Op::Tog(*p, m((1 << (i % k)) | (i as u64 & 1))),
        })
        .collect()
}
pub fn c22(rep: &Report) {
    let th = rep.ctx.thorough;
    let d = Depth { cube: true, queries: false, deltas: false, ids: false, stack: true, few: false };
    let sc = scene("a p b, b p c, c q \"a, a p #1");
    let mut items: Vec<Item> = vec![];
    let n = if th { 7 } else { 6 };
    for t in trees(n) {
        items.push((Flavor::Mem, sc.clone(), [tree_ops(&t, 4), vec![Op::Anc, Op::DropHandles, Op::Anc]].concat()));
    }
    // every tree of five with every rollup or squash of a pair
    for t in trees(5) {
        let anc = |mut i: usize| {
            let mut v = vec![];
            while let Some(p) = t[i] {
                v.push(p);
                i = p;
            }
            v
        };
        for i in 0..5 {
            let mut ops = vec![Op::Roll(i), Op::Squash(i)];
            for j in anc(i) {
                ops.extend([Op::RollTo(i, j), Op::Imp(i, j), Op::SqTo(i, j)]);
            }
            for o in ops {
                items.push((Flavor::Mem, sc.clone(), [tree_ops(&t, 4), vec![o, Op::Anc, Op::DropHandles, Op::Anc]].concat()));
            }
        }
    }
    let fl = [Flavor::Dir, Flavor::RawArch, Flavor::Arch(16), Flavor::SyncDir, Flavor::SyncMem];
    for f in fl {
        for t in trees(4) {
            let mut v = tree_ops(&t, 4);
            v.push(Op::Anc);
            let mut i = 3;
            let mut up = vec![];
            while let Some(p) = t[i] {
                up.push(p);
                i = p;
            }
            if let Some(u) = up.last() {
                v.extend([Op::RollTo(3, *u), Op::Anc, Op::SqTo(3, *u), Op::Anc]);
            }
            v.extend([Op::Roll(3), Op::Anc, Op::Reopen(f), Op::Anc]);
            let roots: Vec<usize> = (0..4).filter(|i| t[*i].is_none()).collect();
            v.extend([Op::Merge(roots), Op::Anc]);
            items.push((f, sc.clone(), v));
        }
    }
    // long stacks, and a rollup in their middle
    for n in [20usize, 70] {
        let mut v = long_chain("mix", n, 1);
        v.extend([Op::Anc, Op::RollTo(n / 2, 3), Op::Roll(n / 3), Op::DropHandles, Op::Anc]);
        items.push((Flavor::Mem, Scene::default(), v));
    }
    rep.note("histories", items.len());
    histories(rep, "ancestry", &items, d);
    pack_parents(rep, &sc, d);
}

/// what a pack says about the parents of the layers in it
fn told_parents(w: &World, pack: &[u8], held: &[usize]) -> Result<(), String> {
    let told = terminus_store::storage::pack_layer_parents(std::io::Cursor::new(pack)).map_err(|e| format!("reading the parents of a pack failed: {}", e))?;
    let want: std::collections::HashMap<Name, Option<Name>> = held.iter().map(|i| (w.names[*i], w.m.layers[*i].parent.map(|p| w.names[p]))).collect();
    if told != want {
        return Err(format!(
            "the parents read from a pack are wrong: {} of {} layers told, e.g. {:?}",
            told.len(),
            want.len(),
            want.iter().find(|(k, v)| told.get(*k) != Some(v))
        ));
    }
    Ok(())
}
/// every tree, every subset of its layers exported in every order (orders: all for three, else two)
fn pack_parents(rep: &Report, sc: &Scene, d: Depth) {
    let th = rep.ctx.thorough;
    let mut jobs: Vec<(Flavor, Vec<Option<usize>>, bool)> = vec![];
    for t in trees(if th { 6 } else { 5 }) {
        jobs.push((Flavor::Mem, t.clone(), false));
        jobs.push((Flavor::Mem, t, true));
    }
    for f in [Flavor::Dir, Flavor::RawArch, Flavor::Arch(16), Flavor::SyncMem] {
        for t in trees(3) {
            jobs.push((f, t.clone(), false));
            jobs.push((f, t, true));
        }
    }
    par(jobs.len(), |j| {
        if rep.stopped() || rep.out_of_time("parents in packs") {
            return;
        }
        let (f, t, roll) = &jobs[j];
        let n = t.len();
        let mut w = World::new(*f, sc, d);
        let mut last = String::new();
        let r = guard(|| {
            w.run(&tree_ops(t, 4))?;
            if *roll {
                for (i, p) in t.iter().enumerate() {
                    if let Some(p) = p {
                        w.step(&if i % 2 == 0 { Op::Roll(i) } else { Op::RollTo(i, *p) })?;
                    }
                }
            }
            for ex in 1..1u32 << n {
                let held: Vec<usize> = (0..n).filter(|i| ex >> i & 1 == 1).collect();
                let mut rev = held.clone();
                rev.reverse();
                let orders = if held.len() <= 3 { perms(&held) } else { vec![held.clone(), rev] };
                for o in orders {
                    last = format!("export {:?}", o);
                    let names: Vec<Name> = o.iter().map(|i| w.names[*i]).collect();
                    let pack = w.store.export(&names).map_err(|e| format!("export failed: {}", e))?;
                    told_parents(&w, &pack, &held)?;
                    rep.eval();
                }
            }
            Ok(())
        });
        if let Err(x) = r {
            rep.violation(key_of(&x), format!("{} ({})", x, last), format!("{}\n{}", last, replay_text(*f, sc, &w.trace)));
        }
        rep.traces.fetch_add(1, Ordering::Relaxed);
        rep.distinct(&format!("parents {:?} {:?} {}", f, t, roll));
    });
}
fn perms(v: &[usize]) -> Vec<Vec<usize>> {
    if v.len() <= 1 {
        return vec![v.to_vec()];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut p in perms(&rest) {
            p.insert(0, x);
            out.push(p);
        }
    }
    out
}

// ---------------------------------------------------------------- C20
pub fn c20(rep: &Report) {
    let th = rep.ctx.thorough;
    let sc = scene("a p b, b q \"a, c p #1");
    let prep = vec![
        Op::Base([m(1), g("mix", 0, 3)].concat()),
        Op::Tog(0, m(3)),
        Op::Tog(1, m(6)),
        Op::Base(m(5)),
        Op::Create("g".into()),
        Op::Set("g".into(), 0),
    ];
    let alpha: Vec<Op> = vec![
        Op::Tog(2, m(7)),
        Op::Tog(1, m(4)),
        Op::Roll(2),
        Op::Roll(1),
        Op::RollTo(2, 0),
        Op::Imp(2, 0),
        Op::Alt(Box::new(Op::Roll(2))),
        Op::Alt(Box::new(Op::RollTo(2, 0))),
        Op::Alt(Box::new(Op::Tog(2, m(1)))),
        Op::Squash(2),
        Op::SqTo(2, 0),
        Op::Merge(vec![0, 3]),
        Op::Delta(Some(3), 2),
        Op::Diff(Some(2), 3),
        Op::Set("g".into(), 2),
        Op::Force("g".into(), 3),
        Op::Del("g".into()),
        Op::Abandon(Some(2), m(7)),
        Op::Obs,
    ];
    let mut items: Vec<Item> = vec![];
    for s in seqs(&alpha, if th { 3 } else { 2 }) {
        items.push((Flavor::Mem, sc.clone(), [prep.clone(), s, vec![Op::Obs]].concat()));
    }
    for f in [Flavor::Dir, Flavor::RawArch, Flavor::Arch(16), Flavor::Arch(0), Flavor::SyncArch(16), Flavor::MemUncached, Flavor::DirUncached] {
        for s in seqs(&alpha, if th { 2 } else { 1 }) {
            items.push((f, sc.clone(), [prep.clone(), s.clone(), vec![Op::Obs]].concat()));
            items.push((f, sc.clone(), [prep.clone(), s, vec![Op::Obs, Op::Roll(2), Op::Obs]].concat()));
        }
    }
    rep.note("histories", items.len());
    histories(rep, "snapshots", &items, FULL);
}

// ---------------------------------------------------------------- C12 (sequential part)
pub fn c12_seq(rep: &Report) {
    let th = rep.ctx.thorough;
    let d = Depth { cube: true, queries: false, deltas: false, ids: false, stack: false, few: false };
    let sc = scene("a p b, b q a, c p c");
    // 0 <- 1 <- 2, 1 <- 3, and a foreign root 4
    let prep = vec![
        Op::Base(m(1)),
        Op::Tog(0, m(2)),
        Op::Tog(1, m(4)),
        Op::Tog(1, m(1)),
        Op::Base(m(2)),
        Op::Create("g".into()),
        Op::Create("h".into()),
        Op::Set("h".into(), 0),
    ];
    let g_ = || "g".to_string();
    let mut alpha: Vec<Op> = vec![];
    for l in 0..5 {
        alpha.push(Op::Set(g_(), l));
        alpha.push(Op::Force(g_(), l));
        for dv in [-1, 0, 1] {
            alpha.push(Op::ForceV(g_(), l, dv));
        }
    }
    alpha.push(Op::Del(g_()));
    alpha.push(Op::Create(g_()));
    let mut items: Vec<Item> = vec![];
    let tail = vec![Op::Listing];
    for s in seqs(&alpha, 2).into_iter().chain(seqs(&alpha, 3)) {
        items.push((Flavor::Mem, sc.clone(), [prep.clone(), s, tail.clone()].concat()));
    }
    let small: Vec<Op> = alpha.iter().filter(|o| !matches!(o, Op::ForceV(_, l, _) if *l != 2)).cloned().collect();
    for f in ALL_FLAVORS.iter().copied().filter(|f| *f != Flavor::Mem) {
        for s in seqs(&small, if th { 3 } else { 2 }) {
            items.push((f, sc.clone(), [prep.clone(), s, tail.clone()].concat()));
        }
    }
    // a rolled up layer is still the same layer for the ancestry rule
    for r in rollups(4).into_iter().filter(|r| matches!(r, Op::Roll(3) | Op::Roll(2) | Op::RollTo(2, _) | Op::Imp(2, _))) {
        for s in seqs(&small, 2) {
            items.push((Flavor::Mem, sc.clone(), [prep.clone(), vec![r.clone(), Op::DropHandles], s, tail.clone()].concat()));
        }
    }
    rep.note("sequential_histories", items.len());
    histories(rep, "head rules", &items, d);
}

// ---------------------------------------------------------------- C21
pub const LABELS: &[&str] = &["main", "a.b", "foo.label", "x-y_z", "MAIN", "ünï", "a%20b", "0123456789012345678901234567890123456789", "label", "x.hex"];
pub fn c21(rep: &Report) {
    let th = rep.ctx.thorough;
    let d = Depth { cube: true, queries: false, deltas: false, ids: false, stack: false, few: false };
    let sc = scene("a p b, b q a");
    let mut items: Vec<Item> = vec![];
    let fl = [Flavor::Mem, Flavor::Dir, Flavor::RawArch, Flavor::Arch(16), Flavor::DirCachedLabels, Flavor::SyncMem, Flavor::SyncDir];
    for f in fl {
        for (i, a) in LABELS.iter().enumerate() {
            let b = LABELS[(i + 1) % LABELS.len()];
            let mut alpha: Vec<Op> = vec![];
            for x in [*a, b] {
                alpha.extend([Op::Create(x.into()), Op::Del(x.into()), Op::Force(x.into(), 1), Op::Set(x.into(), 0)]);
            }
            alpha.push(Op::Tog(1, m(1)));
            alpha.push(Op::Abandon(Some(0), m(1)));
            let full = th || matches!(f, Flavor::Mem) || i < 4 && matches!(f, Flavor::Dir | Flavor::DirCachedLabels);
            let ss = if full { seqs(&alpha, 3) } else { seqs(&alpha, 2) };
            for s in ss {
                let mut v = vec![Op::Base(m(1)), Op::Tog(0, m(2)), Op::Create((*a).into()), Op::Listing];
                for o in s {
                    v.push(o);
                    v.push(Op::Listing);
                }
                if f.persistent() {
                    v.push(Op::Reopen(f));
                    v.push(Op::Listing);
                }
                items.push((f, sc.clone(), v));
            }
        }
        // many labels and many layers
        let mut v = vec![];
        for i in 0..60 {
            v.push(if i % 4 == 0 { Op::Base(m(1)) } else { Op::Tog(i - 1, m(2)) });
            if i % 3 == 0 {
                v.push(Op::Create(format!("label{:02}", i)));
                v.push(Op::Set(format!("label{:02}", i), i));
            }
            if i % 10 == 9 {
                v.push(Op::Del(format!("label{:02}", i - 6)));
                v.push(Op::Roll(i));
                v.push(Op::Squash(i));
                v.pop();
                v.push(Op::Listing);
            }
        }
        items.push((f, sc.clone(), v));
    }
    rep.note("histories", items.len());
    histories(rep, "listings", &items, d);
    stray(rep, &sc, d);
}
/// leftovers and foreign files next to the store's own
fn stray(rep: &Report, sc: &Scene, d: Depth) {
    let fl = [Flavor::Dir, Flavor::RawArch, Flavor::Arch(16)];
    type Mk = fn(&std::path::Path);
    let strays: Vec<(&str, Mk)> = vec![
        ("file README", |p| std::fs::write(p.join("README"), "hi").unwrap()),
        ("file .hidden", |p| std::fs::write(p.join(".hidden"), "").unwrap()),
        ("file x.tmp", |p| std::fs::write(p.join("x.tmp"), "x").unwrap()),
        ("file lock", |p| std::fs::write(p.join("lock"), "").unwrap()),
        ("directory backup", |p| std::fs::create_dir(p.join("backup")).unwrap()),
        ("directory lost+found", |p| std::fs::create_dir(p.join("lost+found")).unwrap()),
        ("directory abc (3 characters)", |p| std::fs::create_dir(p.join("abc")).unwrap()),
        ("directory abc with a stray file", |p| {
            std::fs::create_dir(p.join("abd")).unwrap();
            std::fs::write(p.join("abd/notes.txt"), "x").unwrap();
        }),
        ("stray file in every prefix directory", |p| {
            for e in std::fs::read_dir(p).unwrap() {
                let e = e.unwrap();
                if e.file_type().unwrap().is_dir() {
                    std::fs::write(e.path().join("tmpfile~"), "x").unwrap();
                }
            }
        }),
        ("empty directory with a layer like prefix", |p| std::fs::create_dir(p.join("0f0")).unwrap()),
        ("40 character file", |p| std::fs::write(p.join("zz23456789012345678901234567890123456789"), "").unwrap()),
        ("directory named x.label", |p| std::fs::create_dir(p.join("dir.label")).unwrap()),
    ];
    par(strays.len() * fl.len(), |j| {
        let (what, mk) = &strays[j / fl.len()];
        let f = fl[j % fl.len()];
        let mut w = World::new(f, sc, d);
        let r = guard(|| {
            w.run(&[Op::Base(m(1)), Op::Tog(0, m(2)), Op::Create("main".into()), Op::Set("main".into(), 1), Op::Listing])?;
            mk(w.dir.path());
            w.run(&[Op::Listing, Op::Reopen(f), Op::Listing, Op::Obs, Op::Create("two".into()), Op::Listing])
        });
        rep.eval();
        rep.traces.fetch_add(1, Ordering::Relaxed);
        rep.distinct(&format!("stray {} {:?}", what, f));
        if let Err(x) = r {
            rep.violation(format!("stray:{}", key_of(&x)), format!("{:?} with {}: {}", f, what, x), format!("stray={}\n{}", what, replay_text(f, sc, &w.trace)));
        }
    });
}

// ---------------------------------------------------------------- C10
fn c10_alpha() -> Vec<Op> {
    vec![
        Op::Base(m(3)),
        Op::Tog(0, m(5)),
        Op::Tog(1, m(7)),
        Op::Req(1, m(3), m(6)),
        Op::Roll(1),
        Op::RollTo(2, 0),
        Op::Imp(2, 0),
        Op::Squash(1),
        Op::SqTo(2, 0),
        Op::Merge(vec![0, 0]),
        Op::Diff(Some(1), 0),
        Op::Create("g".into()),
        Op::Set("g".into(), 1),
        Op::Force("g".into(), 0),
        Op::ForceV("g".into(), 1, 0),
        Op::Del("g".into()),
    ]
}
pub fn c10(rep: &Report) {
    let th = rep.ctx.thorough;
    let sc = scene("a p b, b q \"a, c p #1");
    let prep = vec![Op::Base([m(1), g("mix", 0, 5)].concat()), Op::Tog(0, m(2)), Op::Tog(1, m(4)), Op::Create("k".into()), Op::Set("k".into(), 0)];
    let ss = seqs(&c10_alpha(), 2).into_iter().chain(if th { seqs(&c10_alpha(), 3) } else { vec![] }).collect::<Vec<_>>();
    let fls: Vec<Flavor> = ALL_FLAVORS.to_vec();
    rep.note("histories", ss.len());
    rep.note("store_kinds", fls.len());
    par(ss.len(), |i| {
        if rep.stopped() || rep.out_of_time("store kinds") {
            return;
        }
        let mut first: Option<(Flavor, String)> = None;
        for &f in &fls {
            let mut w = World::new(f, &sc, LIGHT);
            let r = guard(|| {
                w.run(&prep)?;
                w.run(&ss[i])?;
                let mut c = w.canon()?;
                w.step(&Op::Listing)?;
                let n = w.names.len();
                if f.persistent() {
                    // every other kind of store that reads the same format, with other cache sizes
                    let others: Vec<Flavor> = if f.archive() {
                        vec![Flavor::RawArch, Flavor::Arch(0), Flavor::Arch(1), Flavor::SyncArch(16)]
                    } else {
                        vec![Flavor::Dir, Flavor::DirCachedLabels, Flavor::SyncDir, Flavor::DirUncached]
                    };
                    let o = others[i % others.len()];
                    w.run(&[Op::Reopen(o), Op::Listing, Op::Obs])?;
                }
                // and go on
                w.run(&[Op::Tog(2, m(3)), Op::Tog(n, m(6)), Op::Roll(n + 1), Op::Force("k".into(), n + 1), Op::Listing])?;
                if f.persistent() {
                    w.run(&[Op::Reopen(f)])?;
                } else {
                    w.run(&[Op::DropHandles])?;
                }
                w.run(&[Op::Obs, Op::Listing, Op::Set("k".into(), n), Op::Set("k".into(), n + 1), Op::Listing])?;
                c.push_str(&w.canon()?);
                Ok(c)
            });
            rep.evaluations.fetch_add(w.observations, Ordering::Relaxed);
            rep.states.fetch_add(w.names.len() as u64, Ordering::Relaxed);
            rep.transitions.fetch_add(w.transitions, Ordering::Relaxed);
            rep.traces.fetch_add(1, Ordering::Relaxed);
            rep.distinct(&format!("{:?}{}", f, fmt_ops(&ss[i])));
            match r {
                Err(x) => rep.violation(format!("{:?}:{}", f, key_of(&x)), format!("{:?}: {}", f, x), replay_text(f, &sc, &w.trace)),
                Ok(c) => match &first {
                    None => first = Some((f, c)),
                    Some((f0, c0)) if *c0 != c => {
                        let (a, b) = c0.lines().zip(c.lines()).find(|(a, b)| a != b).unwrap_or(("", "(length)"));
                        rep.violation(
                            format!("differs:{:?}", f),
                            format!("{:?} and {:?} differ: {} / {}", f0, f, a, b),
                            replay_text(f, &sc, &w.trace),
                        )
                    }
                    _ => {}
                },
            }
        }
        rep.sample(|| fmt_ops(&ss[i]));
    });
    huge_layers(rep);
    reopen_process(rep);
}
/// layers whose files are larger than any buffer on the way
fn huge_layers(rep: &Report) {
    let sc = scene("a p b, b q \"a, c p #1");
    let ops: Vec<Vec<Op>> = ["huge", "hugen"]
        .iter()
        .map(|k| {
            vec![
                Op::Base([m(3), g(k, 0, 2)].concat()),
                Op::Tog(0, [m(4), g(k, 1, 3)].concat()),
                Op::Reopen(Flavor::Mem),
                Op::Obs,
                Op::RollTo(1, 0),
                Op::Squash(1),
                Op::Merge(vec![0, 2]),
                Op::Reopen(Flavor::Mem),
                Op::Roll(1),
                Op::Tog(1, m(1)),
                Op::DropHandles,
                Op::Obs,
                Op::Export,
                Op::Listing,
            ]
        })
        .collect();
    let fls = ALL_FLAVORS;
    par(ops.len() * fls.len(), |j| {
        if rep.stopped() || rep.out_of_time("huge layers") {
            return;
        }
        let f = fls[j / ops.len()];
        let h: Vec<Op> = ops[j % ops.len()]
            .iter()
            .filter(|o| f.persistent() || !matches!(o, Op::Reopen(_)))
            .map(|o| if matches!(o, Op::Reopen(_)) { Op::Reopen(f) } else { o.clone() })
            .collect();
        let mut w = World::new(f, &sc, LIGHT);
        let r = guard(|| w.run(&h));
        if let Err(x) = r {
            rep.violation(format!("huge {:?}:{}", f, key_of(&x.chars().take(200).collect::<String>())), format!("{:?}: {}", f, x), replay_text(f, &sc, &w.trace));
        }
        rep.evaluations.fetch_add(w.observations, Ordering::Relaxed);
        rep.transitions.fetch_add(w.transitions, Ordering::Relaxed);
        rep.traces.fetch_add(1, Ordering::Relaxed);
        rep.distinct(&format!("{:?} huge {}", f, j % ops.len()));
    });
}
/// the same directory read by another process
fn reopen_process(rep: &Report) {
    let sc = scene("a p b, b q \"a, c p #1");
    for f in [Flavor::Dir, Flavor::RawArch, Flavor::Arch(16)] {
        let mut w = World::new(f, &sc, LIGHT);
        let r = guard(|| {
            w.run(&[
                Op::Base([m(1), g("mix", 0, 30)].concat()),
                Op::Tog(0, m(2)),
                Op::Tog(1, m(4)),
                Op::RollTo(2, 0),
                Op::Tog(2, m(1)),
                Op::Create("g".into()),
                Op::Set("g".into(), 3),
            ])?;
            let want = w.canon()?;
            let exe = std::env::current_exe().map_err(|e| e.to_string())?;
            let out = std::process::Command::new(exe)
                .arg("child-canon")
                .arg(format!("{:?}", f))
                .arg(w.dir.path())
                .args(w.names.iter().map(|n| hexn(*n)))
                .output()
                .map_err(|e| e.to_string())?;
            let got = String::from_utf8_lossy(&out.stdout).to_string();
            if !out.status.success() || got != want {
                return Err(format!("another process reads the store differently: status {:?}\n{}\n{}", out.status, got, want));
            }
            Ok(())
        });
        rep.eval();
        rep.traces.fetch_add(1, Ordering::Relaxed);
        if let Err(x) = r {
            rep.violation(format!("process:{:?}", f), &x, replay_text(f, &sc, &w.trace));
        }
    }
}
pub fn child_canon(a: &[String]) -> i32 {
    let f = Flavor::parse(&a[0]).unwrap();
    let mut w = World::new(f, &scene(""), LIGHT);
    w.backing = Backing::Disk(a[1].clone().into());
    w.store = w.backing.open(f);
    for n in &a[2..] {
        w.names.push(terminus_store::storage::string_to_name(n).unwrap());
        w.handles.push(None);
    }
    match w.canon() {
        Ok(s) => {
            print!("{}", s);
            0
        }
        Err(e) => {
            println!("{}", e);
            1
        }
    }
}

// ---------------------------------------------------------------- C08
pub fn c08(rep: &Report) {
    let th = rep.ctx.thorough;
    let sc = scene("a p b, b q \"a, c p #1");
    // 0 <- 1 <- 2, 1 <- 3, root 4
    let base = vec![
        Op::Base([m(1), g("mix", 0, 3)].concat()),
        Op::Tog(0, [m(3), g("mix", 3, 5)].concat()),
        Op::Tog(1, [m(6), g("strs", 0, 2)].concat()),
        Op::Tog(1, m(1)),
        Op::Base(m(5)),
    ];
    // 0 <- 1 <- 2, 0 <- 3 (squashed) <- 4
    let squashed = vec![
        Op::Base([m(1), g("mix", 0, 3)].concat()),
        Op::Tog(0, [m(3), g("mix", 3, 5)].concat()),
        Op::Tog(1, [m(6), g("mix", 1, 3), g("strs", 0, 2)].concat()),
        Op::SqTo(2, 0),
        Op::Tog(3, [m(5), g("ints", 0, 2)].concat()),
    ];
    // 0 <- 1, 2 squashed from 1, 3, 4 merged from 3 and 0
    let merged = vec![
        Op::Base([m(3), g("mix", 0, 3)].concat()),
        Op::Tog(0, [m(6), g("mix", 1, 5)].concat()),
        Op::Squash(1),
        Op::Base([m(6), g("ints", 0, 2)].concat()),
        Op::Merge(vec![3, 0]),
    ];
    let base_preps: Vec<Vec<Op>> = vec![vec![], vec![Op::Roll(2)], vec![Op::RollTo(2, 0)], vec![Op::Roll(1), Op::Imp(2, 0)]];
    let mut preps: Vec<Vec<Op>> = base_preps.into_iter().map(|p| [base.clone(), p].concat()).collect();
    for p in [vec![], vec![Op::Roll(3)], vec![Op::RollTo(4, 0)], vec![Op::RollTo(2, 0), Op::Imp(4, 3)]] {
        preps.push([squashed.clone(), p].concat());
    }
    for p in [vec![], vec![Op::Roll(1), Op::Roll(2), Op::Roll(4)]] {
        preps.push([merged.clone(), p].concat());
    }
    let fls = [Flavor::Mem, Flavor::Dir, Flavor::RawArch, Flavor::Arch(16), Flavor::SyncMem, Flavor::SyncArch(16)];
    let mut jobs = vec![];
    for (pi, _) in preps.iter().enumerate() {
        for (si, _) in fls.iter().enumerate() {
            for exp in 1..32u32 {
                // quick: from stores not in memory, single layers, all but one and all
                if !th && si > 0 && ((2..4).contains(&exp.count_ones()) || pi >= 4 && exp.count_ones() < 4) {
                    continue;
                }
                jobs.push((pi, si, exp));
            }
        }
    }
    rep.note("exports", jobs.len());
    par(jobs.len(), |j| {
        if rep.stopped() || rep.out_of_time("packs") {
            return;
        }
        let (pi, si, exp) = jobs[j];
        let mut w = World::new(fls[si], &sc, LIGHT);
        let mut last = String::new();
        let r = guard(|| {
            w.run(&preps[pi])?;
            let mut ex: Vec<Name> = (0..5).filter(|i| exp >> i & 1 == 1).map(|i| w.names[i]).collect();
            if exp % 3 == 1 {
                ex.reverse();
            }
            let pack = w.store.export(&ex).map_err(|e| format!("export failed: {}", e))?;
            let full = w.store.export(&w.names[..5].to_vec()).map_err(|e| format!("export failed: {}", e))?;
            told_parents(&w, &pack, &(0..5).filter(|i| exp >> i & 1 == 1).collect::<Vec<_>>())?;
            if exp == 31 {
                for df in fls.iter() {
                    last = format!("everything listed, rollups too, from {:?} prep {} into {:?}", fls[si], fmt_ops(&preps[pi][5..]), df);
                    everything(rep, &w, *df)?;
                }
            }
            for (di, df) in fls.iter().enumerate() {
                for imp in 0..32u32 {
                    // quick: between stores not in memory, what was exported; from or into one, also
                    // everything, single layers and all but one
                    let one = imp == exp || imp == 31 || imp.count_ones() == 1 || imp.count_ones() == 4;
                    if !th && (si > 0 && di > 0 && imp != exp || (si > 0 || di > 0) && !one || pi >= 4 && di > 0 && imp != exp) {
                        continue;
                    }
                    last = format!("export {:05b} from {:?} prep {} import {:05b} into {:?}", exp, fls[si], fmt_ops(&preps[pi][5..]), imp, df);
                    transfer(rep, &w, &pack, &full, exp, imp, *df)?;
                }
            }
            w.step(&Op::Obs)
        });
        if let Err(x) = r {
            rep.violation(key_of(&x), format!("{} ({})", x, last), format!("{}\n{}", last, replay_text(w.f, &sc, &w.trace)));
        }
        rep.transitions.fetch_add(w.transitions, Ordering::Relaxed);
    });
    pack_sizes(rep);
}
/// All the layers a store lists, the ones made by rollups among them, are the same elsewhere.
fn everything(rep: &Report, w: &World, df: Flavor) -> Result<(), String> {
    let all = block(w.backing.layer_store(w.f).layers()).map_err(|e| format!("listing failed: {}", e))?;
    let pack = w.store.export(&all).map_err(|e| format!("export failed: {}", e))?;
    let d = Scratch::new();
    let b = Backing::new(df, d.path());
    let s = b.open(df);
    s.import(&pack, &all).map_err(|e| format!("import failed: {}", e))?;
    rep.eval();
    rep.traces.fetch_add(1, Ordering::Relaxed);
    for n in all {
        let look = |s: AStore| {
            let l = s.get(n).map_err(|e| format!("loading failed: {}", e))?.ok_or("not found")?;
            observe(&l, LIGHT)
        };
        let here = look(w.backing.fresh(w.f))?;
        for (how, st) in [("importing store", s.clone()), ("fresh store", b.fresh(df))] {
            let there = look(st).map_err(|e| format!("{}: layer or rollup: {}", how, e))?;
            if here != there {
                return Err(format!("{}: imported layer or rollup differs: {}", how, obs_diff(&there, &here)));
            }
        }
    }
    Ok(())
}
fn transfer(rep: &Report, w: &World, pack: &[u8], full: &[u8], exp: u32, imp: u32, df: Flavor) -> Result<(), String> {
    let d = Scratch::new();
    let b = Backing::new(df, d.path());
    let s = b.open(df);
    let unknown: Name = [0x12345678, 1, 2, 3, 4];
    rep.eval();
    rep.traces.fetch_add(1, Ordering::Relaxed);
    rep.distinct_h(fnv(format!("{} {} {:?} {:?} {:?}", exp, imp, df, w.f, w.trace.len()).as_bytes()));
    let ask = |mask: u32, with_unknown: bool| {
        let mut v: Vec<Name> = (0..5).filter(|i| mask >> i & 1 == 1).map(|i| w.names[i]).collect();
        if with_unknown {
            v.insert(v.len() / 2, unknown);
        }
        v
    };
    let present = |s: &AStore, got: u32, when: &str| -> Result<(), String> {
        let ls = b.layer_store(df);
        let mut listed = block(ls.layers()).map_err(|e| format!("{}: listing failed: {}", when, e))?;
        listed.sort();
        let mut want: Vec<Name> = (0..5).filter(|i| got >> i & 1 == 1).map(|i| w.names[i]).collect();
        want.sort();
        if listed != want {
            return Err(format!("{}: layers listed {:?} expected {:?}", when, listed.len(), want.len()));
        }
        for i in 0..5 {
            // loadable when its whole stack is there
            let whole = w.m.stack(i).iter().all(|k| got >> k & 1 == 1);
            if whole {
                for (how, st) in [("importing store", s.clone()), ("fresh store", b.fresh(df))] {
                    let l = st
                        .get(w.names[i])
                        .map_err(|e| format!("{}: loading imported layer {} failed: {}", when, i, e))?
                        .ok_or(format!("{}: imported layer {} not found", when, i))?;
                    let o = observe(&l, LIGHT).map_err(|e| format!("{}: {}: layer {}: {}", when, how, i, e))?;
                    if o != w.obs[i] {
                        return Err(format!("{}: {}: imported layer {} differs: {}", when, how, i, obs_diff(&o, &w.obs[i])));
                    }
                }
            } else if got >> i & 1 == 0 {
                match s.get(w.names[i]) {
                    Ok(None) => {}
                    Ok(Some(_)) => return Err(format!("{}: layer {} was not imported but is found", when, i)),
                    Err(e) => return Err(format!("{}: asking for the absent layer {} fails: {}", when, i, e)),
                }
            }
        }
        match s.get(unknown) {
            Ok(None) => Ok(()),
            Ok(Some(_)) => Err(format!("{}: unknown layer found", when)),
            Err(e) => Err(format!("{}: asking for an unknown layer fails: {}", when, e)),
        }
    };
    s.import(pack, &ask(imp, imp % 2 == 1)).map_err(|e| format!("import failed: {}", e))?;
    present(&s, exp & imp, "after import")?;
    // again, and everything
    s.import(pack, &ask(31, true)).map_err(|e| format!("second import failed: {}", e))?;
    present(&s, exp, "after second import")?;
    if exp != 31 {
        s.import(full, &ask(31, false)).map_err(|e| format!("late import failed: {}", e))?;
        present(&s, 31, "after late import")?;
    }
    // and sent on, also rolled up there
    if imp == exp {
        let other = Backing::new(Flavor::Mem, d.path());
        let o = other.open(Flavor::Mem);
        if exp % 2 == 1 {
            for i in 0..5 {
                if w.m.layers[i].parent.is_some() {
                    let l = s.get(w.names[i]).map_err(|e| e.to_string())?.ok_or("gone")?;
                    l.rollup().map_err(|e| format!("rolling up the imported layer {} failed: {}", i, e))?;
                }
            }
            for i in 0..5 {
                let l = b.fresh(df).get(w.names[i]).map_err(|e| e.to_string())?.ok_or("gone")?;
                let o = observe(&l, LIGHT)?;
                if o != w.obs[i] {
                    return Err(format!("imported layer {} differs when rolled up: {}", i, obs_diff(&o, &w.obs[i])));
                }
            }
        }
        let on = s.export(&w.names[..5].to_vec()).map_err(|e| format!("exporting imported layers failed: {}", e))?;
        o.import(&on, &w.names[..5].to_vec()).map_err(|e| format!("importing layers sent on failed: {}", e))?;
        for i in 0..5 {
            let l = o.get(w.names[i]).map_err(|e| e.to_string())?.ok_or(format!("layer {} sent on is not found", i))?;
            let ob = observe(&l, LIGHT)?;
            if ob != w.obs[i] {
                return Err(format!("layer {} sent on differs: {}", i, obs_diff(&ob, &w.obs[i])));
            }
        }
    }
    // the imported layers can be built on
    let l = s.get(w.names[2]).map_err(|e| e.to_string())?.ok_or("gone")?;
    let c = l.child().map_err(|e| format!("building on an imported layer failed: {}", e))?;
    c.add(vt(&t3s("new p new"))).map_err(|e| e.to_string())?;
    let n = c.commit().map_err(|e| format!("commit on an imported layer failed: {}", e))?;
    let o = observe(&n, LIGHT)?;
    let mut want = w.m.layers[2].triples.clone();
    want.insert(t3s("new p new"));
    if o.strs != want || o.parent != Some(w.names[2]) {
        return Err("child of an imported layer is wrong".into());
    }
    ids_extend(&w.obs[2], &o)
}
fn pack_sizes(rep: &Report) {
    let th = rep.ctx.thorough;
    let mut jobs = vec![];
    for k in GENS {
        for n in if th { vec![1, 9, 65, 257, 513, 1025] } else { vec![9, 257] } {
            if matches!(*k, "preds" | "predp" | "long") && n > 260 {
                continue;
            }
            for f in [Flavor::Mem, Flavor::Dir, Flavor::RawArch] {
                jobs.push((*k, n, f));
            }
        }
    }
    par(jobs.len(), |j| {
        if rep.stopped() {
            return;
        }
        let (k, n, f) = jobs[j];
        let mut w = World::new(f, &Scene::default(), BULK);
        let r = guard(|| {
            w.run(&[Op::Base(g(k, 0, n)), Op::Tog(0, gs(k, 0, 2 * n, 3)), Op::Tog(1, g(k, n / 2, n + 3)), Op::Squash(2), Op::RollTo(2, 0)])?;
            let ex = w.names.clone();
            let pack = w.store.export(&ex).map_err(|e| format!("export failed: {}", e))?;
            for df in [Flavor::Mem, Flavor::Dir, Flavor::RawArch] {
                let d = Scratch::new();
                let b = Backing::new(df, d.path());
                let s = b.open(df);
                s.import(&pack, &ex).map_err(|e| format!("import failed: {}", e))?;
                for i in 0..ex.len() {
                    let l = b.fresh(df).get(ex[i]).map_err(|e| e.to_string())?.ok_or("imported layer not found")?;
                    let o = observe(&l, BULK)?;
                    if o != w.obs[i] {
                        return Err(format!("imported layer {} differs: {}", i, obs_diff(&o, &w.obs[i])));
                    }
                }
                rep.eval();
                rep.traces.fetch_add(1, Ordering::Relaxed);
            }
            Ok(())
        });
        if let Err(x) = r {
            rep.violation(key_of(&x), format!("{} ({} {} {:?})", x, k, n, f), replay_text(f, &Scene::default(), &w.trace));
        }
    });
}

// ---------------------------------------------------------------- C04 (sequential part)
#[derive(Clone, Copy, Debug, PartialEq)]
enum Rq {
    Add(usize),
    Rem(usize),
    AddId(usize),
    RemId(usize),
}
pub fn c04_seq(rep: &Report) {
    let th = rep.ctx.thorough;
    // the parent holds 0 and knows all strings of 0..2 through its ancestors; 3 brings new strings
    let scs = [scene("a p b, b p a, a q \"b, new q new"), scene("a p #1, a p #2, b q #1, a r \"x"), scene("p p p, q p p, p q q, \"never p x").clone()];
    let len = if th { 5 } else { 4 };
    for (si, sc) in scs[..2].iter().enumerate() {
        let mut alpha = vec![];
        for t in 0..3 {
            alpha.extend([Rq::Add(t), Rq::Rem(t), Rq::AddId(t), Rq::RemId(t)]);
        }
        alpha.extend([Rq::Add(3), Rq::Rem(3)]);
        let mut all: Vec<Vec<Rq>> = vec![];
        for l in 0..=len {
            if l == 5 {
                // five requests over two triples
                let small: Vec<Rq> = alpha.iter().copied().filter(|r| !matches!(r, Rq::AddId(2) | Rq::RemId(2) | Rq::Add(2) | Rq::Rem(2))).collect();
                all.extend(seqs(&small, l));
            } else {
                all.extend(seqs(&alpha, l));
            }
        }
        rep.note(&format!("request_sequences_{}", si), all.len());
        // results by set of requests: (adds, rems) -> observation without the name
        let seen: std::sync::Mutex<BTreeMap<(u32, u32), (Obs, Vec<Rq>)>> = Default::default();
        let chunk = 500;
        let n = all.len().div_ceil(chunk);
        par(n, |c| {
            if rep.stopped() || rep.out_of_time("request sequences") {
                return;
            }
            let mut w = World::new(Flavor::Mem, sc, FULL);
            // 1 is the parent: knows the strings of 0,1,2, holds 0
            if let Err(x) = w.run(&[Op::Base(m(0b111)), Op::Tog(0, m(0b110))]) {
                rep.violation(key_of(&x), &x, w.trace_text());
                return;
            }
            let ids: Vec<_> = (0..3).map(|i| w.handles[1].as_ref().unwrap().l().value_triple_to_id(&vt(&sc[i])).unwrap()).collect();
            for s in &all[c * chunk..((c + 1) * chunk).min(all.len())] {
                let r = guard(|| {
                    let b = w.handles[1].as_ref().unwrap().child().map_err(|e| e.to_string())?;
                    let (mut am, mut rm) = (0u32, 0u32);
                    for q in s {
                        match q {
                            Rq::Add(t) => b.add(vt(&sc[*t])),
                            Rq::Rem(t) => b.rem(vt(&sc[*t])),
                            Rq::AddId(t) => b.add_id(ids[*t]),
                            Rq::RemId(t) => b.rem_id(ids[*t]),
                        }
                        .map_err(|e| format!("request refused: {}", e))?;
                        match q {
                            Rq::Add(t) | Rq::AddId(t) => am |= 1 << t,
                            Rq::Rem(t) | Rq::RemId(t) => rm |= 1 << t,
                        }
                    }
                    let l = b.commit().map_err(|e| format!("commit failed: {}", e))?;
                    let mut o = observe(&l, FULL)?;
                    let sel = |x: u32| (0..4).filter(|i| x >> i & 1 == 1).map(|i| sc[i].clone()).collect::<Vec<_>>();
                    w.m.layers.truncate(2);
                    let i = w.m.commit(Some(1), &sel(am), &sel(rm));
                    let mut names = w.names[..2].to_vec();
                    names.push(l.name());
                    against_model(&o, &w.m, i, &names, FULL)?;
                    ids_extend(&w.obs[1], &o)?;
                    o.name = [0; 5];
                    o.stack.pop();
                    let mut sn = seen.lock().unwrap();
                    // names of the chain differ between worlds
                    o.stack.clear();
                    o.parent = None;
                    if let Some((p, how)) = sn.get(&(am, rm)) {
                        if *p != o {
                            return Err(format!("differs from the result of {:?}: {}", how, obs_diff(&o, p)));
                        }
                    } else {
                        sn.insert((am, rm), (o, s.clone()));
                    }
                    drop(sn);
                    if !b.committed() {
                        return Err("committed() is false after commit".into());
                    }
                    // every later use fails
                    for (what, bad) in [
                        ("add", b.add(vt(&sc[0])).is_ok()),
                        ("remove", b.rem(vt(&sc[0])).is_ok()),
                        ("add_id", b.add_id(ids[0]).is_ok()),
                        ("remove_id", b.rem_id(ids[0]).is_ok()),
                        ("commit_no_load", b.commit_no_load().is_ok()),
                        ("commit", b.commit().is_ok()),
                        ("apply_delta", b.apply_delta(&l).is_ok()),
                        ("apply_delta of changes", b.apply_delta(w.handles[1].as_ref().unwrap()).is_ok()),
                        ("apply_diff", b.apply_diff(w.handles[0].as_ref().unwrap()).is_ok()),
                        ("apply_diff to the same", b.apply_diff(w.handles[1].as_ref().unwrap()).is_ok()),
                    ] {
                        if bad {
                            return Err(format!("{} succeeded on a committed builder", what));
                        }
                    }
                    Ok(())
                });
                rep.eval();
                rep.transitions.fetch_add(s.len() as u64 + 1, Ordering::Relaxed);
                rep.traces.fetch_add(1, Ordering::Relaxed);
                if let Err(x) = r {
                    rep.violation(key_of(&x), format!("{:?}: {}", s, x), format!("scene={}\nrequests={:?} on a layer holding triple 0 that knows 0..2", scene_text(sc), s));
                    return;
                }
            }
        });
        let sn = seen.lock().unwrap();
        rep.states.fetch_add(sn.len() as u64, Ordering::Relaxed);
        for k in sn.keys() {
            rep.distinct(&format!("{}{:?}", si, k));
        }
        rep.sample(|| format!("{:?}", all[all.len() / 2]));
    }
    // base builders and raw requests through every store kind
    let sc = &scs[0];
    let mut items = vec![];
    for f in ALL_FLAVORS {
        for a in 0..16u64 {
            for r in 0..16u64 {
                if !(th || matches!(f, Flavor::Mem)) && (a >= 8 || r >= 8) {
                    continue;
                }
                items.push((*f, sc.clone(), vec![Op::Base(m(0b0111)), Op::Tog(0, m(0b0110)), Op::Req(1, m(a), m(r)), Op::Abandon(Some(2), m(9)), Op::Obs]));
            }
        }
    }
    histories(rep, "raw requests", &items, FULL);
}
