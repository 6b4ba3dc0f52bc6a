//! The layer store seen through the `LayerStore` trait itself: what it says about a layer by name, without the
//! layer, with any set of layers in its cache, and after rollups - for C02 (dictionaries, counts, id maps),
//! C03 (changes over a stretch of the stack) and C22 (parents, ancestry, stack names).
use crate::api::*;
use crate::model::*;
use crate::obs::*;
use crate::seq::*;
use crate::seq2::*;
use crate::util::*;
use crate::world::*;
use std::collections::BTreeSet;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use tdb_succinct::TypedDictEntry;
use terminus_store::layer::{IdTriple, Layer, ObjectType, TripleChange};
use terminus_store::storage::LayerStore;

fn ok<T>(what: &str, i: usize, r: std::io::Result<T>) -> Result<T, String> {
    r.map_err(|x| format!("{} of layer {} failed: {:?} {}", what, i, x.kind(), x))
}
fn there<T>(what: &str, i: usize, r: std::io::Result<Option<T>>) -> Result<T, String> {
    ok(what, i, r)?.ok_or_else(|| format!("{} of layer {}: nothing", what, i))
}
fn differ<T: PartialEq + std::fmt::Debug>(what: &str, i: usize, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} of layer {} is {:?}, not {:?}", what, i, got, want))
    }
}
pub fn look(prop: &str, w: &World, s: &Arc<dyn LayerStore>) -> Result<(), String> {
    let n = w.names.len();
    for i in 0..n {
        let name = w.names[i];
        let par = w.m.layers[i].parent;
        match prop {
            "C02" => {
                let (o0, p0) = par.map(|p| (w.obs[p].objs.len(), w.obs[p].preds.len())).unwrap_or((0, 0));
                let own: Vec<Term> = w.obs[i].objs[o0..].to_vec();
                let preds: Vec<String> = w.obs[i].preds[p0..].to_vec();
                let nodes = own.iter().filter(|t| matches!(t, Term::N(_))).count();
                differ("node count", i, there("node count", i, block(s.get_node_count(name)))?, nodes as u64)?;
                differ("value count", i, there("value count", i, block(s.get_value_count(name)))?, (own.len() - nodes) as u64)?;
                differ("predicate count", i, there("predicate count", i, block(s.get_predicate_count(name)))?, preds.len() as u64)?;
                let nd = there("node dictionary", i, block(s.get_node_dictionary(name)))?;
                let pd = there("predicate dictionary", i, block(s.get_predicate_dictionary(name)))?;
                let vd = there("value dictionary", i, block(s.get_value_dictionary(name)))?;
                differ("node dictionary size", i, nd.num_entries(), nodes)?;
                differ("value dictionary size", i, vd.num_entries(), own.len() - nodes)?;
                differ("predicate dictionary size", i, pd.num_entries(), preds.len())?;
                let nm = there("node id map", i, block(s.get_node_value_idmap(name)))?;
                let pm = there("predicate id map", i, block(s.get_predicate_idmap(name)))?;
                for k in 0..own.len() {
                    let inner = nm.outer_to_inner(k as u64 + 1) as usize;
                    let t = if inner <= nodes {
                        nd.get(inner).map(|e| Term::N(e.as_str().to_string()))
                    } else {
                        vd.entry(inner - nodes).map(|e: TypedDictEntry| term(&ObjectType::Value(e)))
                    };
                    differ(&format!("entry {} in dictionary order", k + 1), i, t, Some(own[k].clone()))?;
                    differ(&format!("id for entry {}", inner), i, nm.inner_to_outer(inner as u64), k as u64 + 1)?;
                }
                for k in 0..preds.len() {
                    let inner = pm.outer_to_inner(k as u64 + 1) as usize;
                    differ(&format!("predicate {}", k + 1), i, pd.get(inner).map(|e| e.as_str().to_string()), Some(preds[k].clone()))?;
                    differ(&format!("predicate id for entry {}", inner), i, pm.inner_to_outer(inner as u64), k as u64 + 1)?;
                }
            }
            "C03" => {
                let set = |what: &str, it: Vec<(TripleChange, IdTriple)>| -> Result<(BTreeSet<IdTriple>, BTreeSet<IdTriple>), String> {
                    let a: Vec<IdTriple> = it.iter().filter(|x| x.0 == TripleChange::Addition).map(|x| x.1).collect();
                    let r: Vec<IdTriple> = it.iter().filter(|x| x.0 == TripleChange::Removal).map(|x| x.1).collect();
                    let (sa, sr): (BTreeSet<_>, BTreeSet<_>) = (a.iter().copied().collect(), r.iter().copied().collect());
                    if sa.len() != a.len() || sr.len() != r.len() {
                        return Err(format!("{} of layer {} report a change twice", what, i));
                    }
                    Ok((sa, sr))
                };
                let all = set("the changes", ok("changes", i, block(s.layer_changes(name)))?.collect())?;
                differ("what the changes of the whole stack add up to: additions", i, all.0, w.obs[i].triples.clone())?;
                differ("what the changes of the whole stack add up to: removals", i, all.1, BTreeSet::new())?;
                let st = w.m.stack(i);
                for &u in &st[..st.len() - 1] {
                    let c = set("the changes", ok("changes up to an ancestor", i, block(s.layer_changes_upto(name, w.names[u])))?.collect())?;
                    let (new, old) = (&w.obs[i].triples, &w.obs[u].triples);
                    differ(&format!("additions since layer {}", u), i, c.0, new.difference(old).copied().collect())?;
                    differ(&format!("removals since layer {}", u), i, c.1, old.difference(new).copied().collect())?;
                }
            }
            _ => {
                let p = ok("parent name", i, block(s.get_layer_parent_name(name)))?;
                differ("parent name", i, p, par.map(|p| w.names[p]))?;
                let st: Vec<Name> = w.m.stack(i).iter().map(|x| w.names[*x]).collect();
                differ("stack names", i, ok("stack names", i, block(s.retrieve_layer_stack_names(name)))?, st.clone())?;
                for (k, u) in st[..st.len() - 1].iter().enumerate() {
                    let r = ok("stack names up to an ancestor", i, block(s.retrieve_layer_stack_names_upto(name, *u)))?;
                    differ("stack names up to an ancestor", i, r, st[k + 1..].to_vec())?;
                }
                for j in 0..n {
                    let r = ok("ancestry", i, block(s.layer_is_ancestor_of(name, w.names[j])))?;
                    let want = w.m.stack(i)[..w.m.stack(i).len() - 1].contains(&j);
                    if i != j {
                        differ(&format!("whether layer {} is an ancestor", j), i, r, want)?;
                    }
                }
                let l = there("layer", i, block(s.get_layer(name)))?;
                differ("name", i, l.name(), name)?;
                differ("parent of the loaded layer", i, l.parent_name(), par.map(|p| w.names[p]))?;
            }
        }
    }
    Ok(())
}
/// every cache content: nothing, any set of layers held, everything loaded and dropped again
fn caches(prop: &str, w: &World) -> Result<u64, String> {
    let n = w.names.len();
    let mut c = 1;
    look(prop, w, &w.backing.layer_store(w.f)).map_err(|x| format!("store without cache: {}", x))?;
    let sets: Vec<u64> = if n <= 4 { (0..1u64 << n).collect() } else { (0..n).map(|i| 1 << i).chain([0, (1 << n) - 1]).collect() };
    for m in sets {
        let s = w.backing.cached_layer_store(w.f);
        let held: Vec<_> = (0..n).filter(|i| m >> i & 1 == 1).map(|i| there("layer", i, block(s.get_layer(w.names[i])))).collect::<Result<_, _>>()?;
        look(prop, w, &s).map_err(|x| format!("cache with layers {:b} held: {}", m, x))?;
        drop(held);
        look(prop, w, &s).map_err(|x| format!("cache after layers {:b} were dropped: {}", m, x))?;
        c += 2;
    }
    Ok(c)
}
pub fn run(rep: &Report) {
    let th = rep.ctx.thorough;
    let prop = rep.ctx.prop.clone();
    let d = Depth { cube: true, queries: false, deltas: false, ids: true, stack: false, few: true };
    let sc = scene("a p b, b q \"a, a q #1, c p a");
    let mut items: Vec<(Flavor, Scene, Vec<Op>)> = vec![];
    let fl = if th { vec![Flavor::Mem, Flavor::Dir, Flavor::RawArch, Flavor::Arch(16)] } else { vec![Flavor::Mem, Flavor::Dir, Flavor::RawArch] };
    for f in fl {
        let cs = if f == Flavor::Mem { chains_every(&sc, 3, if th { 4000 } else { 250 }) } else { chains_every(&sc, 3, if th { 300 } else { 25 }) };
        for c in cs {
            let mut tails: Vec<Vec<Op>> = vec![vec![], vec![Op::Roll(2)], vec![Op::Roll(1)], vec![Op::RollTo(2, 0)], vec![Op::Imp(2, 0)], vec![Op::Squash(2)]];
            if th {
                tails.extend([vec![Op::RollTo(2, 1)], vec![Op::Roll(0)], vec![Op::Roll(1), Op::RollTo(2, 1)], vec![Op::SqTo(2, 0), Op::Roll(3)], vec![Op::Merge(vec![0, 0])]]);
            }
            for t in tails {
                items.push((f, sc.clone(), [c.clone(), t].concat()));
            }
        }
        for (k, n) in [("mix", 40), ("strs", 70), ("predp", 34), ("ints", 17)] {
            items.push((f, Scene::default(), long_chain(k, 5, n)));
            items.push((f, Scene::default(), [long_chain(k, 5, n), vec![Op::RollTo(4, 1), Op::Roll(2)]].concat()));
        }
    }
    rep.note("layer_store_histories", items.len());
    par(items.len(), |i| {
        if rep.stopped() || rep.out_of_time("layer store view") {
            return;
        }
        let (f, sc, ops) = &items[i];
        let mut w = World::new(*f, sc, d);
        let r = guard(|| {
            w.run(ops)?;
            caches(&prop, &w)
        });
        rep.distinct(&format!("layer store {:?}|{}|{}", f, scene_text(sc), fmt_ops(ops)));
        rep.traces.fetch_add(1, Ordering::Relaxed);
        rep.transitions.fetch_add(w.transitions, Ordering::Relaxed);
        match r {
            Ok(c) => {
                rep.evaluations.fetch_add(c, Ordering::Relaxed);
                rep.states.fetch_add(c, Ordering::Relaxed);
            }
            Err(x) => rep.violation(format!("layer store: {}", key_of(&x)), &x, format!("layer store view\n{}", replay_text(*f, sc, &w.trace))),
        }
    });
}
