//! Full observation of one layer: every query form, cross-checked against the plain listing.
use crate::api::*;
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};
use terminus_store::layer::{IdTriple, Layer};

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Obs {
    pub name: Name,
    pub parent: Option<Name>,
    pub stack: Vec<Name>,
    pub objs: Vec<Term>,
    pub preds: Vec<String>,
    pub triples: BTreeSet<IdTriple>,
    pub adds: BTreeSet<IdTriple>,
    pub rems: BTreeSet<IdTriple>,
    pub strs: TSet,
    pub sadds: TSet,
    pub srems: TSet,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Depth {
    /// check the whole id cube (small layers); otherwise only neighbourhoods of known triples
    pub cube: bool,
    pub queries: bool,
    pub deltas: bool,
    pub ids: bool,
    pub stack: bool,
    /// restricted delta queries only around the changed triples (each costs a dozen file reads on disk)
    pub few: bool,
}
pub const FULL: Depth = Depth { cube: true, queries: true, deltas: true, ids: true, stack: true, few: false };
pub const LIGHT: Depth = Depth { few: true, ..FULL };
pub const BULK: Depth = Depth { cube: false, ..FULL };

fn uniq(what: &str, it: impl Iterator<Item = IdTriple>) -> Result<BTreeSet<IdTriple>, String> {
    let mut r = BTreeSet::new();
    let mut n = 0usize;
    for t in it {
        n += 1;
        if !r.insert(t) {
            return Err(format!("{}: duplicate {:?}", what, t));
        }
        if n > 2_000_000 {
            return Err(format!("{}: runaway iterator", what));
        }
    }
    Ok(r)
}
fn io<T>(what: &str, r: std::io::Result<T>) -> Result<T, String> {
    r.map_err(|e| {
        crate::world::IO_ERR.with(|i| i.set(true));
        format!("{}: error {:?} {}", what, e.kind(), e)
    })
}
fn by<K: Ord>(s: &BTreeSet<IdTriple>, k: impl Fn(&IdTriple) -> K) -> BTreeMap<K, BTreeSet<IdTriple>> {
    let mut m: BTreeMap<K, BTreeSet<IdTriple>> = BTreeMap::new();
    for t in s {
        m.entry(k(t)).or_default().insert(*t);
    }
    m
}
fn same(what: &str, got: &BTreeSet<IdTriple>, want: Option<&BTreeSet<IdTriple>>) -> Result<(), String> {
    let e = BTreeSet::new();
    let w = want.unwrap_or(&e);
    if got != w {
        return Err(format!("{}: got {:?}, expected {:?}", what, got, w));
    }
    Ok(())
}

/// ids checked by restricted queries
fn id_list(n: usize, cube: bool, used: &BTreeSet<u64>) -> Vec<u64> {
    let n = n as u64;
    if cube {
        let mut v: Vec<u64> = (0..=n + 2).collect();
        v.push(n + 70);
        v.push(1 << 40);
        v
    } else {
        let mut v: BTreeSet<u64> = used.clone();
        v.extend([0, 1, n, n + 1, n + 2, n + 64, 1 << 40]);
        for k in 0..=(n / 7) {
            v.insert(k * 7);
        }
        v.into_iter().collect()
    }
}

pub fn observe(l: &ALayer, d: Depth) -> Result<Obs, String> {
    let x: &dyn Layer = l.l();
    let name = x.name();
    let n = x.node_and_value_count();
    let pc = x.predicate_count();
    // ids
    let mut objs = Vec::with_capacity(n);
    let mut preds = Vec::with_capacity(pc);
    for id in 1..=n as u64 {
        match x.id_object(id) {
            Some(o) => objs.push(term(&o)),
            None => return Err(format!("id_object({}) is None though node_and_value_count={}", id, n)),
        }
    }
    for id in 1..=pc as u64 {
        match x.id_predicate(id) {
            Some(o) => preds.push(o),
            None => return Err(format!("id_predicate({}) is None though predicate_count={}", id, pc)),
        }
    }
    if d.ids {
        let mut seen: BTreeMap<&Term, u64> = BTreeMap::new();
        let (mut nn, mut vn) = (0, 0);
        for (i, t) in objs.iter().enumerate() {
            let id = i as u64 + 1;
            if let Some(o) = seen.insert(t, id) {
                return Err(format!("ids {} and {} both name {:?}", o, id, t));
            }
            match t {
                Term::N(s) => {
                    nn += 1;
                    if x.object_node_id(s) != Some(id) {
                        return Err(format!("object_node_id({:?})={:?}, expected {}", s, x.object_node_id(s), id));
                    }
                    if x.subject_id(s) != Some(id) {
                        return Err(format!("subject_id({:?})={:?}, expected {}", s, x.subject_id(s), id));
                    }
                    if x.id_subject(id).as_ref() != Some(s) {
                        return Err(format!("id_subject({})={:?}, expected {:?}", id, x.id_subject(id), s));
                    }
                    if x.id_object_is_node(id) != Some(true) || x.id_object_is_value(id) != Some(false) {
                        return Err(format!("id_object_is_node({}) wrong for node {:?}", id, s));
                    }
                    if x.id_object_node(id).as_ref() != Some(s) {
                        return Err(format!("id_object_node({}) wrong for node {:?}", id, s));
                    }
                }
                Term::V(_, _) => {
                    vn += 1;
                    let e = match term_obj(t) {
                        terminus_store::ObjectType::Value(e) => e,
                        _ => unreachable!(),
                    };
                    if x.object_value_id(&e) != Some(id) {
                        return Err(format!("object_value_id({:?})={:?}, expected {}", t, x.object_value_id(&e), id));
                    }
                    if x.id_subject(id).is_some() {
                        return Err(format!("id_subject({}) names a value", id));
                    }
                    if x.id_object_is_node(id) != Some(false) || x.id_object_is_value(id) != Some(true) {
                        return Err(format!("id_object_is_node({}) wrong for value {:?}", id, t));
                    }
                    if x.id_object_value(id).as_ref() != Some(&e) {
                        return Err(format!("id_object_value({}) wrong for value {:?}", id, t));
                    }
                }
            }
        }
        let mut seenp = BTreeSet::new();
        for (i, p) in preds.iter().enumerate() {
            if !seenp.insert(p) {
                return Err(format!("predicate {:?} has two ids", p));
            }
            if x.predicate_id(p) != Some(i as u64 + 1) {
                return Err(format!("predicate_id({:?})={:?}, expected {}", p, x.predicate_id(p), i + 1));
            }
        }
        for id in [0u64, n as u64 + 1, n as u64 + 2, n as u64 + 64, 1 << 40] {
            if x.id_object(id).is_some() || x.id_subject(id).is_some() || x.id_object_is_node(id).is_some() {
                return Err(format!("id {} beyond count {} resolves to {:?}", id, n, x.id_object(id)));
            }
        }
        for id in [0u64, pc as u64 + 1, pc as u64 + 2, pc as u64 + 64, 1 << 40] {
            if x.id_predicate(id).is_some() {
                return Err(format!("predicate id {} beyond count {} resolves", id, pc));
            }
        }
        partly(x, &objs, &preds)?;
        for unk in ["", "zz-unknown", "\u{7f}"] {
            if objs.contains(&Term::N(unk.into())) {
                continue;
            }
            if x.subject_id(unk).is_some() || x.object_node_id(unk).is_some() {
                return Err(format!("unknown node {:?} has an id", unk));
            }
            if !preds.iter().any(|p| p == unk) && x.predicate_id(unk).is_some() {
                return Err(format!("unknown predicate {:?} has an id", unk));
            }
        }
        for v in ["\"", "\"zz-unknown", "#4000000000", "%-99"] {
            if let terminus_store::ObjectType::Value(e) = obj(v) {
                if !objs.contains(&term(&obj(v))) && x.object_value_id(&e).is_some() {
                    return Err(format!("unknown value {} has id {:?}", v, x.object_value_id(&e)));
                }
            }
        }
        // no id for a node string that is only a value and vice versa
        for t in objs.iter().take(300) {
            match t {
                Term::V(0, b) => {
                    if let Ok(s) = std::str::from_utf8(b) {
                        let nt = Term::N(s.to_string());
                        if !seen.contains_key(&nt) && x.object_node_id(s).is_some() {
                            return Err(format!("string value {:?} also resolves as node", s));
                        }
                    }
                }
                Term::N(s) => {
                    let vt_ = Term::V(0, s.as_bytes().to_vec());
                    if !seen.contains_key(&vt_) && s.is_ascii() && !s.contains('\0') {
                        if let terminus_store::ObjectType::Value(e) = obj(&format!("\"{}", s)) {
                            let known = objs.contains(&term(&terminus_store::ObjectType::Value(e.clone())));
                            if !known && x.object_value_id(&e).is_some() {
                                return Err(format!("node {:?} also resolves as value", s));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        let c = x.all_counts();
        if c.node_count != nn || c.value_count != vn || c.predicate_count != pc {
            return Err(format!(
                "all_counts = ({},{},{}) but {} nodes, {} predicates, {} values are known",
                c.node_count, c.predicate_count, c.value_count, nn, pc, vn
            ));
        }
    }
    let triples = uniq("triples()", x.triples())?;
    let resolve = |what: &str, s: &BTreeSet<IdTriple>| -> Result<TSet, String> {
        let mut r = TSet::new();
        for t in s {
            let (si, pi, oi) = (t.subject as usize, t.predicate as usize, t.object as usize);
            if si == 0 || si > n || oi == 0 || oi > n || pi == 0 || pi > pc {
                return Err(format!("{}: {:?} uses ids out of range", what, t));
            }
            let sub = match &objs[si - 1] {
                Term::N(s) => s.clone(),
                v => return Err(format!("{}: {:?} has value {:?} as subject", what, t, v)),
            };
            r.insert((sub, preds[pi - 1].clone(), objs[oi - 1].clone()));
        }
        Ok(r)
    };
    let strs = resolve("triples()", &triples)?;
    if d.queries {
        if x.triple_count() != triples.len() {
            return Err(format!(
                "triple_count()={} ({} - {}) but {} triples listed",
                x.triple_count(),
                x.triple_addition_count(),
                x.triple_removal_count(),
                triples.len()
            ));
        }
        let used: BTreeSet<u64> = triples.iter().flat_map(|t| [t.subject, t.object]).collect();
        let nodes = id_list(n, d.cube, &used);
        let ps = id_list(pc, true, &BTreeSet::new());
        let m_s = by(&triples, |t| t.subject);
        let m_p = by(&triples, |t| t.predicate);
        let m_o = by(&triples, |t| t.object);
        let m_sp = by(&triples, |t| (t.subject, t.predicate));
        for &s in &nodes {
            same(&format!("triples_s({})", s), &uniq("triples_s", x.triples_s(s))?, m_s.get(&s))?;
            same(&format!("triples_o({})", s), &uniq("triples_o", x.triples_o(s))?, m_o.get(&s))?;
            let pl: Vec<u64> = if d.cube {
                ps.clone()
            } else {
                let mut v: Vec<u64> = m_s.get(&s).map(|z| z.iter().map(|t| t.predicate).collect()).unwrap_or_default();
                v.dedup();
                v.push(s % (pc as u64 + 2));
                v
            };
            for &p in &pl {
                let want = m_sp.get(&(s, p));
                same(&format!("triples_sp({},{})", s, p), &uniq("triples_sp", x.triples_sp(s, p))?, want)?;
                match (x.single_triple_sp(s, p), want) {
                    (None, None) => {}
                    (Some(t), Some(w)) if w.contains(&t) => {}
                    (g, w) => return Err(format!("single_triple_sp({},{}) = {:?}, candidates {:?}", s, p, g, w)),
                }
            }
        }
        for &p in &ps {
            same(&format!("triples_p({})", p), &uniq("triples_p", x.triples_p(p))?, m_p.get(&p))?;
        }
        let ex = |s: u64, p: u64, o: u64| -> Result<(), String> {
            let want = triples.contains(&IdTriple::new(s, p, o));
            if x.triple_exists(s, p, o) != want || x.id_triple_exists(IdTriple::new(s, p, o)) != want {
                return Err(format!("triple_exists({},{},{}) = {}", s, p, o, !want));
            }
            Ok(())
        };
        if d.cube && nodes.len() * nodes.len() * ps.len() < 20_000 {
            for &s in &nodes {
                for &p in &ps {
                    for &o in &nodes {
                        ex(s, p, o)?;
                    }
                }
            }
        } else {
            for t in &triples {
                for (ds, dp, do_) in [(0i64, 0i64, 0i64), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)] {
                    ex((t.subject as i64 + ds) as u64, (t.predicate as i64 + dp) as u64, (t.object as i64 + do_) as u64)?;
                }
            }
        }
        for t in strs.iter().take(if d.cube { 1000 } else { 200 }) {
            let v = vt(t);
            if !x.value_triple_exists(&v) {
                return Err(format!("value_triple_exists({:?}) is false", t));
            }
            match x.value_triple_to_id(&v) {
                Some(i) if triples.contains(&i) => match x.id_triple_to_string(&i) {
                    Some(b) if from_vt(&b) == *t => {}
                    o => return Err(format!("id_triple_to_string({:?}) = {:?}", i, o)),
                },
                o => return Err(format!("value_triple_to_id({:?}) = {:?}", t, o)),
            }
        }
    }
    let (mut adds, mut rems) = (BTreeSet::new(), BTreeSet::new());
    let (mut sadds, mut srems) = (TSet::new(), TSet::new());
    if d.deltas {
        adds = uniq("triple_additions", io("triple_additions", l.adds())?)?;
        rems = uniq("triple_removals", io("triple_removals", l.rems())?)?;
        sadds = resolve("triple_additions", &adds)?;
        srems = resolve("triple_removals", &rems)?;
        let ac = io("addition_count", l.add_count())?;
        let rc = io("removal_count", l.rem_count())?;
        if ac != adds.len() || rc != rems.len() {
            return Err(format!(
                "layer counts +{} -{} but {} additions and {} removals listed",
                ac, rc, adds.len(), rems.len()
            ));
        }
        for (what, set, add) in [("additions", &adds, true), ("removals", &rems, false)] {
            let used: BTreeSet<u64> = set.iter().flat_map(|t| [t.subject, t.object]).collect();
            let mut nodes = id_list(n, d.cube, &used);
            if !d.cube || d.few {
                // keep bulk layers affordable: used ids, their neighbours and the borders
                let mut v: BTreeSet<u64> = used.iter().flat_map(|u| [*u, u + 1]).collect();
                v.extend([1, n as u64, n as u64 + 1]);
                nodes = v.into_iter().collect();
                let max = if d.few { 5 } else { 60 };
                if nodes.len() > max {
                    let k = nodes.len() / max + 1;
                    nodes = nodes.into_iter().step_by(k).collect();
                }
            }
            let mut ps = id_list(pc, pc < 40, &set.iter().map(|t| t.predicate).take(40).collect());
            if d.few {
                ps.truncate(4);
            }
            let m_s = by(set, |t| t.subject);
            let m_p = by(set, |t| t.predicate);
            let m_o = by(set, |t| t.object);
            let m_sp = by(set, |t| (t.subject, t.predicate));
            for &s in &nodes {
                let it = io("delta_s", if add { l.adds_s(s) } else { l.rems_s(s) })?;
                same(&format!("{}_s({})", what, s), &uniq(what, it)?, m_s.get(&s))?;
                let it = io("delta_o", if add { l.adds_o(s) } else { l.rems_o(s) })?;
                same(&format!("{}_o({})", what, s), &uniq(what, it)?, m_o.get(&s))?;
                let pl: Vec<u64> = if d.cube && !d.few { ps.clone() } else { m_s.get(&s).map(|z| z.iter().map(|t| t.predicate).collect::<BTreeSet<_>>().into_iter().collect()).unwrap_or(vec![1]) };
                for &p in &pl {
                    let it = io("delta_sp", if add { l.adds_sp(s, p) } else { l.rems_sp(s, p) })?;
                    same(&format!("{}_sp({},{})", what, s, p), &uniq(what, it)?, m_sp.get(&(s, p)))?;
                }
            }
            for &p in &ps {
                let it = io("delta_p", if add { l.adds_p(p) } else { l.rems_p(p) })?;
                same(&format!("{}_p({})", what, p), &uniq(what, it)?, m_p.get(&p))?;
            }
            let probe: BTreeSet<IdTriple> = triples
                .iter()
                .chain(adds.iter())
                .chain(rems.iter())
                .take(if d.few { 3 } else if d.cube { 400 } else { 40 })
                .flat_map(|t| [*t, IdTriple::new(t.subject, t.predicate, t.object + 1), IdTriple::new(t.object, t.predicate, t.subject), IdTriple::new(t.subject, t.predicate + 1, t.object)])
                .collect();
            for t in probe {
                let g = io("delta_exists", if add { l.add_exists(t.subject, t.predicate, t.object) } else { l.rem_exists(t.subject, t.predicate, t.object) })?;
                if g != set.contains(&t) {
                    return Err(format!("{} exists({:?}) = {}", what, t, g));
                }
            }
        }
    }
    let stack = if d.stack { io("stack names", l.stack())? } else { vec![] };
    Ok(Obs { name, parent: x.parent_name(), stack, objs, preds, triples, adds, rems, strs, sadds, srems })
}

/// Triples of which every part is known or not: only what is known is given as an id, and the rest is filled in later.
fn partly(x: &dyn Layer, objs: &[Term], preds: &[String]) -> Result<(), String> {
    use std::collections::HashMap;
    use terminus_store::layer::PossiblyResolved;
    let fresh = "zz-not-there";
    if objs.contains(&Term::N(fresh.into())) || preds.iter().any(|p| p == fresh) {
        return Ok(());
    }
    let nodes: Vec<(String, Option<u64>)> = objs
        .iter()
        .enumerate()
        .filter_map(|(i, t)| match t {
            Term::N(s) => Some((s.clone(), Some(i as u64 + 1))),
            _ => None,
        })
        .step_by(1 + objs.len() / 6)
        .chain([(fresh.to_string(), None)])
        .collect();
    let ps: Vec<(String, Option<u64>)> =
        preds.iter().enumerate().map(|(i, p)| (p.clone(), Some(i as u64 + 1))).step_by(1 + preds.len() / 3).chain([(fresh.to_string(), None)]).collect();
    let os: Vec<(Term, Option<u64>)> = objs
        .iter()
        .enumerate()
        .map(|(i, t)| (t.clone(), Some(i as u64 + 1)))
        .step_by(1 + objs.len() / 6)
        .chain([(Term::N(fresh.into()), None), (term(&obj("\"zz-not-there")), None)])
        .collect();
    let unused = 1u64 << 50;
    for (s, si) in &nodes {
        for (p, pi) in &ps {
            for (o, oi) in &os {
                let t = vt(&(s.clone(), p.clone(), o.clone()));
                let mut r = x.value_triple_to_partially_resolved(t.clone());
                let bad = |what: &str| Err(format!("value_triple_to_partially_resolved({:?}): {}", (s, p, o), what));
                let want = si.and_then(|si| pi.and_then(|pi| oi.map(|oi| IdTriple::new(si, pi, oi))));
                if r.subject != si.map_or(PossiblyResolved::Unresolved(s.clone()), PossiblyResolved::Resolved)
                    || r.predicate != pi.map_or(PossiblyResolved::Unresolved(p.clone()), PossiblyResolved::Resolved)
                    || r.object != oi.map_or(PossiblyResolved::Unresolved(t.object.clone()), PossiblyResolved::Resolved)
                {
                    return bad("not exactly its known parts are given by id");
                }
                if r.as_resolved() != want || x.value_triple_to_id(&t) != want {
                    return bad("as ids");
                }
                let (mut nm, mut pm, mut vm) = (HashMap::new(), HashMap::new(), HashMap::new());
                let empty = r.resolve_with(&nm, &pm, &vm);
                if empty != want {
                    return bad("resolved with nothing");
                }
                if si.is_none() {
                    nm.insert(s.clone(), unused);
                }
                if pi.is_none() {
                    pm.insert(p.clone(), unused + 1);
                }
                let mut ov = unused + 2;
                if oi.is_none() {
                    match &t.object {
                        terminus_store::ObjectType::Node(n) => ov = *nm.entry(n.clone()).or_insert(ov),
                        terminus_store::ObjectType::Value(v) => {
                            vm.insert(v.clone(), ov);
                        }
                    }
                }
                let full = r.resolve_with(&nm, &pm, &vm);
                if full != Some(IdTriple::new(si.unwrap_or(unused), pi.unwrap_or(unused + 1), oi.unwrap_or(ov))) {
                    return bad("resolved with the missing parts");
                }
                r.make_resolved_or_zero();
                if r.as_resolved() != Some(want.unwrap_or(IdTriple::new(0, 0, 0))) {
                    return bad("resolved or zero");
                }
            }
        }
    }
    Ok(())
}

fn diff(a: &TSet, b: &TSet) -> String {
    let miss: Vec<_> = b.difference(a).take(4).collect();
    let extra: Vec<_> = a.difference(b).take(4).collect();
    format!("missing {:?} extra {:?}", miss, extra)
}

/// Compare an observation with the model.
pub fn against_model(o: &Obs, m: &Model, idx: usize, names: &[Name], d: Depth) -> Result<(), String> {
    let l = &m.layers[idx];
    if o.strs != l.triples {
        return Err(format!("content of layer {}: {}", idx, diff(&o.strs, &l.triples)));
    }
    if d.deltas {
        if o.sadds != l.adds {
            return Err(format!("additions of layer {}: {}", idx, diff(&o.sadds, &l.adds)));
        }
        if o.srems != l.rems {
            return Err(format!("removals of layer {}: {}", idx, diff(&o.srems, &l.rems)));
        }
    }
    let wp = l.parent.map(|p| names[p]);
    if o.parent != wp {
        return Err(format!("parent of layer {}: {:?} expected {:?}", idx, o.parent.map(hexn), wp.map(hexn)));
    }
    if d.stack {
        let ws: Vec<Name> = m.stack(idx).into_iter().map(|i| names[i]).collect();
        if o.stack != ws {
            return Err(format!("ancestor list of layer {}: {:?} expected {:?}", idx, o.stack, ws));
        }
    }
    Ok(())
}
/// ids of the parent keep their meaning in the child
pub fn ids_extend(parent: &Obs, child: &Obs) -> Result<(), String> {
    if child.objs.len() < parent.objs.len() || child.objs[..parent.objs.len()] != parent.objs[..] {
        return Err(format!("object ids changed meaning: parent {:?} child {:?}", parent.objs, child.objs));
    }
    if child.preds.len() < parent.preds.len() || child.preds[..parent.preds.len()] != parent.preds[..] {
        return Err(format!("predicate ids changed meaning: parent {:?} child {:?}", parent.preds, child.preds));
    }
    Ok(())
}
