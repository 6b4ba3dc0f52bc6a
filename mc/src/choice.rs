//! Exhaustive exploration of the choices of a single threaded execution: which future is polled
//! next, which pending event happens, what is abandoned. Every execution is run anew from the
//! start with a prefix of choices; all choices after the prefix are the first ones.
use crate::seq::key_of;
use crate::util::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub struct Ch {
    prefix: Vec<u8>,
    /// choice and the price of every alternative
    taken: Vec<(u8, Vec<u8>)>,
    pub text: Vec<String>,
}
impl Ch {
    pub fn new(prefix: Vec<u8>) -> Ch {
        Ch { prefix, taken: vec![], text: vec![] }
    }
    /// Picks one of the alternatives, whose prices are given; the first one should be free.
    pub fn pick(&mut self, prices: Vec<u8>) -> usize {
        let i = self.taken.len();
        let c = self.prefix.get(i).copied().unwrap_or(0);
        assert!((c as usize) < prices.len(), "{}", REPLAY);
        self.taken.push((c, prices));
        c as usize
    }
    pub fn say(&mut self, s: impl ToString) {
        self.text.push(s.to_string());
    }
    pub fn steps(&self) -> usize {
        self.taken.len()
    }
    pub fn path(&self) -> Vec<u8> {
        self.taken.iter().map(|t| t.0).collect()
    }
}
const REPLAY: &str = "choices could not be replayed";
pub trait Choosing: Sync + Send {
    fn name(&self) -> String;
    fn class(&self) -> String;
    fn bound(&self) -> u32;
    fn run(&self, c: &mut Ch) -> Result<(), String>;
}
pub fn run_choices(sc: &dyn Choosing, prefix: Vec<u8>) -> (Result<(), String>, Ch) {
    let mut c = Ch::new(prefix);
    let r = guard(|| sc.run(&mut c));
    (r, c)
}
pub fn explore_choices(rep: &Report, scs: &[Box<dyn Choosing>]) {
    let queue: Mutex<Vec<(usize, Vec<u8>)>> = Mutex::new((0..scs.len()).rev().map(|i| (i, vec![])).collect());
    let active = AtomicUsize::new(0);
    let per: Mutex<HashMap<String, u64>> = Default::default();
    let each: Vec<AtomicUsize> = scs.iter().map(|_| AtomicUsize::new(0)).collect();
    rep.count("choice_scenarios", scs.len() as u64);
    par(8, |_| loop {
        if rep.stopped() || rep.late() {
            return;
        }
        let job = {
            let mut q = queue.lock().unwrap();
            let j = q.pop();
            if j.is_some() {
                active.fetch_add(1, Ordering::SeqCst);
            }
            j
        };
        let Some((i, prefix)) = job else {
            if active.load(Ordering::SeqCst) == 0 {
                return;
            }
            std::thread::sleep(std::time::Duration::from_micros(100));
            continue;
        };
        let sc = &*scs[i];
        let from = prefix.len();
        let w = WATCH.enter(sc.class(), format!("{} choices {:?}", sc.name(), prefix));
        let (x, c) = run_choices(sc, prefix);
        drop(w);
        rep.eval();
        rep.states.fetch_add(1, Ordering::Relaxed);
        rep.traces.fetch_add(1, Ordering::Relaxed);
        rep.transitions.fetch_add(c.taken.len() as u64, Ordering::Relaxed);
        let full = c.path();
        rep.distinct_h(fnv(&[sc.name().as_bytes(), &full].concat()));
        rep.sample(|| format!("{}: {}", sc.name(), c.text.join("; ")));
        *per.lock().unwrap().entry(sc.class()).or_default() += 1;
        each[i].fetch_add(1, Ordering::Relaxed);
        rep.max("longest_execution", full.len() as u64);
        if let Err(e) = x {
            if e.contains(REPLAY) {
                rep.count("executions_not_replayable", 1);
            } else {
                rep.violation(
                    format!("{}: {}", sc.class(), key_of(&e)),
                    format!("{}: {} -- after: {}", sc.name(), e, c.text.join("; ")),
                    format!("scenario: {}\nchoices: {}\n{}", sc.name(), full.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "), c.text.join("\n")),
                );
            }
        }
        let mut spent = 0u32;
        let mut next = vec![];
        for (k, (ch, prices)) in c.taken.iter().enumerate() {
            if k >= from {
                for (a, p) in prices.iter().enumerate().skip(*ch as usize + 1) {
                    if spent + *p as u32 <= sc.bound() {
                        let mut v = full[..k].to_vec();
                        v.push(a as u8);
                        next.push((i, v));
                    }
                }
            }
            spent += prices[*ch as usize] as u32;
        }
        queue.lock().unwrap().extend(next);
        active.fetch_sub(1, Ordering::SeqCst);
    });
    rep.out_of_time("choices");
    for (k, n) in per.into_inner().unwrap() {
        rep.count(&format!("executions of {}", k), n);
    }
    let l: Vec<usize> = each.iter().map(|x| x.load(Ordering::Relaxed)).collect();
    rep.max("most_executions_of_one_scenario", l.iter().max().copied().unwrap_or(0) as u64);
    if std::env::var_os("MC_PER").is_some() {
        for (i, n) in l.iter().enumerate() {
            println!("{:8} {}", n, scs[i].name());
        }
    }
}
