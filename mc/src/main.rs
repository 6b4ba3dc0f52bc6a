#![allow(dead_code)]
mod abandon;
mod api;
mod cachex;
mod choice;
mod conc;
mod conc2;
mod crash;
mod fault;
mod model;
mod obs;
mod replay;
mod sched;
mod seq;
mod seq2;
mod spec;
mod sys;
mod traitview;
mod util;
mod world;
use obs::*;
use util::*;
fn main() {
    util::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false) || a.iter().any(|x| x == "--thorough");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let ctx = Ctx { prop: a[1].clone(), thorough, seed };
    let rep = Report::new(ctx);
    let none = Depth { cube: true, queries: false, deltas: false, ids: false, stack: false, few: false };
    let b = |d: Depth| Depth { cube: false, ..d };
    let fin = |r: &Report| {
        let (rule, asm) = spec::spec(&r.ctx.prop);
        r.finish("model_checking", rule, asm)
    };
    let code = match a[1].as_str() {
        "C01" => { let d = Depth { queries: true, ..none }; seq::c01_02_03(&rep, d, b(d)); fin(&rep) }
        "C02" => { let d = Depth { ids: true, ..none }; traitview::run(&rep); seq::c01_02_03(&rep, d, b(d)); fin(&rep) }
        "C03" => { let d = Depth { deltas: true, ..none }; traitview::run(&rep); seq::c01_02_03(&rep, d, b(d)); fin(&rep) }
        "C05" => { seq2::c05(&rep); fin(&rep) }
        "C06" => { seq2::c06(&rep); fin(&rep) }
        "C07" => { seq2::c07(&rep); fin(&rep) }
        "C08" => { seq2::c08(&rep); fin(&rep) }
        "C09" => { seq2::c09(&rep); fin(&rep) }
        "C10" => { seq2::c10(&rep); fin(&rep) }
        "C11" => { conc::c11(&rep, &|| fin(&rep)); fin(&rep) }
        "C12" => { with_watchdog(&rep, 60, &|| fin(&rep), || { seq2::c12_seq(&rep); conc::c12_races(&rep); }); fin(&rep) }
        "C17" | "C18" => { cachex::c17_18(&rep, &|| fin(&rep)); fin(&rep) }
        "C23" => { abandon::c23(&rep, &|| fin(&rep)); fin(&rep) }
        "C16" => { fault::c16(&rep, &|| fin(&rep)); fin(&rep) }
        "C13" | "C14" => { crash::c13_14(&rep); fin(&rep) }
        "C04" => { with_watchdog(&rep, 60, &|| fin(&rep), || { seq2::c04_seq(&rep); conc2::c04_races(&rep); }); fin(&rep) }
        "C15" => { crash::c15_crash(&rep); conc2::c15(&rep, &|| fin(&rep)); fin(&rep) }
        "C19" => { conc2::c19(&rep, &|| fin(&rep)); fin(&rep) }
        "C20" => { seq2::c20(&rep); fin(&rep) }
        "C21" => { seq2::c21(&rep); fin(&rep) }
        "C22" => { traitview::run(&rep); seq2::c22(&rep); fin(&rep) }
        "replay" => replay::run(a.get(2).map(|x| x.as_str()).unwrap_or("")),
        "child-canon" => seq2::child_canon(&a[2..]),
        _ => 2,
    };
    std::process::exit(code);
}
