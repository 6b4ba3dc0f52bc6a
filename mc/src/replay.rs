//! `mc replay FILE`: runs the history or schedule of a replay file once more.
use crate::api::*;
use crate::obs::*;
use crate::sched::*;
use crate::world::*;
use crate::util::guard;

pub fn run(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            println!("{}: {}", path, e);
            return 2;
        }
    };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.to_string());
    if let (Some(name), Some(s)) = (get("scenario: "), get("schedule: ")) {
        for th in [false, true] {
            let lists: [fn(bool) -> Vec<Box<dyn Scenario>>; 5] = [crate::conc2::c04_scenarios, crate::conc::c11_scenarios, crate::conc::c12_scenarios, crate::conc2::c15_scenarios, crate::conc2::c19_scenarios];
            for l in lists.iter().map(|f| f(th)).chain([crate::cachex::thread_scenarios(th, false), crate::cachex::thread_scenarios(th, true)]) {
                if let Some(sc) = l.iter().find(|x| x.name() == name) {
                    let (r, p) = run_once(&**sc, parse_schedule(&s));
                    println!("{}\nschedule {}", name, show(&p));
                    return tell(r);
                }
            }
        }
        println!("no scenario is called {}", name);
        return 2;
    }
    let (Some(f), Some(sc), Some(ops)) = (get("flavor="), get("scene="), get("ops=")) else {
        println!("the file names no history that can be run by itself:\n{}", text);
        return 2;
    };
    let Some(f) = Flavor::parse(&f) else {
        println!("store kind {}?", f);
        return 2;
    };
    let d = Depth { cube: true, queries: true, deltas: true, ids: true, stack: true, few: false };
    let mut w = World::new(f, &if sc.is_empty() { Scene::default() } else { scene(&sc) }, d);
    let r = guard(|| {
        for o in ops.split("; ").filter(|x| !x.is_empty()) {
            println!("{}", o);
            w.step(&Op::parse(o))?;
        }
        w.step(&Op::Obs)
    });
    tell(r)
}
fn tell(r: Result<(), String>) -> i32 {
    match r {
        Ok(()) => {
            println!("held");
            0
        }
        Err(e) => {
            println!("failed: {}", e);
            1
        }
    }
}
