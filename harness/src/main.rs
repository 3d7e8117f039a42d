mod clock;
mod engine;
mod files;
mod gen;
mod refmodel;
mod rng;
mod runner;
mod sim;
mod web;
mod webgen;

use runner::*;
use serde_json::{json, Value};

pub struct Engine;
impl Model for Engine {
    type S = engine::Scenario;
    fn gen(prop: &str, seed: u64) -> Self::S {
        engine::gen_scenario(prop, seed)
    }
    fn judge(s: &Self::S, st: &mut engine::Stats) -> Result<Option<engine::Violation>, String> {
        engine::judge(s, st)
    }
    fn shrinks(s: &Self::S) -> Vec<Self::S> {
        engine::shrinks(s)
    }
    fn describe(s: &Self::S) -> Value {
        let w: Vec<String> = s.words.iter().take(40).map(|w| format!("{}/{}/{}", w.0, w.1, w.2)).collect();
        let t: String = s.text().chars().take(600).collect();
        json!({"query": t, "words": w, "word_count": s.words.len(), "depth": format!("{:?}", s.depth), "limit": format!("{:?}", s.limit), "schedule": s.schedule})
    }
}

pub struct Web;
impl Model for Web {
    type S = web::Scn;
    fn gen(prop: &str, seed: u64) -> Self::S {
        webgen::gen(prop, seed)
    }
    fn judge(s: &Self::S, st: &mut engine::Stats) -> Result<Option<engine::Violation>, String> {
        web::judge(s, st)
    }
    fn shrinks(s: &Self::S) -> Vec<Self::S> {
        webgen::shrinks(s)
    }
    fn describe(s: &Self::S) -> Value {
        webgen::describe(s)
    }
}

pub struct Files;
impl Model for Files {
    type S = files::FScn;
    fn gen(prop: &str, seed: u64) -> Self::S {
        files::gen(prop, seed)
    }
    fn judge(s: &Self::S, st: &mut engine::Stats) -> Result<Option<engine::Violation>, String> {
        files::judge(s, st)
    }
    fn shrinks(s: &Self::S) -> Vec<Self::S> {
        files::shrinks(s)
    }
    fn describe(s: &Self::S) -> Value {
        files::describe(s)
    }
}

const WEB_REAL: &str = "the unmodified noodle-webapp binary (release): noodle library, warp, hyper, tungstenite, tokio runtime with all its worker threads, mio";
const WEB_STUB: &str = "the operating system below libc: thread scheduling, futexes, clocks, epoll, sockets and network, directory and file reads, randomness; the clients (seeded state machines)";
const ENGINE_REAL: &str = "noodle library: parser, expression compiler, matcher, query evaluator (unmodified, release build)";
const ENGINE_STUB: &str = "clock (virtual), caller (seeded pause/resume driver)";

fn plan(prop: &str, tier: &str) -> Plan {
    let q = tier != "thorough";
    let n = |a: u64, b: u64| if q { a } else { b };
    let (count, rule) = match prop {
        "Q01" => (n(20_000, 600_000), "one run = a seeded word list, query and pause/resume schedule; distinct = (query, positions of all pauses in results and clock reads); a run is non-trivial because it is always evaluated both paused and unpaused and compared"),
        "Q02" | "Q03" => (n(12_000, 900_000), "one run = a seeded word list, query and schedule, compared with the reference enumeration; distinct = (query, pause positions)"),
        "Q04" => (n(25_000, 600_000), "one run = an unlimited run and limited runs (paused, iterator) of the same query; distinct = (query, pause positions)"),
        "Q05" => (n(20_000, 200_000), "one run = a query under a clock that moves at every read; distinct = (query, pause positions)"),
        "Q06" => (n(30_000, 900_000), "one run = a recorded result stream checked for the order relation; distinct = (query, pause positions)"),
        _ => (n(1000, 10000), ""),
    };
    if prop.starts_with('W') {
        return Plan {
            count: match prop {
                "W01" => n(4000, 200_000),
                "W02" => n(6000, 300_000),
                "W03" => n(4000, 200_000),
                "W04" => n(3000, 150_000),
                "W05" => n(3000, 150_000),
                "W06" => n(5000, 250_000),
                _ => n(6000, 300_000),
            },
            budget_s: if q { 100.0 } else { 800.0 },
            level_note: "Seeded search over schedules, clients and faults: a clean batch is evidence, not proof. The simulated OS (SimOS) models sockets, timers and threads; its model and the reference evaluator are trusted.",
            rule: "one run = one simulated server life: seeded dictionaries, clients, network, clock and thread schedule; distinct = hash of the sequence of scheduling decisions",
            real: WEB_REAL,
            stub: WEB_STUB,
            hang_s: 100.0,
        };
    }
    if prop.starts_with('L') || prop.starts_with('C') {
        let l = prop.starts_with('L');
        return Plan {
            count: n(if l { 16_000 } else { 30_000 }, 900_000),
            budget_s: if q { 80.0 } else { 800.0 },
            level_note: "Seeded search over inputs and faults: a clean batch is evidence, not proof. The simulated OS (SimOS) and the reference loader and evaluator are trusted.",
            rule: if l { "one run = one word-list file loaded under seeded short, interrupted and failing reads and damage; distinct = hash of the complete recorded history" } else { "one run = one execution of the command-line tool under seeded read and write splitting, interruption and failure; distinct = hash of the complete recorded history" },
            real: if l { "noodle::load_wordlist with std's buffered reading and the zstd library, in a process of its own" } else { "the unmodified noodle command-line binary (release)" },
            stub: "the operating system below libc: open, read, write, clocks, allocation failure",
            hang_s: 100.0,
        };
    }
    Plan {
        count,
        budget_s: if q { 240.0 } else { 800.0 },
        level_note: "Seeded search over inputs, schedules and faults: a clean batch is evidence, not proof. The reference model and the simulator are trusted.",
        rule,
        real: ENGINE_REAL,
        stub: ENGINE_STUB,
        hang_s: 40.0,
    }
}

/// Known finding of Q05 (see KNOWN_FINDINGS.txt): one fixed scenario, outside the seeded search.
const PROBE: &str = "(a.*b.*|c.*d.*|e.*f.*|g.*h.*|i.*j.*|k.*l.*){12}";
fn probe_q05() -> i32 {
    let id = "preparation-ignores-deadline";
    match engine::probe_preparation(PROBE, 1000, None) {
        Ok(gap) if gap > 0.5 => {
            let what = format!(
                "the preparation of the phrase search for `{}` over 1000 words used {:.1} s of CPU without looking at the clock, with a deadline running",
                PROBE, gap
            );
            if known_finding("Q05", id) {
                println!("KNOWN-FINDING: property=Q05 {} ({})", what, id);
                0
            } else {
                let f = verif_dir().join("replays").join("Q05-preparation.json");
                let _ = std::fs::create_dir_all(f.parent().unwrap());
                let _ = std::fs::write(&f, json!({"property": "Q05", "probe": id, "detail": what}).to_string());
                println!("{}", what);
                println!("VIOLATION property=Q05 replay={}", f.display());
                1
            }
        }
        Ok(_) => 0,
        Err(e) => {
            println!("ERROR probe: {}", e);
            2
        }
    }
}

fn selftest() -> i32 {
    let mut checked = 0u64;
    let mut yes = 0u64;
    for i in 0..3000u64 {
        let sc = engine::gen_scenario("Q02", rng::mix(77, i));
        let mut r = rng::Rng::new(i);
        for l in &sc.lines {
            for _ in 0..6 {
                let mut t = vec![];
                for _ in 0..r.range(1, 2) {
                    if sc.words.is_empty() {
                        continue;
                    }
                    t.extend(refmodel::normalise(&sc.words[r.below(sc.words.len())].0));
                }
                if t.len() > 8 && l.fuzz.unwrap_or(0) > 1 {
                    t.truncate(6);
                }
                t.truncate(if l.fuzz.unwrap_or(0) == 0 && i % 4 == 0 { 90 } else { 12 });
                checked += 1;
                if let Err(e) = refmodel::selfcheck(l, &t) {
                    println!("{}", e);
                    return 2;
                }
                if refmodel::LineRef::new(l).map_or(false, |x| x.must.iter().all(|a| a.matches(&t))) {
                    yes += 1;
                }
            }
        }
    }
    println!("selftest: {} comparisons of the two reference matchers agree ({} positive)", checked, yes);
    0
}

fn run_check<M: Model>(prop: &str) -> i32 {
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut p = plan(prop, &tier);
    if let Some(c) = std::env::var("NSIM_COUNT").ok().and_then(|s| s.parse().ok()) {
        p.count = c;
    }
    if let Some(c) = std::env::var("NSIM_BUDGET").ok().and_then(|s| s.parse().ok()) {
        p.budget_s = c;
    }
    check::<M>(prop, &tier, base, &p)
}

fn run_worker<M: Model>(a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    worker::<M>(&a[2], n(3), n(4), n(5), n(6), a[7].parse().unwrap(), &a[8])
}

fn run_gen<M: Model>(a: &[String]) -> i32 {
    let base: u64 = a[3].parse().unwrap();
    for i in 0..a[4].parse::<u64>().unwrap() {
        let s = M::gen(&a[2], seed_for(&a[2], base, i));
        println!("{}", serde_json::to_string(&M::describe(&s)).unwrap());
    }
    0
}

/// Write the scenario of one seed as a replay file.
fn run_file<M: Model>(a: &[String]) -> i32 {
    let seed = seed_for(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
    println!("{}", json!({"property": a[2], "scenario": M::gen(&a[2], seed)}));
    0
}

macro_rules! by_kind {
    ($prop:expr, $f:ident, $($arg:expr),*) => {
        match $prop.chars().next() {
            Some('W') => $f::<Web>($($arg),*),
            Some('L') | Some('C') => $f::<Files>($($arg),*),
            _ => $f::<Engine>($($arg),*),
        }
    };
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "check" => {
            let prop = &a[2];
            let c = by_kind!(prop, run_check, prop);
            if prop == "Q05" && c == 0 {
                probe_q05()
            } else {
                c
            }
        }
        "worker" => by_kind!(a[2], run_worker, &a),
        "judge" | "replay" | "history" => {
            let doc: Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            if doc["probe"] == "preparation-ignores-deadline" {
                std::process::exit(probe_q05());
            }
            let prop = doc["property"].as_str().unwrap_or("?");
            if cmd == "history" {
                let h = if prop.starts_with('W') {
                    web::simulate(&serde_json::from_value(doc["scenario"].clone()).unwrap()).unwrap()
                } else {
                    files::simulate(&serde_json::from_value(doc["scenario"].clone()).unwrap(), 1000).unwrap()
                };
                for l in &h.lines {
                    let text = if ["R", "O", "P"].contains(&l.k.as_str()) {
                        let d = sim::unhex(l.a.rsplit(' ').next().unwrap());
                        format!("{} {:?}", l.a.split(' ').next().filter(|_| l.k == "R").unwrap_or(""), String::from_utf8_lossy(&d))
                    } else {
                        l.a.clone()
                    };
                    println!("{:.6} {} {}", l.t as f64 / 1e9, l.k, text);
                }
                println!("end {} code {} print {:016x}", h.end, h.code, h.print);
                sim::done();
                std::process::exit(0);
            }
            let c = by_kind!(prop, judge_file, &doc);
            if cmd == "replay" && c == 1 {
                println!("VIOLATION property={} replay={}", prop, a[2]);
            }
            c
        }
        "gen" => by_kind!(a[2], run_gen, &a),
        "file" => by_kind!(a[2], run_file, &a),
        "gap" => {
            println!("{:?}", engine::probe_preparation(&a[2], a[3].parse().unwrap_or(0), std::fs::read(&a[3]).ok().map(|_| noodle::load_wordlist(&a[3]).unwrap().iter().map(|w| (w.text.to_string(), w.tranche, w.score)).collect())));
            0
        }
        "selftest" => selftest(),
        _ => {
            eprintln!("usage: nsim check|worker|judge|replay|history|selftest|gen|file ...");
            2
        }
    };
    std::process::exit(code);
}
