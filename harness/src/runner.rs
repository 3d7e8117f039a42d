//! Generic seed runner: worker processes, watchdog, minimiser, replay files, evidence.
use crate::clock::real_now;
use crate::engine::{Stats, Violation};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};

pub trait Model {
    type S: Serialize + DeserializeOwned + Clone + PartialEq;
    fn gen(prop: &str, seed: u64) -> Self::S;
    /// Ok(None): held; Ok(Some): violated; Err: the machinery itself failed
    fn judge(s: &Self::S, stats: &mut Stats) -> Result<Option<Violation>, String>;
    fn shrinks(s: &Self::S) -> Vec<Self::S>;
    fn describe(s: &Self::S) -> Value;
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("NSIM_VERIF").unwrap_or_else(|_| "/verif".into()))
}

/// Is `known: property=<prop> id=<id>` listed in KNOWN_FINDINGS.txt?
pub fn known_finding(prop: &str, id: &str) -> bool {
    let f = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let want = format!("known: property={} id={}", prop, id);
    f.lines().any(|l| l.strip_prefix(&want).map_or(false, |r| r.is_empty() || r.starts_with(' ')))
}

pub fn seed_for(prop: &str, base: u64, i: u64) -> u64 {
    crate::rng::mix(crate::rng::mix(base, crate::rng::hash_bytes(prop.as_bytes())), i)
}

/// One worker: seeds offset, offset+stride, ... < count. Writes `out` when done.
pub fn worker<M: Model>(prop: &str, base: u64, offset: u64, stride: u64, count: u64, deadline_s: f64, out: &str) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let status = format!("{}.status", out);
    let mut sf = std::fs::File::create(&status).unwrap();
    let t0 = real_now();
    let mut stats = Stats::default();
    let mut runs = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut result = json!(null);
    let mut i = offset;
    let mut cut = false;
    while i < count {
        if real_now() - t0 > deadline_s {
            cut = true;
            break;
        }
        use std::os::unix::fs::FileExt;
        let _ = sf.write_all_at(format!("{:<20}", i).as_bytes(), 0);
        let _ = sf.flush();
        let seed = seed_for(prop, base, i);
        let s = M::gen(prop, seed);
        match M::judge(&s, &mut stats) {
            Ok(None) => {}
            Ok(Some(v)) => {
                result = json!({"kind": "violation", "index": i, "seed": seed, "class": v.class, "detail": v.detail});
                break;
            }
            Err(e) => {
                result = json!({"kind": "error", "index": i, "seed": seed, "detail": e});
                break;
            }
        }
        runs += 1;
        if samples.len() < 2 && (i / stride) % 7 == 3 || samples.is_empty() && runs > 20 {
            samples.push(json!({"seed": seed, "scenario": M::describe(&s)}));
        }
        i += stride;
    }
    let d: Vec<u64> = stats.distinct.iter().copied().collect();
    let v = json!({"runs": runs, "cut": cut, "counters": stats.counters, "samples": samples, "result": result});
    crate::sim::done();
    // distinct hashes in a side file (binary): they can be many
    let mut b = Vec::with_capacity(d.len() * 8);
    for x in d {
        b.extend(x.to_le_bytes());
    }
    std::fs::write(format!("{}.distinct", out), b).unwrap();
    std::fs::write(out, serde_json::to_vec(&v).unwrap()).unwrap();
    0
}

fn cpu_seconds(pid: u32) -> f64 {
    // a child of ours; children of the child (simulated servers) are waited for by it
    if let Ok(s) = std::fs::read_to_string(format!("/proc/{}/stat", pid)) {
        if let Some(i) = s.rfind(')') {
            let f: Vec<&str> = s[i + 2..].split(' ').collect();
            let u: f64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0.0);
            let k: f64 = f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0.0);
            return (u + k) / 100.0;
        }
    }
    0.0
}

pub struct Plan {
    pub count: u64,
    pub budget_s: f64,
    pub level_note: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    /// CPU seconds a single run may take before it counts as a hang
    pub hang_s: f64,
}

fn run_child<M: Model>(prop: &str, s: &M::S, hang_s: f64) -> Option<Violation> {
    run_child_h::<M>(prop, s, hang_s).map(|x| x.0)
}

/// ... with the hash of the recorded history, where there is one
fn run_child_h<M: Model>(prop: &str, s: &M::S, hang_s: f64) -> Option<(Violation, Value)> {
    // judge in a fresh process
    let dir = std::env::temp_dir();
    let f = dir.join(format!("nsim-min-{}-{}.json", std::process::id(), prop));
    std::fs::write(&f, serde_json::to_vec(&json!({"property": prop, "scenario": s})).unwrap()).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe)
        .arg("judge")
        .arg(&f)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let r = wait_limited(&mut c, hang_s);
    let _ = std::fs::remove_file(&f);
    match r {
        None => Some((crate::engine::v("hang", format!("no result within {} s of CPU time", hang_s)), json!(null))),
        Some((0, _)) => None,
        Some((1, out)) => {
            let v: Value = serde_json::from_str(out.trim().lines().last()?).ok()?;
            Some((crate::engine::v(v["class"].as_str()?, v["detail"].as_str()?.to_string()), v["history"].clone()))
        }
        Some((2, _)) => None,
        Some((code, _)) => Some((crate::engine::v("crash", format!("process died (status {})", code)), json!(null))),
    }
}

fn wait_limited(c: &mut Child, hang_s: f64) -> Option<(i32, String)> {
    use std::io::Read;
    use std::os::unix::process::ExitStatusExt;
    let t0 = real_now();
    loop {
        match c.try_wait().unwrap() {
            Some(st) => {
                let mut s = String::new();
                if let Some(o) = c.stdout.as_mut() {
                    let _ = o.read_to_string(&mut s);
                }
                return Some((st.code().unwrap_or_else(|| 1000 + st.signal().unwrap_or(0)), s));
            }
            None => {
                if cpu_seconds(c.id()) > hang_s || real_now() - t0 > hang_s * 6.0 {
                    let _ = c.kill();
                    let _ = c.wait();
                    return None;
                }
                std::thread::sleep(std::time::Duration::from_millis(2));
            }
        }
    }
}

pub fn minimise<M: Model>(prop: &str, s: M::S, v: Violation, budget_s: f64, hang_s: f64) -> (M::S, Violation, u64) {
    let t0 = real_now();
    let mut cur = s;
    let mut curv = v;
    let mut tried = 0;
    let hang = if curv.class == "hang" { hang_s.min(10.0) } else { hang_s };
    'outer: loop {
        for cand in M::shrinks(&cur) {
            if real_now() - t0 > budget_s {
                break 'outer;
            }
            tried += 1;
            if let Some(v) = run_child::<M>(prop, &cand, hang) {
                if v.class == curv.class {
                    cur = cand;
                    curv = v;
                    continue 'outer;
                }
            }
        }
        break;
    }
    (cur, curv, tried)
}

pub fn check<M: Model>(prop: &str, tier: &str, base: u64, plan: &Plan) -> i32 {
    let t0 = real_now();
    let nw = std::env::var("NSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64);
    let tmp = std::env::temp_dir().join(format!("nsim-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let shm = Path::new("/dev/shm");
    let scratch = if shm.is_dir() { shm.to_path_buf() } else { std::env::temp_dir() }.join(format!("nsim-{}-{}", prop, std::process::id()));
    std::env::set_var("NSIM_SCRATCH", &scratch);
    let exe = std::env::current_exe().unwrap();
    println!("{}: VERIF_SEED={} tier={} up to {} simulated runs", prop, base, tier, plan.count);
    let mut kids: Vec<(u64, Child, String, f64, String)> = vec![];
    for w in 0..nw {
        let out = tmp.join(format!("w{}.json", w)).to_string_lossy().into_owned();
        let c = Command::new(&exe)
            .arg("worker")
            .args([prop, &base.to_string(), &w.to_string(), &nw.to_string(), &plan.count.to_string(), &plan.budget_s.to_string(), &out])
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        kids.push((w, c, out, 0.0, String::new()));
    }
    let mut dead: Vec<(u64, String)> = vec![]; // (index, class)
    let mut running: HashSet<u64> = (0..nw).collect();
    let mut stop_all = false;
    while !running.is_empty() {
        std::thread::sleep(std::time::Duration::from_millis(50));
        for (w, c, out, mark, last) in kids.iter_mut() {
            if !running.contains(w) {
                continue;
            }
            let cur = std::fs::read_to_string(format!("{}.status", out)).unwrap_or_default();
            match c.try_wait().unwrap() {
                Some(st) => {
                    running.remove(w);
                    if !Path::new(out).exists() && !stop_all {
                        use std::os::unix::process::ExitStatusExt;
                        dead.push((cur.trim().parse().unwrap_or(0), format!("crash|process died: {:?}", st.signal().map(|s| format!("signal {}", s)).unwrap_or(format!("{}", st)))));
                        stop_all = true;
                    } else if let Ok(b) = std::fs::read(&*out) {
                        let v: Value = serde_json::from_slice(&b).unwrap_or(json!(null));
                        if !v["result"].is_null() {
                            stop_all = true;
                        }
                    }
                }
                None => {
                    let cpu = cpu_seconds(c.id());
                    if cur != *last {
                        *last = cur.clone();
                        *mark = cpu;
                    } else if cpu - *mark > plan.hang_s {
                        let _ = c.kill();
                        let _ = c.wait();
                        running.remove(w);
                        dead.push((cur.trim().parse().unwrap_or(0), format!("hang|no result within {} s of CPU time", plan.hang_s)));
                        stop_all = true;
                    }
                }
            }
        }
        if stop_all {
            // let the others finish their current run: violations are ordered by index below, but we
            // do not wait for the whole batch
            for (w, c, _, _, _) in kids.iter_mut() {
                if running.remove(w) {
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
        }
    }
    let mut stats = Stats::default();
    let mut runs = 0;
    let mut samples = vec![];
    let mut first: Option<(u64, Violation)> = None;
    let mut error: Option<String> = None;
    let mut cut = false;
    let mut distinct: HashSet<u64> = HashSet::new();
    for (_, _, out, _, _) in &kids {
        if let Ok(b) = std::fs::read(out) {
            let v: Value = serde_json::from_slice(&b).unwrap();
            runs += v["runs"].as_u64().unwrap();
            cut |= v["cut"].as_bool().unwrap();
            for (k, n) in v["counters"].as_object().unwrap() {
                if k.starts_with("most_") {
                    stats.max(k, n.as_u64().unwrap());
                } else {
                    stats.add(k, n.as_u64().unwrap());
                }
            }
            if samples.len() < 3 {
                samples.extend(v["samples"].as_array().unwrap().iter().take(1).cloned());
            }
            let r = &v["result"];
            if r["kind"] == "violation" {
                let i = r["index"].as_u64().unwrap();
                if first.as_ref().map_or(true, |f| i < f.0) {
                    first = Some((i, crate::engine::v(r["class"].as_str().unwrap(), r["detail"].as_str().unwrap().to_string())));
                }
            } else if r["kind"] == "error" {
                error = Some(format!("run {} (seed {}): {}", r["index"], r["seed"], r["detail"].as_str().unwrap()));
            }
        }
        if let Ok(b) = std::fs::read(format!("{}.distinct", out)) {
            for c in b.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    for (i, c) in dead {
        let (class, d) = c.split_once('|').unwrap();
        if first.as_ref().map_or(true, |f| i < f.0) {
            first = Some((i, crate::engine::v(class, d.to_string())));
        }
    }
    let wall = real_now() - t0;
    let mut code = 0;
    let mut nviol = 0;
    let mut vinfo = json!(null);
    if let Some((i, v)) = first {
        let seed = seed_for(prop, base, i);
        println!("run {} (seed {}): {}: {}", i, seed, v.class, v.detail);
        let s = M::gen(prop, seed);
        let budget = if tier == "quick" { 60.0 } else { 240.0 };
        let (ms, mv, tried) = minimise::<M>(prop, s.clone(), v.clone(), budget, plan.hang_s);
        let dir = verif_dir().join("replays");
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{}-{:016x}.json", prop, seed));
        let write = |sc: &M::S, v: &Violation, min: bool, hist: Value| {
            let doc = json!({"property": prop, "base_seed": base, "run": i, "seed": seed, "class": v.class, "detail": v.detail,
                "minimised": min, "shrink_attempts": tried, "history": hist, "readable": M::describe(sc), "scenario": sc});
            std::fs::write(&path, serde_json::to_vec_pretty(&doc).unwrap()).unwrap();
        };
        // the minimised file must fail the same way in a fresh process
        match run_child_h::<M>(prop, &ms, plan.hang_s) {
            Some((a, h)) if a.class == mv.class => write(&ms, &a, true, h),
            _ => write(&s, &v, false, json!(null)),
        }
        println!("minimised ({} attempts): {}: {}", tried, mv.class, mv.detail);
        println!("{}", serde_json::to_string(&M::describe(&ms)).unwrap());
        println!("replay with: bash /verif/check.sh replay {}", path.display());
        println!("VIOLATION property={} replay={}", prop, path.display());
        vinfo = json!({"seed": seed, "class": mv.class, "detail": mv.detail});
        nviol = 1;
        code = 1;
    } else if let Some(e) = error {
        println!("ERROR property={} {}", prop, e);
        code = 2;
    }
    let nontrivial = distinct.len() as u64;
    let mut faults = serde_json::Map::new();
    let mut other = serde_json::Map::new();
    for (k, n) in &stats.counters {
        if let Some(f) = k.strip_prefix("fault.") {
            faults.insert(f.to_string(), json!(n));
        } else {
            other.insert(k.clone(), json!(n));
        }
    }
    let ev = json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": nontrivial, "rule": plan.rule, "samples": samples,
            "simulated_runs_per_hour": if wall > 0.0 { (runs as f64 / wall * 3600.0) as u64 } else { 0 },
            "simulated_seconds": stats.counters.get("simulated_ns").copied().unwrap_or(0) as f64 / 1e9,
            "faults_injected": faults, "counters": other,
            "stopped_by_time_budget": cut, "worker_processes": nw,
            "components_running_real_code": plan.real, "components_simulated": plan.stub,
            "violation": vinfo
        },
        "assumptions": [plan.level_note],
        "wall_s": wall, "violations": nviol
    });
    let ed = verif_dir().join("evidence");
    std::fs::create_dir_all(&ed).unwrap();
    let mut f = std::fs::File::create(ed.join(format!("{}.json", prop))).unwrap();
    f.write_all(&serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&scratch);
    if code == 0 {
        println!("{}: held on {} runs, {} distinct histories, {:.1} s", prop, runs, nontrivial, wall);
    }
    code
}

pub fn judge_file<M: Model>(doc: &Value) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let s: M::S = match serde_json::from_value(doc["scenario"].clone()) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("bad scenario: {}", e);
            return 2;
        }
    };
    let mut st = Stats::default();
    let r = M::judge(&s, &mut st);
    crate::sim::done();
    match r {
        Ok(None) => 0,
        Ok(Some(v)) => {
            // library warnings may be on stdout: the verdict is the last line
            let hist = st.history.map(|h| format!("{:016x}", h));
            if let (Some(a), Some(b)) = (doc["history"].as_str(), &hist) {
                println!("history {}: {} the recorded one", b, if a == b { "identical to" } else { "differs from" });
            }
            println!("\n{}", json!({"class": v.class, "detail": v.detail, "history": hist}));
            1
        }
        Err(e) => {
            eprintln!("{}", e);
            2
        }
    }
}
