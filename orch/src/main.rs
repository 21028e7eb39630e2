//! Decides one property: makes the runs of a seed, checks them, minimises and reports a violation.
mod docs;
mod gen;
mod minimise;
mod plans;
mod pool;
mod rng;

use plans::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

struct Agg {
    runs: u64,
    nontrivial: u64,
    calls: u64,
    steps: u64,
    host_ops: u64,
    switches: u64,
    shared: u64,
    lock_waits: u64,
    allocs: u64,
    fired: BTreeMap<String, u64>,
    kinds: BTreeMap<String, u64>,
    targets: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    scheds: HashSet<u64>,
    samples: Vec<Value>,
    max_age: u64,
}

fn h64(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^ (h >> 31)
}
fn tname(t: u8) -> &'static str {
    match t {
        NAT => "native",
        WASM => "wasm",
        _ => "both",
    }
}
fn tcode(s: &str) -> u8 {
    match s {
        "native" => NAT,
        "wasm" => WASM,
        _ => BOTH,
    }
}

fn nontrivial(id: &str, p: &Plan, st: &Value) -> bool {
    let fired = |k: &str| st["fired"][k].as_u64().unwrap_or(0) > 0;
    let calls = st["calls"].as_u64().unwrap_or(0);
    match id {
        "C02" => fired("thread_switch") || fired("reentrant_call"),
        "C03" => fired("other_build") || fired("hash_seed_changed") || fired("block_moved_and_dirtied") || fired("clock_jump") || fired("env_changed"),
        "C04" | "C09" => calls >= 140,
        "C05" => fired("allocation_refused"),
        "C06" => fired("host_refused_value") || fired("host_exception"),
        "C07" => fired("allocation_refused") || fired("host_exception") || fired("cut_short_at_a_step") || fired("host_refused_value"),
        "C08" => fired("caller_stalled") && fired("thread_switch"),
        "C11" => calls >= 2 && fired("answer_scribbled"),
        "C10" => calls >= 1 && !p.j["docs"].as_array().unwrap().is_empty(),
        _ => calls >= 2,
    }
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => check(&a),
        Some("replay") => replay(&a),
        Some("log") => log(&a),
        Some("docs") => {
            let seed = arg(&a, "--seed").map_or(1, |s| s.parse().unwrap());
            let c = docs::Corpus::load(&arg(&a, "--corpus").unwrap(), seed).unwrap();
            let mut r = rng::Rng::keyed(seed, "docs", 0);
            for _ in 0..arg(&a, "-n").map_or(100, |s| s.parse().unwrap()) {
                println!("{}", json!(match a[1].as_str() { "made" => c.made(&mut r), "pool" => c.pooled(&mut r), "probe" => c.probe(&mut r), _ => c.torn(&mut r) }));
            }
            0
        }
        Some("plan") => {
            let c = docs::Corpus::load(&arg(&a, "--corpus").unwrap(), arg(&a, "--seed").map_or(1, |s| s.parse().unwrap())).unwrap();
            let seed = arg(&a, "--seed").map_or(1, |s| s.parse().unwrap());
            let first: u64 = a[2].parse().unwrap();
            for i in first..first + arg(&a, "-n").map_or(1, |s| s.parse().unwrap()) {
                let p = make(&a[1], seed, i, &c, false);
                println!("{} {}", tname(p.target), p.j);
            }
            0
        }
        _ => {
            eprintln!("usage: orch check ID | replay FILE | log ID");
            2
        }
    };
    std::process::exit(code);
}

fn paths(a: &[String]) -> pool::Paths {
    pool::Paths { nat: arg(a, "--nat"), node: arg(a, "--worker").expect("--worker"), pkg: arg(a, "--pkg") }
}

/// Replays a file written by `check`: exit 1 if the run fails again in the same way.
fn replay(a: &[String]) -> i32 {
    let t = match std::fs::read_to_string(&a[1]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", a[1], e);
            return 2;
        }
    };
    let f: Value = serde_json::from_str(&t).unwrap();
    let p = paths(a);
    let t = tcode(f["target"].as_str().unwrap());
    if (t & NAT != 0 && p.nat.is_none()) || (t & WASM != 0 && p.pkg.is_none()) {
        eprintln!("the build this run needs is not there");
        return 2;
    }
    let v = pool::Runner::new(&p).run(t, &f["plan"]);
    if v.get("harness").is_some() {
        eprintln!("{}", v["harness"]);
        return 2;
    }
    match v["v"]["class"].as_str() {
        Some(c) => {
            println!("{} {}", c, v["v"]["detail"].as_str().unwrap_or(""));
            if Some(c) == f["class"].as_str() {
                println!("VIOLATION property={} replay={}", f["property"].as_str().unwrap_or("?"), a[1]);
                1
            } else {
                println!("a different failure than recorded ({})", f["class"]);
                1
            }
        }
        None => {
            println!("the run does not fail");
            0
        }
    }
}

/// Event log of the first N runs, for comparing executions with each other.
fn log(a: &[String]) -> i32 {
    let id = &a[1];
    let n: u64 = arg(a, "-n").map_or(200, |s| s.parse().unwrap());
    let seed: u64 = arg(a, "--seed").map_or(1, |s| s.parse().unwrap());
    let c = docs::Corpus::load(&arg(a, "--corpus").unwrap(), seed).unwrap();
    let p = paths(a);
    let jobs: u64 = arg(a, "-j").map_or(8, |s| s.parse().unwrap());
    let next = AtomicU64::new(0);
    let out = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..jobs {
            s.spawn(|| {
                let mut r = pool::Runner::new(&p);
                loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= n {
                        break;
                    }
                    let pl = make(id, seed, i, &c, false);
                    let v = r.run(pl.target, &pl.j);
                    out.lock().unwrap().insert(i, v.to_string());
                }
            });
        }
    });
    for (i, v) in out.into_inner().unwrap() {
        println!("{} {}", i, v);
    }
    0
}

fn check(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let id = a[1].clone();
    let prop = match PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no check for {}", id);
            return 2;
        }
    };
    let seed: u64 = arg(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = arg(a, "--tier").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let n: u64 = arg(a, "-n").and_then(|s| s.parse().ok()).unwrap_or(if thorough { prop.thorough } else { prop.quick });
    let wall: u64 = arg(a, "--wall").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3600 } else { 300 });
    let jobs: usize = arg(a, "-j").and_then(|s| s.parse().ok()).unwrap_or(8);
    let p = paths(a);
    let have = (if p.nat.is_some() { NAT } else { 0 }) | (if p.pkg.is_some() { WASM } else { 0 });
    if prop.targets & have == 0 {
        eprintln!("nothing this check runs on could be built");
        return 2;
    }
    let c = match docs::Corpus::load(&arg(a, "--corpus").unwrap(), seed) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let out_dir = arg(a, "--out").unwrap_or("/verif/replays".into());
    eprintln!("{}: seed {} tier {} runs {}", id, seed, tier, n);

    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let bad_at = AtomicU64::new(u64::MAX);
    let agg = Mutex::new(Agg {
        runs: 0,
        nontrivial: 0,
        calls: 0,
        steps: 0,
        host_ops: 0,
        switches: 0,
        shared: 0,
        lock_waits: 0,
        allocs: 0,
        fired: BTreeMap::new(),
        kinds: BTreeMap::new(),
        targets: BTreeMap::new(),
        distinct: HashSet::new(),
        scheds: HashSet::new(),
        samples: vec![],
        max_age: 0,
    });
    let bad: Mutex<Vec<(u64, u8, Value, Value)>> = Mutex::new(vec![]);
    let harness: Mutex<Vec<String>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..jobs {
            s.spawn(|| {
                let mut r = pool::Runner::new(&p);
                while !stop.load(Relaxed) {
                    if t0.elapsed().as_secs() >= wall {
                        break;
                    }
                    let i = next.fetch_add(1, Relaxed);
                    // after a failure only the runs before it are still of interest
                    if i >= n || i > bad_at.load(Relaxed) {
                        break;
                    }
                    let pl = make(&id, seed, i, &c, thorough);
                    if pl.target & !have != 0 {
                        continue;
                    }
                    let v = r.run(pl.target, &pl.j);
                    if let Some(e) = v.get("harness") {
                        harness.lock().unwrap().push(format!("run {}: {}", i, e));
                        stop.store(true, Relaxed);
                        break;
                    }
                    let st = &v["stats"];
                    {
                        let mut g = agg.lock().unwrap();
                        let g = &mut *g;
                        g.runs += 1;
                        let u = |k: &str| st[k].as_u64().unwrap_or(0);
                        g.calls += u("calls");
                        g.steps += u("steps");
                        g.host_ops += u("host_ops");
                        g.switches += u("switches");
                        g.shared += u("shared_accesses");
                        g.lock_waits += u("lock_waits");
                        g.allocs += u("allocs");
                        g.max_age = g.max_age.max(u("calls"));
                        if let Some(o) = st["fired"].as_object() {
                            for (k, x) in o {
                                *g.fired.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
                            }
                        }
                        if let Some(o) = st["kinds"].as_object() {
                            for (k, x) in o {
                                *g.kinds.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
                            }
                        }
                        *g.targets.entry(tname(pl.target)).or_insert(0) += 1;
                        let sh = h64(&format!("{}{}", st["sched"], pl.j["docs"]));
                        if st["sched"].as_str().is_some_and(|x| !x.is_empty()) {
                            g.scheds.insert(sh);
                        }
                        if nontrivial(&id, &pl, st) && g.distinct.insert(h64(&format!("{}{}{}{}{}{}", pl.j["docs"], pl.j["threads"], pl.j["faults"], pl.j["env"], st["sched"], st["steps"]))) {
                            g.nontrivial += 1;
                            if (g.samples.len() < 2 || (g.samples.len() < 4 && i > n / 2)) && pl.j["docs"].to_string().len() < 1500 {
                                g.samples.push(json!({"run": i, "on": tname(pl.target), "plan": pl.j, "observed": st}));
                            }
                        }
                    }
                    if v.get("v").is_some() {
                        bad_at.fetch_min(i, Relaxed);
                        bad.lock().unwrap().push((i, pl.target, pl.j, v));
                        break;
                    }
                }
            });
        }
    });
    let harness = harness.into_inner().unwrap();
    if !harness.is_empty() {
        for h in harness {
            eprintln!("{}", h);
        }
        return 2;
    }
    let search_s = t0.elapsed().as_secs_f64();

    // findings already on record
    let mut known_lines = vec![];
    let mut known_checked = 0;
    let known: Vec<Value> = arg(a, "--known").and_then(|f| std::fs::read_to_string(f).ok()).map_or(vec![], |t| {
        t.lines()
            .filter_map(|l| l.trim().strip_prefix("known: "))
            .filter_map(|l| serde_json::from_str::<Value>(l).ok())
            .filter(|k| k["property"] == json!(id))
            .collect()
    });
    let mut r = pool::Runner::new(&p);
    for k in &known {
        let t = tcode(k["target"].as_str().unwrap_or("wasm"));
        if t & !have != 0 {
            continue;
        }
        known_checked += 1;
        let v = r.run(t, &expand(&k["plan"]));
        if v["v"]["class"].is_string() {
            known_lines.push(format!("KNOWN-FINDING: property={} {}", id, k["what"].as_str().unwrap_or("")));
        }
    }
    let mut bad = bad.into_inner().unwrap();
    bad.sort_by_key(|b| b.0);
    let mut code = 0;
    let mut viol = 0;
    if let Some((i, t, plan, v)) = bad.first() {
        viol = bad.len();
        r.fresh();
        let (secs, max) = if thorough { (300, 6000) } else { (60, 1500) };
        let mut m = minimise::Min::new(&mut r, *t, plan, v, secs, max);
        m.r.limit = std::time::Duration::from_secs(30);
        m.go();
        let (best, last, tries) = (m.best.clone(), m.last.clone(), m.tries);
        r.limit = std::time::Duration::from_secs(200);
        r.fresh();
        let again = r.run(*t, &best);
        let exact = again["v"] == last["v"];
        let (plan, v) = if again["v"]["class"] == last["v"]["class"] { (best, again) } else { (plan.clone(), v.clone()) };
        let _ = std::fs::create_dir_all(&out_dir);
        let path = format!("{}/{}-s{}-r{}.json", out_dir, id, seed, i);
        let f = json!({"property": id, "seed": seed, "run": i, "target": tname(*t), "class": v["v"]["class"], "detail": v["v"]["detail"],
            "minimised_in": tries, "replayed_exactly_in_a_fresh_process": exact, "trace": v["switches"], "plan": plan});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&f).unwrap());
        println!("{}: run {} of seed {} ({}): {}: {}", id, i, seed, tname(*t), v["v"]["class"].as_str().unwrap_or(""), v["v"]["detail"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", id, path);
        code = 1;
    } else {
        for l in &known_lines {
            println!("{}", l);
        }
    }
    let g = agg.into_inner().unwrap();
    let wall_s = t0.elapsed().as_secs_f64();
    let per_hour = |x: u64| (x as f64 * 3600.0 / search_s.max(0.001)).round() as u64;
    let ev = json!({
        "property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": prop.level, "wall_s": wall_s, "violations": viol,
        "coverage": {
            "evaluations": g.runs,
            "distinct_nontrivial": g.nontrivial,
            "rule": prop.rule,
            "samples": g.samples,
            "simulated_runs_per_hour": per_hour(g.runs),
            "seeds_per_hour": per_hour(g.runs),
            "seeds_note": "every run has its own seed, derived from the one above and its index",
            "runs_by_build": g.targets,
            "library_calls": g.calls,
            "calls_by_outcome_alone": g.kinds,
            "longest_history_calls": g.max_age,
            "simulated_steps": g.steps,
            "simulated_time_note": "the library has no clock of its own; simulated time is counted in steps: basic blocks, memory accesses (native), allocations and host steps",
            "host_steps": g.host_ops,
            "thread_switches": g.switches,
            "accesses_to_process_wide_state": g.shared,
            "waits_on_locks": g.lock_waits,
            "faults_injected": g.fired,
            "distinct_schedules": g.scheds.len(),
            "distinct_schedules_measure": "hash of every (thread, step, next thread) decision and fault position, together with the documents",
            "known_findings_rechecked": known_checked,
            "known_findings_seen": known_lines.len(),
            "real_code": "all of /repo/src in both builds; regex, serde, std; in the wasm build also wasm-bindgen, serde-wasm-bindgen and the generated JavaScript glue",
            "stubs": "native build: wasm-bindgen and serde-wasm-bindgen (values as a plain tree), futex, clock, getrandom, getenv, allocator placement; wasm build: allocator refusals, the JavaScript host around the glue"
        },
        "assumptions": [
            "the answer of a call is compared as a value: the order of an object's keys is not part of it",
            "the reference is the same call, alone, on a pristine process or module of the same build"
        ]
    });
    if let Some(e) = arg(a, "--evidence") {
        if let Err(x) = std::fs::write(&e, serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("{}: {}", e, x);
            return 2;
        }
    }
    eprintln!("{}: {} runs ({} distinct, non-trivial), {} calls, {} steps, {:.1} s", id, g.runs, g.nontrivial, g.calls, g.steps, wall_s);
    if code == 0 && g.nontrivial == 0 {
        eprintln!("no run was non-trivial: the check decides nothing here");
        return 2;
    }
    code
}

/// `{"repeat": ["(", 400]}` and the like inside a recorded document.
fn expand(p: &Value) -> Value {
    let mut p = p.clone();
    if let Some(ds) = p["docs"].as_array_mut() {
        for d in ds {
            if let Some(parts) = d.as_array().cloned() {
                let mut s = String::new();
                for x in parts {
                    if let Some(t) = x.as_str() {
                        s.push_str(t);
                    } else {
                        s.push_str(&x[0].as_str().unwrap_or("").repeat(x[1].as_u64().unwrap_or(1) as usize));
                    }
                }
                *d = json!(s);
            }
        }
    }
    p
}
