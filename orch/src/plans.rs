//! For every property: which runs to make. A run is a pure function of (seed, property, index).
use crate::docs::Corpus;
use crate::rng::Rng;
use serde_json::{json, Value};

pub const NAT: u8 = 1;
pub const WASM: u8 = 2;
pub const BOTH: u8 = 3;

pub struct Plan {
    pub target: u8,
    pub j: Value,
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub targets: u8,
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", quick: 24_000, thorough: 1_500_000, level: "exploration", targets: BOTH, rule: "a run is a history of calls on one module or process that began pristine, over a family of near-identical, rejected, large and corrupted documents, or a long service of one mix; every answer is compared with the one the same call gets alone; non-trivial: at least two calls, a history not seen before" },
    Prop { id: "C02", quick: 14_000, thorough: 900_000, level: "exploration", targets: BOTH, rule: "a run is 2-4 caller threads under a seeded scheduler that switches them at basic blocks, memory accesses, allocations and host steps, or a call entered from inside another's host step; non-trivial: at least one switch or re-entry took place, by a schedule not seen before" },
    Prop { id: "C03", quick: 16_000, thorough: 900_000, level: "exploration", targets: BOTH, rule: "a run repeats calls under another hash seed, clock, environment, block placement with dirty memory, stack position and thread, or under the other build of the same source; non-trivial: the environment differed from the reference in a way the call consumed, documents and environment not seen before" },
    Prop { id: "C04", quick: 2_000, thorough: 40_000, level: "exploration", targets: BOTH, rule: "a run is a long service of one mix of calls; bytes, host handles and stack held are measured after 4, 16, 64, ... rounds; or after each of seven calls of 20-80 kinds in turn, of which those that rise are then served for long; non-trivial: at least 140 calls, of a mix not seen before" },
    Prop { id: "C05", quick: 18_000, thorough: 400_000, level: "fault_enumeration", targets: WASM, rule: "a run refuses allocations at chosen points of calls on a warmed module, one or all from a point on; non-trivial: at least one refusal hit a call, document and points not seen before" },
    Prop { id: "C06", quick: 30_000, thorough: 600_000, level: "fault_enumeration", targets: BOTH, rule: "a run makes a host step fail or throw at a chosen point of calls; non-trivial: at least one such fault hit a call, document and points not seen before" },
    Prop { id: "C07", quick: 20_000, thorough: 500_000, level: "fault_enumeration", targets: BOTH, rule: "a run is a history on a warmed module in which some calls are cut short by a refused allocation, a host exception or a stop at a basic block, and the others are compared with the answers they get alone; non-trivial: at least one call was cut short, history not seen before" },
    Prop { id: "C08", quick: 9_000, thorough: 600_000, level: "exploration", targets: NAT, rule: "a run pauses one or two of 2-5 caller threads at a chosen step inside a call and requires every other call to finish within a step bound; non-trivial: a pause took place inside a call while others had work left, schedule not seen before" },
    Prop { id: "C09", quick: 2_000, thorough: 40_000, level: "exploration", targets: BOTH, rule: "a run is a long service of one mix of calls; the steps of a fixed and of a fresh probe call are counted after 4, 16, 64, ... rounds; or after each of seven calls of 20-80 kinds in turn, of which those that rise are then served for long; non-trivial: at least 140 calls, of a mix not seen before" },
    Prop { id: "C10", quick: 26_000, thorough: 2_500_000, level: "exploration", targets: BOTH, rule: "a run is a history of whole, torn, corrupted, nested and unusual documents on one module; every call must end within its step budget in an answer or a structured rejection, and answer as it does alone; non-trivial: at least one document was damaged or unusual, history not seen before" },
    Prop { id: "C11", quick: 30_000, thorough: 900_000, level: "exploration", targets: WASM, rule: "a run is a history of calls on one module whose caller keeps every answer and overwrites some; kept answers are compared after every call with what they were, new ones with the answer alone; non-trivial: at least two calls and one overwritten answer, history not seen before" },
    Prop { id: "C12", quick: 12_000, thorough: 700_000, level: "exploration", targets: BOTH, rule: "a run is a history or an overlap of calls on a simulated operating system and JavaScript host that record every attempt to write, open, start or change anything; non-trivial: at least two calls, history not seen before" },
];

struct B {
    docs: Vec<String>,
}
impl B {
    fn add(&mut self, s: String) -> usize {
        if let Some(i) = self.docs.iter().position(|d| *d == s) {
            return i;
        }
        self.docs.push(s);
        self.docs.len() - 1
    }
}

fn sched(r: &mut Rng) -> Value {
    // swarm: every run its own mix of preemption points
    let hi = *r.pick(&[60u64, 400, 3_000, 20_000, 100_000]);
    json!({"seed": r.next() >> 12, "lo": *r.pick(&[1u64, 5, 30]), "hi": hi,
        "sp": *r.pick(&[0u64, 40, 128, 230]), "ap": *r.pick(&[0u64, 0, 200, 3000]), "hp": *r.pick(&[0u64, 0, 500, 5000]), "np": *r.pick(&[0u64, 0, 6, 60]), "pk": u64::from(r.pct(25))})
}
fn env(r: &mut Rng, all: bool) -> Value {
    let mut e = json!({});
    if all || r.pct(60) {
        e["hash"] = json!(1 + (r.next() >> 12));
    }
    if r.pct(60) {
        e["place"] = json!(1 + (r.next() >> 12));
    }
    if r.pct(50) {
        e["clock"] = json!(1 + (r.next() >> 12));
    }
    if r.pct(50) {
        e["getenv"] = json!(1 + (r.next() >> 12));
    }
    if r.pct(40) {
        e["stack"] = json!(r.log(1, 3000));
    }
    e
}
fn f(r: &mut Rng) -> u64 {
    if r.pct(70) {
        0
    } else {
        1
    }
}
fn warm_tour(c: &Corpus, b: &mut B, r: &mut Rng) -> Vec<Value> {
    let mut w = Vec::new();
    for d in &c.tour {
        let i = b.add(d.clone());
        w.push(json!([0, i]));
        if r.pct(15) {
            w.push(json!([1, i]));
        }
    }
    w
}

/// A family of documents for one history.
fn family(c: &Corpus, r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    let style = r.below(14);
    let base = if style == 13 { c.sized(r, 3_000) } else if style == 9 { c.torn(r) } else if style >= 10 { c.pooled(r) } else { c.doc(r) };
    v.push(base.clone());
    while v.len() < n {
        let d = match style {
            0..=4 | 13 => {
                let b = r.pick(&v).clone();
                c.sibling(&b, r)
            }
            5 => c.torn(r),
            6 => c.unusual(r),
            10..=12 => c.pooled(r),
            _ => match r.below(3) {
                0 => c.sibling(&base, r),
                1 => c.torn(r),
                _ => c.doc(r),
            },
        };
        v.push(d);
    }
    if r.pct(4) {
        v.push(c.sized(r, 30_000));
    }
    if r.pct(2) {
        v.push(c.wordy(r, 300));
    }
    if r.pct(4) {
        v.push(c.stretched(r));
    }
    v
}
fn history(c: &Corpus, r: &mut Rng, b: &mut B, nd: usize, no: usize) -> Vec<Value> {
    let fam: Vec<usize> = family(c, r, nd).into_iter().map(|d| b.add(d)).collect();
    let mono = if r.pct(50) { Some(f(r)) } else { None };
    (0..no).map(|_| json!([mono.unwrap_or_else(|| f(r)), *r.pick(&fam)])).collect()
}
fn mix(c: &Corpus, r: &mut Rng, b: &mut B) -> Vec<Value> {
    // the calls of one round of a long service; the first is the probe
    let mut ops = Vec::new();
    let n = r.range(1, 5);
    for i in 0..n {
        let d = match if i == 0 { r.below(3) } else { r.below(8) } {
            0 | 1 => c.unique(r),
            2 => c.small(r),
            3 => c.small(r),
            4 => {
                let s = c.small(r);
                c.mutate(&s, r, 1)
            }
            5 => c.unusual(r),
            6 => c.unique(r) + " (",
            _ => {
                let s = c.small(r);
                c.sibling(&s, r)
            }
        };
        ops.push(json!([f(r), b.add(d)]));
    }
    ops
}
fn point(r: &mut Rng) -> (&'static str, i64) {
    match r.below(10) {
        0 => ("abs", r.below(6) as i64),
        1 => ("abs", -(1 + r.below(6) as i64)),
        // most of a call is parsing: reading the tokens is over early
        2 | 3 => ("at", r.log(100, 1_000_000) as i64),
        _ => ("at", r.below(1_000_000) as i64),
    }
}
fn fault(r: &mut Rng, t: usize, o: usize, k: &str) -> Value {
    let (n, v) = point(r);
    let mut x = json!({"t": t, "o": o, "k": k});
    x[n] = json!(v);
    x
}

pub fn make(id: &str, seed: u64, i: u64, c: &Corpus, thorough: bool) -> Plan {
    let mut r = Rng::keyed(seed, id, i);
    let r = &mut r;
    let mut b = B { docs: vec![] };
    let (target, j) = match id {
        "C01" => {
            if i < 10 {
                // one kind of tiny call, more often than sixteen bits count, and what others get then
                let k = [(0, "SELECT 1"), (1, "SELECT 1"), (0, "SELECT ("), (1, "'"), (0, ""), (1, ""), (0, "SELECT __U__"), (0, "SELECT '"), (0, "SELECT a AS b;"), (1, "/*")][i as usize];
                let d = b.add(k.1.into());
                let p = b.add("SELECT a, 'b' FROM t WHERE c >= 1 -- d\n".into());
                let mut ops = vec![json!([k.0, d]); 5];
                ops.push(json!([0, p]));
                ops.push(json!([1, p]));
                (if i == 8 { NAT } else { WASM }, json!({"threads": [ops], "rounds": if i == 8 { 1_024 } else if thorough { 65_536 } else { 16_384 }, "check": {"eq": 1}}))
            } else if i % 64 == 21 || (10..16).contains(&i) {
                // something, long ago, counted in calls
                let n = if i < 16 { 65_531 + r.below(3) } else { (1u64 << r.range(4, 10)) - r.below(6) };
                let mut ops = Vec::new();
                for _ in 0..r.range(1, 3) {
                    ops.push(json!([f(r), b.add(if r.pct(50) { r.pick(&c.omni).clone() } else { c.pooled(r) })]));
                }
                ops.push(json!([i % 2, b.add(r.pick(&["SELECT 1", "", "SELECT (", "x;"]).to_string()), n]));
                for _ in 0..6 {
                    ops.push(json!([f(r), b.add(if r.pct(60) { r.pick(&c.omni).clone() } else { c.pooled(r) })]));
                }
                (WASM, json!({"threads": [ops], "check": {"eq": 1}}))
            } else if (16..22).contains(&i) {
                // more different words of one kind than sixteen bits count, then some of them again
                let k = i - 16;
                let per = 2_000;
                let mut ops: Vec<Value> = (0..34).map(|x| json!([u64::from(k == 5), b.add(c.flood(k, x * per, per))])).collect();
                for x in [0, per / 2, 33 * per] {
                    ops.push(json!([0, b.add(c.flood(k, x, 40))]));
                }
                (WASM, json!({"threads": [ops], "check": {"eq": 1}}))
            } else if (22..32).contains(&i) {
                // a document of megabytes, and small ones after it
                let k = *r.pick(&[0u64, 1, 5, 6, 8, 9, 13]);
                let big = b.add(c.huge(k, (1 << 20) / if k == 13 { 3 } else { 1 } + r.log(1, 1_200_000) as usize, r));
                let mut ops: Vec<Value> = (0..6).map(|_| json!([f(r), b.add(if r.pct(60) { r.pick(&c.omni).clone() } else { c.pooled(r) })])).collect();
                ops[r.idx(3)] = json!([i % 2, big]);
                (WASM, json!({"threads": [ops], "check": {"eq": 1}}))
            } else if i % 400 == 17 {
                // a document a hundred times the usual size, and small ones after it
                let n = r.log(60_000, 300_000) as usize;
                let big = b.add(if r.pct(50) { c.sized(r, n) } else { c.long(r, n) });
                let mut ops: Vec<Value> = (0..r.range(4, 8)).map(|_| json!([f(r), if r.pct(25) { big } else if r.pct(50) { b.add(r.pick(&c.omni).clone()) } else { b.add(c.pooled(r)) }])).collect();
                ops[r.idx(2)] = json!([f(r), big]);
                (WASM, json!({"threads": [ops], "check": {"eq": 1}}))
            } else if i % 16 == 11 {
                // everything after everything: a long tour of the language, whole and torn
                let no = r.log(40, 240);
                let p = *r.pick(&[5u64, 30, 70]);
                let ops = (0..no).map(|_| json!([if r.pct(p) { 1 } else { 0 }, b.add(if r.pct(20) { r.pick(&c.omni).clone() } else { c.pooled(r) })])).collect::<Vec<_>>();
                (if r.pct(75) { WASM } else { NAT }, json!({"threads": [ops], "check": {"eq": 1}}))
            } else if i % 64 == 13 {
                // many words: whatever is remembered of them must be of the right one
                let mut ops = Vec::new();
                for _ in 0..r.range(3, 10) {
                    let d = if r.pct(50) { c.wordy(r, 1500) } else { c.pooled(r) };
                    ops.push(json!([if r.pct(20) { 1 } else { 0 }, b.add(d)]));
                }
                (if r.pct(60) { WASM } else { NAT }, json!({"threads": [ops], "check": {"eq": 1}}))
            } else if i % 64 == 7 {
                let ops = mix(c, r, &mut b);
                (if r.pct(60) { WASM } else { NAT }, json!({"threads": [ops], "rounds": *r.pick(&[64u64, 256, 1024]), "check": {"eq": 1}}))
            } else {
                let nd = r.range(1, 5) as usize;
                let no = r.log(2, 16) as usize;
                let ops = history(c, r, &mut b, nd, no);
                (if r.pct(55) { WASM } else { NAT }, json!({"threads": [ops], "check": {"eq": 1}}))
            }
        }
        "C02" => {
            let nt = r.range(2, 4) as usize;
            let kind = r.below(10);
            if kind < 7 {
                let nd = r.range(1, 4) as usize;
                let docs = if r.pct(5) { (0..nd).map(|_| c.deep(r, 180)).collect() } else { family(c, r, nd) };
                let fam: Vec<usize> = docs.into_iter().map(|d| b.add(d)).collect();
                let th: Vec<Value> = (0..nt).map(|_| Value::Array((0..r.range(1, 3)).map(|_| json!([f(r), *r.pick(&fam)])).collect())).collect();
                let mut p = json!({"threads": th, "sched": sched(r), "check": {"eq": 1}});
                if r.pct(20) {
                    let x = fault(r, 0, 0, "reenter");
                    p["faults"] = json!([x]);
                    p["faults"][0]["f"] = json!(f(r));
                    p["faults"][0]["d"] = json!(*r.pick(&fam));
                }
                if r.pct(15) {
                    p["warm"] = Value::Array(warm_tour(c, &mut b, r));
                }
                (NAT, p)
            } else {
                let n = r.range(1, 4) as usize;
                let ops = history(c, r, &mut b, 3, n);
                let nd = b.docs.len();
                let mut fs = Vec::new();
                for o in 0..n {
                    if r.pct(70) {
                        let mut x = fault(r, 0, o, "reenter");
                        x["f"] = json!(f(r));
                        x["d"] = json!(r.idx(nd));
                        fs.push(x);
                    }
                }
                (WASM, json!({"threads": [ops], "faults": fs, "check": {"eq": 1}}))
            }
        }
        "C03" => {
            if i % 8 == 3 {
                // the other build of the same source
                let n = 12;
                let mut ops: Vec<Value> = (0..n)
                    .map(|_| {
                        let d = match r.below(20) {
                            0..=4 => c.doc(r),
                            5 => c.stretched(r),
                            6..=7 => c.cut(r),
                            8..=12 => c.torn(r),
                            13 => c.wordy(r, 400),
                            14 => r.pick(&c.omni).clone(),
                            _ => c.pooled(r),
                        };
                        json!([f(r), b.add(d)])
                    })
                    .collect();
                if i % 128 == 67 {
                    let d = if r.pct(50) { c.sized(r, 50_000) } else { c.long(r, 50_000) };
                    ops = vec![json!([0, b.add(d.clone())]), json!([1, b.add(d)])];
                }
                (BOTH, json!({"threads": [ops], "hashes": 1}))
            } else {
                let k = r.range(2, 6);
                // little stack left: what goes deep is what could notice
                let low = r.pct(8);
                let ops: Vec<Value> = (0..k)
                    .map(|_| {
                        let d = match r.below(20) {
                            _ if low => c.deep(r, 90),
                            0..=4 => c.doc(r),
                            5 => c.stretched(r),
                            6..=8 => c.cut(r),
                            9..=11 => c.torn(r),
                            12 => c.wordy(r, 400),
                            13 => c.deep(r, 90),
                            14 => r.pick(&c.omni).clone(),
                            _ => c.pooled(r),
                        };
                        json!([f(r), b.add(d)])
                    })
                    .collect();
                if low || r.pct(30) {
                    let mut e = env(r, false);
                    e["place"] = json!(1 + (r.next() >> 12));
                    if low {
                        e["stack"] = json!(r.range(8_000, 24_000));
                    } else if r.pct(50) {
                        e["stack"] = json!(r.log(100, 24_000));
                    }
                    return fin(WASM, json!({"threads": [ops], "env": e, "check": {"eq": 1}}), b);
                }
                let nt = if r.pct(25) { 2 } else { 1 };
                let th: Vec<Value> = (0..nt).map(|_| Value::Array(ops.clone())).collect();
                (NAT, json!({"threads": th, "env": env(r, true), "sched": {"seed": 1, "lo": 100_000_000u64, "hi": 200_000_000u64}, "check": {"eq": 1}}))
            }
        }
        "C04" | "C09" if i % 6 == 2 => {
            // one thing wrong, anywhere in the grammar, or an end where something had begun
            let ops: Vec<Value> = (0..r.range(150, 300)).map(|_| json!([if r.pct(95) { 0 } else { 1 }, b.add(if r.pct(60) { c.probe(r) } else { c.cut(r) })])).collect();
            let check = if id == "C04" { json!({"conserve": 1, "sift": 1}) } else { json!({"age": 1, "sift": 1}) };
            (if r.pct(70) { WASM } else { NAT }, json!({"threads": [ops], "rounds": 256, "check": check}))
        }
        "C04" if i % 3 == 1 => {
            // everything once in a while: what grows with one kind of document only
            let ops: Vec<Value> = (0..r.range(20, 80))
                .map(|_| {
                    let d = match r.below(20) {
                        0..=4 => c.unique(r),
                        5..=9 => c.torn(r),
                        10 => c.sized(r, 8_000),
                        11 => c.long(r, 8_000),
                        12 => c.deep(r, 60),
                        _ => c.pooled(r),
                    };
                    json!([f(r), b.add(d)])
                })
                .collect();
            (if r.pct(70) { WASM } else { NAT }, json!({"threads": [ops], "rounds": 256, "check": {"conserve": 1, "sift": 1}}))
        }
        "C04" => {
            let ops = mix(c, r, &mut b);
            (if r.pct(60) { WASM } else { NAT }, json!({"threads": [ops], "rounds": *r.pick(&[256u64, 256, 256, 1024]), "check": {"conserve": 1}}))
        }
        "C09" if i % 3 == 1 => {
            // everything once in a while: what grows with one kind of document only
            let ops: Vec<Value> = (0..r.range(20, 80))
                .map(|_| {
                    let d = match r.below(20) {
                        0..=4 => c.unique(r),
                        5..=9 => c.torn(r),
                        10 => c.sized(r, 8_000),
                        11 => c.long(r, 8_000),
                        12 => c.deep(r, 60),
                        _ => c.pooled(r),
                    };
                    json!([f(r), b.add(d)])
                })
                .collect();
            (if r.pct(70) { WASM } else { NAT }, json!({"threads": [ops], "rounds": 256, "check": {"age": 1, "sift": 1}}))
        }
        "C09" => {
            let ops = mix(c, r, &mut b);
            (if r.pct(50) { WASM } else { NAT }, json!({"threads": [ops], "rounds": *r.pick(&[256u64, 256, 256, 1024]), "check": {"age": 1}}))
        }
        "C05" => {
            let w = warm_tour(c, &mut b, r);
            let d = match r.below(16) {
                0 => c.sized(r, 20_000),
                1 | 2 => c.torn(r),
                3 => c.sized(r, 2_000),
                4 => c.long(r, 6_000),
                5 => c.wordy(r, 200),
                6..=8 => c.pooled(r),
                9 => c.chain(r, 300),
                10 | 11 => c.stretched(r),
                _ => c.doc(r),
            };
            let big = d.len() > 4_000;
            // block after block of the library that asks for memory, those that rarely do above all
            let site = if r.pct(25) { *r.pick(&[4u64, 12, 12, 40, 40, 200, 4_000_000_000]) } else { 0 };
            let k = if site > 0 && !big { r.range(8, 30) as usize } else if big { 3 } else { r.range(6, 20) as usize };
            let d = b.add(d);
            let e = f(r);
            let ops: Vec<Value> = (0..k).map(|_| json!([e, d])).collect();
            let start = r.below(400);
            let walk = r.pct(50);
            let big_ones = r.pct(25);
            // one after the other of the blocks the library itself asks for
            let own = !big_ones && r.pct(40);
            // or a block asked for where the call has not been before
            let novel = !big_ones && !own && r.pct(60);
            let first = r.below(1_000_000);
            let pace = r.log(1, 30_000);
            let (min, re) = (r.log(8, 8_192), r.below(2));
            let fs: Vec<Value> = (0..k)
                .map(|o| {
                    if site > 0 {
                        return json!({"t": 0, "o": o, "k": "alloc", "site": site, "abs": o, "len": *r.pick(&[1u64, 1, 1, 1, 2, 1_000_000_000])});
                    }
                    if big_ones {
                        // the larger the block, the sooner there is no room for it
                        let n = if r.pct(70) { o as u64 } else { r.log(1, 60) - 1 };
                        return json!({"t": 0, "o": o, "k": "alloc", "min": min, "re": re, "abs": n, "len": *r.pick(&[1u64, 1, 2, 1_000_000_000])});
                    }
                    if novel {
                        return json!({"t": 0, "o": o, "k": "alloc", "nv": 1 + (first + o as u64 * pace) % 1_000_000, "len": *r.pick(&[1u64, 1, 1, 2, 1_000_000_000])});
                    }
                    if own {
                        return json!({"t": 0, "o": o, "k": "alloc", "min": 1, "re": 2, "at": (first + o as u64 * pace) % 1_000_000, "len": *r.pick(&[1u64, 1, 1, 1, 2, 1_000_000_000])});
                    }
                    let mut x = if walk { json!({"t": 0, "o": o, "k": "alloc", "abs": start + o as u64}) } else { fault(r, 0, o, "alloc") };
                    x["len"] = json!(*r.pick(&[1u64, 1, 1, 2, 5, 1_000_000_000]));
                    x
                })
                .collect();
            (WASM, json!({"threads": [ops], "warm": w, "faults": fs, "check": {}}))
        }
        "C06" if i % 3 == 1 => {
            // the same document again and again, the host failing at one step after the other
            let d = match r.below(10) {
                0 => c.doc(r),
                1 => c.torn(r),
                2 => c.wordy(r, 60),
                3 => c.stretched(r),
                _ => c.pooled(r),
            };
            let d = b.add(d);
            let e = f(r);
            let k = r.range(30, 90);
            let (first, pace) = (r.below(1_000_000), r.log(300, 20_000));
            let kk = if r.pct(85) { "host_err" } else { "host_panic" };
            let len = *r.pick(&[1u64, 1, 1, 2, 1_000_000_000]);
            let fs: Vec<Value> = (0..k).map(|o| json!({"t": 0, "o": o, "k": kk, "at": (first + o * pace) % 1_000_000, "len": len})).collect();
            let ops: Vec<Value> = (0..k).map(|_| json!([e, d])).collect();
            (NAT, json!({"threads": [ops], "faults": fs, "check": {}}))
        }
        "C06" => {
            let k = r.range(1, 6) as usize;
            let nat = r.pct(55);
            let ops = if r.pct(if nat { 60 } else { 30 }) {
                history(c, r, &mut b, 2, k)
            } else if r.pct(50) {
                (0..k)
                    .map(|_| {
                        let d = if r.pct(70) { c.pooled(r) } else { c.unusual(r) };
                        json!([f(r), b.add(d)])
                    })
                    .collect()
            } else {
                let d = b.add(c.doc(r));
                let e = f(r);
                (0..k).map(|_| json!([e, d])).collect()
            };
            let fs: Vec<Value> = (0..k)
                .map(|o| {
                    let kk = if nat {
                        if r.pct(80) {
                            "host_err"
                        } else {
                            "host_panic"
                        }
                    } else {
                        "host_throw"
                    };
                    let mut x = fault(r, 0, o, kk);
                    if nat && r.pct(35) {
                        // values of one kind, or long ones, are what the host fails on
                        let of = *r.pick(&[1u64, 2, 2, 2, 3, 4, 5]);
                        let min = if of == 2 && r.pct(50) { r.log(2, 300) } else { 0 };
                        let n = if min > 0 { r.below(3) } else { r.log(1, 200) - 1 };
                        x = json!({"t": 0, "o": o, "k": kk, "of": of, "min": min, "abs": n});
                    }
                    if nat && r.pct(40) {
                        x["len"] = json!(*r.pick(&[2u64, 3, 1_000_000_000]));
                    }
                    x
                })
                .collect();
            (if nat { NAT } else { WASM }, json!({"threads": [ops], "faults": fs, "check": {}}))
        }
        "C07" => {
            let nat = r.pct(20);
            let mut w = if r.pct(30) { warm_tour(c, &mut b, r) } else { vec![] };
            let mut n = r.range(2, 10) as usize;
            let ops = if r.pct(8) {
                // what is still open when a call is cut adds up
                n = r.range(4, 9) as usize;
                (0..n).map(|_| json!([0, b.add(c.deep(r, 70))])).collect()
            } else if r.pct(50) {
                history(c, r, &mut b, 3, n)
            } else {
                // anything may follow what was cut short
                n = r.log(4, 24) as usize;
                let p = *r.pick(&[10u64, 50, 90]);
                (0..n)
                    .map(|_| {
                        let d = if r.pct(70) { c.pooled(r) } else { r.pick(&c.tour).clone() };
                        json!([if r.pct(p) { 1 } else { 0 }, b.add(d)])
                    })
                    .collect()
            };
            let mut fs = Vec::new();
            let mut left = 6;
            for o in 0..n {
                if left > 0 && o + 1 < n && r.pct(45) {
                    left -= 1;
                    let k = if nat { *r.pick(&["host_panic", "host_panic", "host_err"]) } else { *r.pick(&["alloc", "alloc", "host_throw", "trip", "trip"]) };
                    let mut x = fault(r, 0, o, k);
                    if k == "alloc" {
                        x["len"] = json!(*r.pick(&[1u64, 1, 1_000_000_000]));
                    }
                    if k == "alloc" && r.pct(20) {
                        x = json!({"t": 0, "o": o, "k": "alloc", "min": r.log(8, 8_192), "re": r.below(2), "abs": r.log(1, 40) - 1, "len": x["len"]});
                    } else if (k == "alloc" || k == "trip") && r.pct(25) {
                        // where the call has not been before
                        x = json!({"t": 0, "o": o, "k": k, "nv": r.range(1, 1_000_000), "plus": r.log(1, 30) - 1, "len": x["len"]});
                    } else if (k == "alloc" || k == "trip") && r.pct(40) {
                        // where memory that outlives the call has just been written, if any is
                        x["sh"] = json!(r.log(1, 200));
                        x["plus"] = json!(r.log(1, 100) - 1);
                        if r.pct(50) {
                            x.as_object_mut().unwrap().remove("abs");
                            x["at"] = json!(999_999);
                        }
                    }
                    fs.push(x);
                }
            }
            // the call that was cut short is often tried again
            let mut ops = ops;
            for o in 1..n {
                if fs.iter().any(|x| x["o"] == json!(o - 1)) && !fs.iter().any(|x| x["o"] == json!(o)) {
                    if r.pct(40) {
                        ops[o] = ops[o - 1].clone();
                    } else if r.pct(70) {
                        ops[o] = json!([r.below(2), b.add(r.pick(&c.omni).clone())]);
                    }
                }
            }
            if r.pct(30) {
                w.extend(ops.iter().cloned());
            }
            (if nat { NAT } else { WASM }, json!({"threads": [ops], "warm": w, "served": r.range(1, 2), "faults": fs, "check": {"eq": 1}}))
        }
        "C08" => {
            let nt = r.range(2, 5) as usize;
            let w = warm_tour(c, &mut b, r);
            let nd = r.range(1, 3) as usize;
            let fam: Vec<usize> = family(c, r, nd).into_iter().map(|d| b.add(d)).collect();
            let th: Vec<Value> = (0..nt).map(|_| Value::Array((0..r.range(1, 3)).map(|_| json!([f(r), *r.pick(&fam)])).collect())).collect();
            let mut fs = Vec::new();
            for t in 0..r.range(1, 2) as usize {
                let n = th[t].as_array().unwrap().len();
                let o = r.idx(n);
                let mut x = fault(r, t, o, "stall");
                if r.pct(45) {
                    // where memory that all callers share has just been touched, if any is
                    if r.pct(50) {
                        x["sh"] = json!(r.log(1, 80));
                    } else {
                        // just been written
                        x["sw"] = json!(r.log(1, 20));
                    }
                    x.as_object_mut().unwrap().remove("abs");
                    x["at"] = json!(999_999);
                } else if r.pct(40) {
                    // where this call has not been before
                    x = json!({"t": t, "o": o, "k": "stall", "nv": r.log(1, 700), "at": 999_999});
                }
                fs.push(x);
            }
            let mut p = json!({"threads": th, "warm": w, "served": r.range(1, 2), "faults": fs, "sched": sched(r), "check": {}});
            if r.pct(50) {
                p["no_resume"] = json!(1);
            }
            (NAT, p)
        }
        "C10" => {
            if i < 28 {
                let d = b.add(c.huge(i / 2, 65_500 + r.below(600) as usize, r));
                let p = b.add(c.plain(r));
                (if i % 8 == 0 { NAT } else { WASM }, json!({"threads": [[[i % 2, d], [0, p]]], "check": {"eq": 1, "total": 1}}))
            } else if i % 8 == 3 {
                // one thing wrong, anywhere in the grammar, again and again
                let ops: Vec<Value> = (0..r.range(100, 250)).map(|_| json!([if r.pct(95) { 0 } else { 1 }, b.add(c.probe(r))])).collect();
                (if r.pct(50) { WASM } else { NAT }, json!({"threads": [ops], "check": {"direct": 1, "total": 1}}))
            } else if i % 160 == 9 {
                let mut ops = Vec::new();
                for _ in 0..r.range(2, 5) {
                    let s = c.small(r);
                    let d = if r.pct(50) { c.mutate(&s, r, 2) } else { c.unusual(r) };
                    ops.push(json!([f(r), b.add(d)]));
                }
                ops.push(json!([0, b.add("SELECT 1;".into())]));
                (if r.pct(70) { WASM } else { NAT }, json!({"threads": [ops], "rounds": *r.pick(&[256u64, 1024]), "check": {"eq": 1, "total": 1}}))
            } else {
                let n = r.range(3, 8);
                let mut ops = Vec::new();
                for _ in 0..n {
                    let d = c.torn(r);
                    ops.push(json!([f(r), b.add(d)]));
                }
                if r.pct(2) {
                    let d = c.long(r, 60_000);
                    ops.push(json!([f(r), b.add(d)]));
                }
                if r.pct(3) {
                    let d = c.sized(r, 40_000);
                    let d = if r.pct(50) { c.mutate(&d, r, 1) } else { d };
                    ops.push(json!([f(r), b.add(d)]));
                }
                let d = b.add(c.plain(r));
                ops.push(json!([0, d]));
                (if r.pct(80) { WASM } else { NAT }, json!({"threads": [ops], "check": {"eq": 1, "total": 1}}))
            }
        }
        "C11" => {
            let nd = r.range(1, 4) as usize;
            let no = r.log(2, 10) as usize;
            let ops = history(c, r, &mut b, nd, no);
            let mut fs = Vec::new();
            for o in 0..no {
                if r.pct(50) {
                    fs.push(json!({"t": 0, "o": o, "k": "scribble"}));
                }
            }
            (WASM, json!({"threads": [ops], "faults": fs, "check": {"eq": 1, "own": 1}}))
        }
        "C12" => {
            if i % 16 == 3 {
                let ops: Vec<Value> = (0..r.range(60, 150)).map(|_| json!([if r.pct(90) { 0 } else { 1 }, b.add(if r.pct(40) { c.pooled(r) } else { c.probe(r) })])).collect();
                (if r.pct(50) { WASM } else { NAT }, json!({"threads": [ops], "check": {"direct": 1, "quiet": 1}}))
            } else if r.pct(50) {
                let no = r.log(2, 40) as usize;
                let ops = if no > 10 {
                    (0..no).map(|_| json!([f(r), b.add(if r.pct(70) { c.pooled(r) } else { c.torn(r) })])).collect()
                } else {
                    history(c, r, &mut b, 3, no)
                };
                (WASM, json!({"threads": [ops], "check": {"quiet": 1}}))
            } else {
                let nt = r.range(1, 3) as usize;
                let fam: Vec<usize> = family(c, r, 3).into_iter().map(|d| b.add(d)).collect();
                let th: Vec<Value> = (0..nt).map(|_| Value::Array((0..r.range(1, 5)).map(|_| json!([f(r), *r.pick(&fam)])).collect())).collect();
                (NAT, json!({"threads": th, "sched": sched(r), "env": env(r, false), "check": {"quiet": 1}}))
            }
        }
        _ => panic!("no such property"),
    };
    fin(target, j, b)
}

fn fin(target: u8, mut j: Value, b: B) -> Plan {
    j["docs"] = json!(b.docs);
    if j.get("env").is_none() {
        j["env"] = json!({});
    }
    if j.get("sched").is_none() {
        j["sched"] = json!({});
    }
    if j.get("faults").is_none() {
        j["faults"] = json!([]);
    }
    Plan { target, j }
}
