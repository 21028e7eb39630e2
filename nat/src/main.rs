//! Native half of the simulator: runs plans (one JSON object per line on stdin), one forked
//! process per plan, so that every run starts from a library nobody has called yet.
mod alloc;
mod canon;
mod prng;
mod sched;

use sched::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::sync::atomic::Ordering::*;
use wasm_bindgen::host::Act;
use wasm_bindgen::JsValue;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

const STACK: usize = 256 << 20;

#[derive(Clone, Debug, PartialEq)]
struct Out {
    class: &'static str, // "answer" | "rejected" | "aborted"
    hash: String,
    show: String,
    shape: bool,
}

struct Ref {
    out: Option<Out>, // None: the call did not come back (no progress or the process died)
    why: String,
    steps: u64,
    hosts: u64,
}

/// Steps a lone call may take. Far above anything the library needs; a call over it is stuck.
fn budget(doc: &str) -> u64 {
    let n = doc.len() as u64;
    60_000_000 + n * 60_000
}

fn raw_call(f: usize, doc: String) -> std::thread::Result<Result<JsValue, JsValue>> {
    // half of a surrogate pair, which the WebAssembly host sends as the replacement character
    let doc = if doc.contains('\u{E000}') { doc.replace('\u{E000}', "\u{FFFD}") } else { doc };
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        if f == 0 {
            bq2cst::parse(doc)
        } else {
            bq2cst::tokenize(doc)
        }
    }))
}

fn call(f: usize, doc: &str) -> Out {
    let d = doc.to_string();
    set_active(true);
    let r = raw_call(f, d);
    set_active(false);
    outcome(f, r)
}

fn outcome(f: usize, r: std::thread::Result<Result<JsValue, JsValue>>) -> Out {
    match r {
        Ok(Ok(v)) => mk("answer", &v, canon::answer_ok(f, &v)),
        Ok(Err(v)) => mk("rejected", &v, canon::rejection_ok(&v)),
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "panic".into()
            };
            Out { class: "aborted", hash: String::new(), show: m.chars().take(300).collect(), shape: false }
        }
    }
}
fn mk(class: &'static str, v: &JsValue, shape: bool) -> Out {
    let mut h = canon::H::new();
    canon::hash(v, &mut h);
    let mut s = String::new();
    canon::show(v, &mut s, 600);
    if s.len() > 600 {
        s = s.chars().take(600).collect::<String>() + "...";
    }
    Out { class, hash: h.done(), show: s, shape }
}
fn same(a: &Out, b: &Out) -> bool {
    a.class == b.class && a.hash == b.hash
}

static mut PIPE: i32 = -1;
fn emit(v: &Value) -> ! {
    set_active(false);
    let s = v.to_string();
    unsafe {
        let mut off = 0;
        let b = s.as_bytes();
        while off < b.len() {
            let n = libc::write(PIPE, b[off..].as_ptr() as *const _, b.len() - off);
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
        libc::_exit(0)
    }
}
fn stats(s: &Sim) -> Value {
    let mut f = s.fired.clone();
    if s.rand_reads > 0 && s.hash_seed != 0 {
        f.insert("hash_seed_changed", s.rand_reads);
    }
    let sh = alloc::SHIFTED.load(Relaxed);
    if sh > 0 {
        f.insert("block_moved_and_dirtied", sh);
    }
    if s.switches > 0 {
        f.insert("thread_switch", s.switches);
    }
    json!({"steps": s.step, "switches": s.switches, "sched": format!("{:016x}", s.sched_hash),
        "shared_accesses": s.static_hits, "lock_waits": s.futex_waits, "host_ops": s.host_ops,
        "clock_reads": s.clock_reads, "getenv_reads": s.getenv_reads, "long": s.calls, "fired": f})
}
fn violated(class: &str, detail: String) -> ! {
    set_active(false);
    let s = sim();
    let sw: Vec<Value> = s.rec.iter().map(|r| json!([r.0, r.1, r.2, r.3])).collect();
    let t = tid();
    let op = if t < s.th.len() { s.th[t].op } else { 0 };
    emit(&json!({"v": {"class": class, "detail": detail, "t": t, "o": op}, "stats": stats(s), "switches": sw}))
}

fn new_sim(n: usize) -> &'static mut Sim {
    let (lo, hi) = static_range();
    let th = (0..n)
        .map(|_| Th {
            st: St::Run,
            lstep: 0,
            trip: u64::MAX,
            stall_at: u64::MAX,
            shared_left: 0,
            written_left: 0,
            novel_left: 0,
            seen: vec![0; blocks()],
            epoch: 0,
            limit: u64::MAX,
            wake_at: u64::MAX,
            timed_out: false,
            pre: Default::default(),
            blk: Default::default(),
            op: 0,
            host: 0,
            host_fault_at: u64::MAX,
            host_of: "",
            host_min: 0,
            host_len: 1,
            host_fault: HostFault::None,
            host_fired: false,
            in_reenter: false,
            acts: Vec::with_capacity(1024),
        })
        .collect();
    let s = Box::new(Sim {
        th,
        step: 0,
        next_sw: u64::MAX,
        gap_lo: 10,
        gap_hi: 10000,
        sp: 0,
        ap: 0,
        hp: 0,
        np: 0,
        park: false,
        explicit: false,
        rng: prng::Rng::new(0),
        rec: Vec::with_capacity(1024),
        sched_hash: 0,
        switches: 0,
        clock_base: 1_700_000_000_000_000_000,
        clock_skew: 0,
        clock_seed: 0,
        clock_reads: 0,
        getenv_seed: 0,
        getenv_reads: 0,
        hash_seed: 0,
        rand_reads: 0,
        static_hits: 0,
        futex_waits: 0,
        stalls: 0,
        host_ops: 0,
        resume: true,
        resumed: false,
        fired: Default::default(),
        on_violation: violated,
        reenter: |_, _, _| {},
        lo,
        hi,
        hold: false,
        calls: 0,
    });
    unsafe {
        SIM = Box::into_raw(s);
    }
    wasm_bindgen::host::set(host_hook);
    sim()
}

fn host_hook(name: &'static str, size: usize) -> Act {
    if !active() {
        return Act::Go;
    }
    if name == "import" {
        acted("call of a host function");
    }
    point_host();
    let s = sim();
    let me = tid();
    s.host_ops += 1;
    let th = &mut s.th[me];
    if !th.in_reenter && (!th.host_of.is_empty() && th.host_of != name || size < th.host_min) {
        return Act::Go;
    }
    th.host += 1;
    if th.host > th.host_fault_at && th.host - 1 - th.host_fault_at < th.host_len && !th.in_reenter {
        let k = th.host_fault;
        th.host_fired = true;
        match k {
            HostFault::None => {}
            HostFault::Err => {
                s.fire("host_refused_value");
                return Act::Fail;
            }
            HostFault::Panic => {
                s.fire("host_exception");
                std::panic::resume_unwind(Box::new("exception thrown by the host"));
            }
            HostFault::Reenter(f, d) => {
                let saved = (th.host, th.host_fault_at);
                th.in_reenter = true;
                s.fire("reentrant_call");
                set_active(false);
                (s.reenter)(me, f, d);
                set_active(true);
                let th = &mut s.th[me];
                th.in_reenter = false;
                th.host = saved.0;
                th.host_fault_at = saved.1;
            }
        }
    }
    Act::Go
}

fn fork_run<F: FnOnce()>(f: F, secs: i32) -> (String, i32) {
    unsafe {
        let mut fds = [0i32; 2];
        libc::pipe(fds.as_mut_ptr());
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            PIPE = fds[1];
            let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(n, 2);
            libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 });
            f();
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 65536];
        let deadline = std::time::Instant::now() + std::time::Duration::from_secs(secs as u64);
        let mut timed = false;
        loop {
            let left = deadline.saturating_duration_since(std::time::Instant::now()).as_millis() as i32;
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, left.max(0));
            if r == 0 {
                timed = true;
                break;
            }
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        if timed {
            libc::kill(pid, libc::SIGKILL);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let code = if timed {
            -1
        } else if libc::WIFSIGNALED(st) {
            libc::WTERMSIG(st)
        } else {
            0
        };
        (String::from_utf8_lossy(&out).into_owned(), code)
    }
}

/// The stack to come holds what something else left there.
#[inline(never)]
fn dirty_stack(r: u64) {
    let mut a = std::mem::MaybeUninit::<[u8; 192 << 10]>::uninit();
    unsafe { alloc::soil(a.as_mut_ptr() as *mut u8, 192 << 10, r) };
    std::hint::black_box(&mut a);
}

fn on_big_thread<F: FnOnce() + Send + 'static>(f: F) {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap();
}

/// What a caller gets who calls a library nobody has called before, alone.
fn reference(f: usize, doc: &str) -> Ref {
    let d = doc.to_string();
    let (s, code) = fork_run(
        move || {
            let s = new_sim(1);
            s.th[0].limit = budget(&d);
            s.retrip(0);
            on_big_thread(move || {
                register(0);
                let o = call(f, &d);
                let s = sim();
                emit(&json!({"c": o.class, "h": o.hash, "s": o.show, "ok": o.shape, "steps": s.step, "hosts": s.host_ops}))
            });
            loop {
                unsafe {
                    libc::pause();
                }
            }
        },
        120,
    );
    match serde_json::from_str::<Value>(&s) {
        Ok(v) if v.get("c").is_some() => Ref {
            out: Some(Out {
                class: match v["c"].as_str().unwrap() {
                    "answer" => "answer",
                    "rejected" => "rejected",
                    _ => "aborted",
                },
                hash: v["h"].as_str().unwrap().into(),
                show: v["s"].as_str().unwrap().into(),
                shape: v["ok"].as_bool().unwrap(),
            }),
            why: String::new(),
            steps: v["steps"].as_u64().unwrap(),
            hosts: v["hosts"].as_u64().unwrap(),
        },
        Ok(v) => Ref { out: None, why: v["v"]["detail"].as_str().unwrap_or("?").into(), steps: 0, hosts: 0 },
        Err(_) => Ref {
            out: None,
            why: if code == -1 { "the call did not return".into() } else { format!("the process died with signal {}", code) },
            steps: 0,
            hosts: 0,
        },
    }
}

fn u(v: &Value, k: &str) -> u64 {
    v.get(k).and_then(|x| x.as_u64()).unwrap_or(0)
}

struct Run {
    docs: Vec<String>,
    ops: Vec<Vec<(usize, usize)>>,
    refs: HashMap<(usize, usize), Ref>,
    faults: Vec<Value>,
    eq: bool,
    total: bool,
    stack: usize,
    rounds: u64,
    conserve: bool,
    age: bool,
    sift: bool,
    quiet: bool,
    /// no model: each call must end well by itself
    direct: bool,
    warm: Vec<(usize, usize)>,
}
static mut RUN: *const Run = std::ptr::null();
fn run() -> &'static Run {
    unsafe { &*RUN }
}

fn is_new(doc: &str) -> bool {
    doc.contains("__U__") || doc.contains("__N__")
}
fn subst(doc: &str, n: u64) -> String {
    if !is_new(doc) {
        return doc.to_string();
    }
    let mut t = [b'u'; 8];
    let mut k = n;
    for i in (1..8).rev() {
        t[i] = b'a' + (k % 16) as u8;
        k /= 16;
    }
    doc.replace("__U__", std::str::from_utf8(&t).unwrap()).replace("__N__", &format!("7{:06}", n % 1_000_000))
}

/// The same document about other things: every name in it is another one.
fn renamed(doc: &str) -> String {
    static WORDS: std::sync::OnceLock<std::collections::HashSet<&'static str>> = std::sync::OnceLock::new();
    let kw = WORDS.get_or_init(|| include_str!("../../corpus/keywords.txt").lines().collect());
    let c: Vec<char> = doc.chars().collect();
    let mut out = String::from("\n");
    let mut i = 0;
    while i < c.len() {
        let a = i;
        while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
            i += 1;
        }
        if a == i {
            out.push(c[i]);
            i += 1;
            continue;
        }
        let w: String = c[a..i].iter().collect();
        let quote = i < c.len() && (c[i] == '\'' || c[i] == '"') && w.len() < 3;
        out.push_str(&w);
        if !c[a].is_ascii_digit() && !quote && !kw.contains(w.to_uppercase().as_str()) {
            out.push('w');
        }
    }
    out
}

/// Check one outcome against the model: the answer the same call gets alone from a fresh library.
fn judge(t: usize, o: usize, f: usize, d: usize, got: &Out, fault: Option<&str>) {
    let r = run();
    let rf = match r.refs.get(&(f, d)) {
        Some(x) => x,
        None => return,
    };
    let name = if f == 0 { "parse" } else { "tokenize" };
    if r.total {
        if let Some(b) = &rf.out {
            if b.class == "aborted" {
                violated("aborted", format!("{}({:?}) aborts: {}", name, clip(&r.docs[d]), b.show));
            }
            if !b.shape {
                violated("malformed", format!("{}({:?}) gives {} {}", name, clip(&r.docs[d]), b.class, b.show));
            }
        }
    }
    let want = match &rf.out {
        Some(w) => w,
        None => return,
    };
    if same(got, want) {
        return;
    }
    if let Some(k) = fault {
        // A call the injected fault hit may fail, visibly; it may not give something else.
        if got.class == "aborted" {
            return;
        }
        if got.class == "rejected" && (got.shape || got.show.starts_with('"') || got.show.starts_with("Error(")) {
            return;
        }
        violated(
            "wrong-under-fault",
            format!("caller {} op {}: {}({:?}) hit by {} reported {} {} but alone it gives {} {}", t, o, name, clip(&r.docs[d]), k, got.class, got.show, want.class, want.show),
        );
    }
    if r.eq {
        violated(
            "answer-changed",
            format!("caller {} op {}: {}({:?}) gave {} {} but alone it gives {} {}", t, o, name, clip(&r.docs[d]), got.class, diff(&got.show, &want.show), want.class, want.show),
        );
    }
}
fn diff(a: &str, _b: &str) -> String {
    a.to_string()
}
fn clip(s: &str) -> String {
    if s.chars().count() > 200 {
        s.chars().take(200).collect::<String>() + "..."
    } else {
        s.to_string()
    }
}

fn reenter(me: usize, f: usize, d: usize) {
    let got = call(f, &run().docs[d]);
    let o = sim().th[me].op;
    judge(me, o, f, d, &got, None);
}

#[inline(never)]
fn deeper(n: usize, g: &mut dyn FnMut()) {
    let mut pad = [0u8; 1024];
    unsafe { std::ptr::write_volatile(&mut pad[n & 1023], n as u8) };
    if n == 0 {
        g()
    } else {
        deeper(n - 1, g)
    }
    std::hint::black_box(&pad);
}

fn thread_main(t: usize) {
    register(t);
    wait_turn(t);
    let r = run();
    let mut body = || {
        for (o, &(f, d)) in r.ops[t].iter().enumerate() {
            let s = sim();
            s.th[t].op = o;
            let rf = r.refs.get(&(f, d));
            let (rs, rh) = rf.map_or((0, 0), |x| (x.steps, x.hosts));
            if let Some(x) = rf {
                if x.out.is_none() {
                    if r.total {
                        violated("no-answer", format!("{}({:?}): {}", if f == 0 { "parse" } else { "tokenize" }, clip(&r.docs[d]), x.why));
                    }
                    continue;
                }
            }
            let mut fault: Option<&str> = None;
            {
                let th = &mut s.th[t];
                th.host = 0;
                th.host_fault_at = u64::MAX;
                th.host_fault = HostFault::None;
                th.host_of = "";
                th.host_min = 0;
                th.host_len = 1;
                th.host_fired = false;
                th.epoch += 1;
                th.limit = th.lstep + if r.direct { budget(&r.docs[d]) } else { 40 * rs + 4_000_000 };
            }
            for fl in &r.faults {
                if u(fl, "t") as usize == t && u(fl, "o") as usize == o {
                    let at = |n: u64| -> u64 {
                        match fl.get("abs").and_then(|x| x.as_i64()) {
                            Some(x) if x >= 0 => x as u64,
                            Some(x) => n.saturating_sub((-x) as u64),
                            None => (n as u128 * u(fl, "at") as u128 / 1_000_000) as u64,
                        }
                    };
                    let th = &mut s.th[t];
                    if u(fl, "of") > 0 {
                        th.host_of = ["", "number", "string", "array", "object", "set"][u(fl, "of") as usize % 6];
                        th.host_min = u(fl, "min") as usize;
                    }
                    th.host_len = u(fl, "len").max(1);
                    match fl["k"].as_str().unwrap_or("") {
                        "host_err" => {
                            th.host_fault = HostFault::Err;
                            th.host_fault_at = at(rh);
                            fault = Some("a host step that failed");
                        }
                        "host_panic" => {
                            th.host_fault = HostFault::Panic;
                            th.host_fault_at = at(rh);
                            fault = Some("an exception from the host");
                        }
                        "reenter" => {
                            th.host_fault = HostFault::Reenter(u(fl, "f") as usize, u(fl, "d") as usize);
                            th.host_fault_at = at(rh);
                        }
                        "stall" => {
                            th.stall_at = th.lstep + at(rs);
                            th.shared_left = u(fl, "sh");
                            th.written_left = u(fl, "sw");
                            th.novel_left = u(fl, "nv");
                        }
                        _ => {}
                    }
                }
            }
            s.retrip(t);
            let got = call(f, &r.docs[d]);
            if r.quiet {
                // what was printed but not yet written out counts
                set_active(true);
                let _ = std::io::stdout().flush();
                set_active(false);
            }
            let s = sim();
            let fired = s.th[t].host_fired;
            s.th[t].stall_at = u64::MAX;
            s.th[t].shared_left = 0;
            s.th[t].written_left = 0;
            s.th[t].novel_left = 0;
            s.th[t].limit = u64::MAX;
            s.retrip(t);
            if r.quiet && got.class != "aborted" && !fired && !s.th[t].acts.is_empty() {
                let a = s.th[t].acts.clone();
                violated("side-effect", format!("caller {} op {}: {}({:?}) did {:?} on the system around it", t, o, NAMES[f], clip(&r.docs[d]), a));
            }
            s.th[t].acts.clear();
            if r.direct && r.total {
                if got.class == "aborted" {
                    violated("aborted", format!("caller {} op {}: {}({:?}) aborts: {}", t, o, NAMES[f], clip(&r.docs[d]), got.show));
                }
                if !got.shape {
                    violated("malformed", format!("caller {} op {}: {}({:?}) gives {} {}", t, o, NAMES[f], clip(&r.docs[d]), got.class, got.show));
                }
            }
            judge(t, o, f, d, &got, if fired { fault } else { None });
        }
    };
    let soil = alloc::PLACE.load(Relaxed);
    if soil != 0 {
        dirty_stack(soil.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ t as u64);
    }
    if r.stack > 0 {
        deeper(r.stack * (t + 1), &mut body);
    } else {
        body();
    }
    let s = sim();
    s.th[t].st = St::Done;
    s.leave(t);
    loop {
        unsafe {
            libc::pause();
        }
    }
}

/// Steps a run may take to settle whether something grows, and what a call must cost to be judged early.
const LONG: u64 = 3_000_000_000;
const DEAR: u64 = 600_000;

/// Long service: the same kinds of call again and again, documents with `__U__` new every time.
fn rounds_main() {
    register(0);
    wait_turn(0);
    warm_up();
    let r = run();
    let s = sim();
    let mut n = 0u64;
    // per window of rounds the least in its later half and the most in all of it: only what never
    // comes down again to what it once was counts as growth, whatever the phase of a bounded cycle
    let mut live: Vec<(i64, i64)> = Vec::with_capacity(16);
    let mut cost: Vec<Vec<(i64, i64)>> = vec![Vec::with_capacity(16), Vec::with_capacity(16), Vec::with_capacity(16)];
    let (mut age, mut round) = (4u64, 0u64);
    let mut ops = r.ops[0].clone();
    if r.sift {
        // a few calls of each kind; only what seems to grow is served for long
        let mut k = 0;
        for &(f, d) in &r.ops[0] {
            let (mut up, mut slow) = (0, 0);
            let (mut held, mut took) = (0i64, 0u64);
            for i in 0..7 {
                let doc = subst(&r.docs[d], n);
                n += 1;
                s.th[0].limit = s.th[0].lstep + budget(&doc);
                s.retrip(0);
                let c0 = s.step;
                set_active(true);
                let x = raw_call(f, doc);
                set_active(false);
                drop(x);
                let (h, c) = (alloc::LIVE.load(Relaxed), s.step - c0);
                if i > 2 {
                    up += (h > held) as u32;
                    slow += (c > took) as u32;
                }
                held = h;
                took = c;
                // what did not rise once is settled
                if i > 2 && up != i - 2 && slow != i - 2 {
                    break;
                }
            }
            if (r.conserve && up == 4) || (r.age && slow == 4) {
                ops[k] = (f, d);
                k += 1;
            }
        }
        ops.truncate(k.min(3));
        if k == 0 {
            age = r.rounds * 16;
            ops.push(r.ops[0][0]);
            round = age;
        }
    }
    let probe = ops[0];
    let s0 = s.step;
    let mut dear = u64::MAX;
    loop {
        let mut peak = 0;
        let mut wl = (i64::MAX, i64::MIN);
        let mut wc = [(i64::MAX, i64::MIN); 2];
        let half = age * 5 / 8;
        let every = ((age - half) / 6).max(1);
        while round < age {
            let r0 = s.step;
            for (o, &(f, d)) in ops.iter().enumerate() {
                let fixed = !is_new(&r.docs[d]);
                let doc = subst(&r.docs[d], n);
                n += 1;
                s.th[0].op = o;
                s.th[0].limit = s.th[0].lstep + budget(&doc);
                s.retrip(0);
                if fixed && (r.eq || r.total) {
                    if r.refs.get(&(f, d)).is_some_and(|x| x.out.is_none()) {
                        if r.total {
                            violated("no-answer", format!("{}({:?}): {}", NAMES[f], clip(&r.docs[d]), r.refs[&(f, d)].why));
                        }
                        continue;
                    }
                    let got = call(f, &doc);
                    drop(doc);
                    judge(0, o, f, d, &got, None);
                } else {
                    set_active(true);
                    let x = raw_call(f, doc);
                    set_active(false);
                    drop(x);
                }
            }
            peak = peak.max(s.step - r0);
            round += 1;
            let now = alloc::LIVE.load(Relaxed);
            wl.1 = wl.1.max(now);
            if round > half {
                wl.0 = wl.0.min(now);
            }
            if round == age || (round > half && (round * 40503 >> 4) % every == 0) {
                for (k, w) in wc.iter_mut().enumerate() {
                    let doc = subst(&r.docs[probe.1], if k == 0 { 0 } else { n });
                    n += 1;
                    s.th[0].limit = s.th[0].lstep + budget(&doc);
                    s.retrip(0);
                    let c0 = s.step;
                    set_active(true);
                    let x = raw_call(probe.0, doc);
                    set_active(false);
                    drop(x);
                    let took = (s.step - c0) as i64;
                    *w = (w.0.min(took), w.1.max(took));
                }
            }
        }
        cost[0].push(wc[0]);
        cost[1].push(wc[1]);
        cost[2].push((peak as i64, peak as i64));
        live.push(wl);
        let l = live.len();
        let slow = |a: &[(i64, i64)]| l >= 2 && a[l - 1].0 > a[l - 2].1 + 20 + a[l - 2].1 / 50;
        let suspect = (r.conserve && l >= 2 && live[l - 1].0 > live[l - 2].1) || (r.age && cost.iter().any(|a| slow(a)));
        if age >= r.rounds * 16 || (age >= r.rounds && !suspect) {
            break;
        }
        // what would take too long to serve that often is judged by what is known by now
        if age >= 256 && (s.step - s0) * 4 > LONG {
            dear = (s.step - s0) / n.max(1);
            break;
        }
        age *= 4;
    }
    let docs: Vec<String> = ops.iter().map(|o| format!("{}({:?})", NAMES[o.0], clip(&r.docs[o.1]))).collect();
    let l = live.len();
    let judged = l >= 4 && (age >= 1024 || dear > DEAR);
    let text = |a: &[(i64, i64)]| a.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join(",");
    if r.conserve && judged && (l - 3..l).all(|i| live[i].0 > live[i - 1].1) {
        violated("grows", format!("bytes held, at the least, late in 4, 16, 64, ... rounds of {} calls: {}; calls: {}", ops.len(), text(&live), docs.join(", ")));
    }
    if r.age {
        for (k, a) in cost.iter().enumerate() {
            if judged && (l - 3..l).all(|i| a[i].0 > a[i - 1].1) && a[l - 1].0 > a[0].1 + a[0].1 / 4 + 100 {
                violated("slows-down", format!("steps of {} 4, 16, 64, ... rounds of {} calls: {}; calls: {}", if k == 2 { "the dearest round within" } else { "one call, at the least, late in" }, ops.len(), text(a), docs.join(", ")));
            }
        }
    }
    s.calls = n;
    DONE.store(1, Release);
    raw_wake(&DONE);
    loop {
        unsafe {
            libc::pause();
        }
    }
}

/// Ordinary service before the run proper: one caller, no fault, no switch.
fn warm_up() {
    let r = run();
    let s = sim();
    for &(f, d) in &r.warm {
        let doc = r.docs[d].clone();
        s.th[0].limit = s.th[0].lstep + budget(&doc);
        s.hold = true;
        s.retrip(0);
        set_active(true);
        let x = raw_call(f, doc);
        set_active(false);
        s.hold = false;
        drop(x);
    }
    s.th[0].limit = u64::MAX;
    s.retrip(0);
}
const NAMES: [&str; 2] = ["parse", "tokenize"];

fn execute(plan: &Value, cache: &mut HashMap<(usize, String), std::rc::Rc<(Option<Out>, String, u64, u64)>>) -> Value {
    let docs: Vec<String> = plan["docs"].as_array().unwrap().iter().map(|d| d.as_str().unwrap().to_string()).collect();
    let ops: Vec<Vec<(usize, usize)>> = plan["threads"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| t.as_array().unwrap().iter().map(|o| (o[0].as_u64().unwrap() as usize, o[1].as_u64().unwrap() as usize)).collect())
        .collect();
    let mut docs = docs;
    let mut warm: Vec<(usize, usize)> = plan["warm"]
        .as_array()
        .map(|t| t.iter().map(|o| (o[0].as_u64().unwrap() as usize, o[1].as_u64().unwrap() as usize)).collect())
        .unwrap_or_default();
    if u(plan, "served") >= 1 {
        // the premise of the property: such documents have been served before
        for &(f, d) in ops.iter().flatten() {
            docs.push(if u(plan, "served") == 1 { format!("\n{}", docs[d]) } else { renamed(&docs[d]) });
            warm.push((f, docs.len() - 1));
        }
    }
    let faults: Vec<Value> = plan["faults"].as_array().cloned().unwrap_or_default();
    let ck = &plan["check"];
    let rounds = u(plan, "rounds");
    let mut refs = HashMap::new();
    let mut need: Vec<(usize, usize)> = ops.iter().flatten().copied().collect();
    for f in &faults {
        if f["k"] == "reenter" {
            need.push((u(f, "f") as usize, u(f, "d") as usize));
        }
    }
    let mut calls = 0u64;
    if u(ck, "direct") == 0 && (rounds == 0 || u(ck, "eq") == 1 || u(ck, "total") == 1) {
        for k in need {
            if rounds > 0 && is_new(&docs[k.1]) {
                continue;
            }
            if refs.contains_key(&k) {
                continue;
            }
            let key = (k.0, docs[k.1].clone());
            if cache.len() > 8192 {
                cache.clear();
            }
            let c = cache
                .entry(key)
                .or_insert_with(|| {
                    let r = reference(k.0, &docs[k.1]);
                    std::rc::Rc::new((r.out, r.why, r.steps, r.hosts))
                })
                .clone();
            refs.insert(k, Ref { out: c.0.clone(), why: c.1.clone(), steps: c.2, hosts: c.3 });
        }
    }
    for t in &ops {
        calls += t.len() as u64;
    }
    let mut kinds: HashMap<&'static str, u64> = HashMap::new();
    for t in &ops {
        for k in t {
            if let Some(r) = refs.get(k) {
                *kinds.entry(r.out.as_ref().map_or("none", |o| o.class)).or_insert(0) += 1;
            }
        }
    }
    if plan.get("hashes").is_some() {
        // cross-build comparison: only report what a fresh library answers
        let h: Vec<Value> = ops[0]
            .iter()
            .map(|k| refs.get(k).and_then(|r| r.out.as_ref()).map_or(json!(null), |o| json!([o.class, o.hash, o.show])))
            .collect();
        return json!({"hashes": h, "stats": {"calls": calls, "kinds": kinds}});
    }
    let env = plan["env"].clone();
    let sc = plan["sched"].clone();
    let r = Run {
        docs,
        ops,
        refs,
        faults,
        eq: u(ck, "eq") == 1,
        total: u(ck, "total") == 1,
        stack: u(&env, "stack") as usize,
        rounds,
        conserve: u(ck, "conserve") == 1,
        sift: u(ck, "sift") == 1,
        age: u(ck, "age") == 1,
        quiet: u(ck, "quiet") == 1,
        direct: u(ck, "direct") == 1,
        warm,
    };
    let no_resume = u(plan, "no_resume") == 1;
    let (s, code) = fork_run(
        move || {
            let n = r.ops.len();
            unsafe {
                RUN = Box::into_raw(Box::new(r));
            }
            let s = new_sim(n);
            s.reenter = reenter;
            s.hash_seed = u(&env, "hash");
            s.clock_seed = u(&env, "clock");
            wasm_bindgen::host::set_weather(s.clock_seed);
            if s.clock_seed != 0 {
                s.clock_base = prng::Rng::new(s.clock_seed).next() >> 2;
            }
            s.getenv_seed = u(&env, "getenv");
            s.resume = !no_resume;
            s.rng = prng::Rng::new(u(&sc, "seed"));
            s.gap_lo = u(&sc, "lo").max(1);
            s.gap_hi = u(&sc, "hi").max(2);
            s.sp = u(&sc, "sp");
            s.ap = u(&sc, "ap");
            s.hp = u(&sc, "hp");
            s.np = u(&sc, "np");
            s.park = u(&sc, "pk") == 1;
            let mut first = 0;
            if let Some(x) = sc.get("explicit").and_then(|x| x.as_array()) {
                s.explicit = true;
                for e in x {
                    let (t, l, w, k) = (e[0].as_u64().unwrap() as usize, e[1].as_u64().unwrap(), e[2].as_u64().unwrap() as usize, e[3].as_u64().unwrap());
                    if t < n {
                        if k == 0 {
                            s.th[t].pre.push_back((l, w));
                        } else {
                            s.th[t].blk.push_back((l, w));
                        }
                    }
                }
                first = (u(&sc, "first") as usize).min(n - 1);
            } else if n > 1 {
                first = s.rng.below(n as u64) as usize;
                s.next_sw = 1 + s.rng.below(s.gap_hi);
            }
            for t in 0..n {
                s.retrip(t);
            }
            let rr = run();
            alloc::PLACE.store(u(&env, "place"), Relaxed);
            if rr.rounds == 0 && !rr.warm.is_empty() {
                // on a thread of its own, which ends before the callers start
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn(|| {
                        register(0);
                        warm_up()
                    })
                    .unwrap()
                    .join()
                    .ok();
                let s = sim();
                s.step = 0;
                s.th[0].lstep = 0;
                s.th[0].limit = u64::MAX;
                s.retrip(0);
                s.next_sw = if n > 1 && !s.explicit { s.next_sw } else { u64::MAX };
            }
            for t in 0..n {
                if rr.rounds > 0 {
                    on_big_thread(rounds_main);
                } else {
                    on_big_thread(move || thread_main(t));
                }
            }
            give(first);
            while DONE.load(Acquire) == 0 {
                raw_wait(&DONE, 0);
            }
            let s = sim();
            let mut st = stats(s);
            st["first"] = json!(first);
            emit(&json!({"stats": st}))
        },
        180,
    );
    let mut v: Value = match serde_json::from_str(&s) {
        Ok(v) => v,
        Err(_) => {
            if code == -1 {
                json!({"v": {"class": "hang", "detail": "the run did not end within 180 s", "t": 0, "o": 0}, "stats": {}})
            } else {
                json!({"v": {"class": "died", "detail": format!("the process died with signal {}", code), "t": 0, "o": 0}, "stats": {}})
            }
        }
    };
    if v["stats"]["long"].as_u64().unwrap_or(0) == 0 {
        v["stats"]["calls"] = json!(calls);
    } else {
        v["stats"]["calls"] = v["stats"]["long"].clone();
    }
    v["stats"]["kinds"] = json!(kinds);
    v
}

fn main() {
    let stdin = std::io::stdin();
    let mut cache = HashMap::new();
    let mut line = String::new();
    loop {
        line.clear();
        if stdin.lock().read_line(&mut line).unwrap_or(0) == 0 {
            break;
        }
        let plan: Value = match serde_json::from_str(&line) {
            Ok(p) => p,
            Err(e) => {
                println!("{}", json!({"harness": e.to_string()}));
                continue;
            }
        };
        let v = execute(&plan, &mut cache);
        let o = std::io::stdout();
        let mut o = o.lock();
        let _ = writeln!(o, "{}", v);
        let _ = o.flush();
    }
}
