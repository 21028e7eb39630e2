//! The shipped module, linked with the two seams a WebAssembly host has no other way to reach:
//! the allocator (which allocation is refused) and the basic blocks (where the call is cut short).
//! Everything else is /repo's code and the real wasm-bindgen runtime.
extern crate bq2cst;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::Relaxed};

static ALLOCS: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU32 = AtomicU32::new(0);
static FAIL_FROM: AtomicU64 = AtomicU64::new(u64::MAX);
static FAIL_TO: AtomicU64 = AtomicU64::new(u64::MAX);
static REFUSED: AtomicU32 = AtomicU32::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
static TRIP: AtomicU64 = AtomicU64::new(u64::MAX);

#[link(wasm_import_module = "env")]
extern "C" {
    fn sim_trip();
}

/// Selective refusal: of the blocks of at least `BIG_MIN` bytes (with `BIG_RE` = 1 only those being
/// enlarged, with 2 only those the library itself asks for, not the crates it uses), those after
/// the first `BIG_SKIP`, `BIG_LEFT` of them. 0: off.
static BIG_MIN: AtomicU32 = AtomicU32::new(0);
static BIG_RE: AtomicU32 = AtomicU32::new(0);
static BIG_SKIP: AtomicU64 = AtomicU64::new(0);
static BIG_LEFT: AtomicU64 = AtomicU64::new(0);

/// Blocks asked for after a step of the library: its own requests, as a rule.
static OWN: AtomicU64 = AtomicU64::new(0);
static LAST: AtomicU64 = AtomicU64::new(0);
/// The block the library was in last, and by block: the call in which it last asked for memory, and
/// how often it has. `SITE_MAX` not 0: of the blocks that ask for the first time in the call and have
/// asked less than `SITE_MAX` times before, those after the first `SITE_SKIP` are refused, `SITE_LEFT`.
static GUARD: AtomicU32 = AtomicU32::new(0);
const SITES: usize = 1 << 16;
static mut SITE_CALL: [u32; SITES] = [0; SITES];
static mut SITE_HITS: [u32; SITES] = [0; SITES];
static SITE_MAX: AtomicU32 = AtomicU32::new(0);
static SITE_SKIP: AtomicU64 = AtomicU64::new(0);
static SITE_LEFT: AtomicU64 = AtomicU64::new(0);

fn refuse(size: usize, re: bool) -> bool {
    let own = STEPS.load(Relaxed) != LAST.load(Relaxed) + 1;
    LAST.store(STEPS.load(Relaxed), Relaxed);
    if own {
        OWN.store(OWN.load(Relaxed) + 1, Relaxed);
    }
    let n = ALLOCS.load(Relaxed);
    ALLOCS.store(n + 1, Relaxed);
    let mut no = n >= FAIL_FROM.load(Relaxed) && n < FAIL_TO.load(Relaxed);
    if own {
        let k = GUARD.load(Relaxed) as usize / 4 % SITES;
        unsafe {
            let first = SITE_CALL[k] != EPOCH.load(Relaxed);
            SITE_CALL[k] = EPOCH.load(Relaxed);
            if first && SITE_HITS[k] < SITE_MAX.load(Relaxed) {
                let s = SITE_SKIP.load(Relaxed);
                let l = SITE_LEFT.load(Relaxed);
                if s > 0 {
                    SITE_SKIP.store(s - 1, Relaxed);
                } else if l > 0 {
                    SITE_LEFT.store(l - 1, Relaxed);
                    no = true;
                }
            }
            SITE_HITS[k] = SITE_HITS[k].saturating_add(1);
        }
    }
    let m = BIG_MIN.load(Relaxed);
    if m > 0 && size >= m as usize && match BIG_RE.load(Relaxed) { 0 => true, 1 => re, _ => own } {
        let k = BIG_SKIP.load(Relaxed);
        let l = BIG_LEFT.load(Relaxed);
        if k > 0 {
            BIG_SKIP.store(k - 1, Relaxed);
        } else if l > 0 {
            BIG_LEFT.store(l - 1, Relaxed);
            no = true;
        }
    }
    if no {
        REFUSED.store(REFUSED.load(Relaxed) + 1, Relaxed);
    }
    no
}

/// Not 0: the state of a generator that dirties every block handed out.
static SOIL: AtomicU64 = AtomicU64::new(0);
fn next_soil() -> u64 {
    let s = SOIL.load(Relaxed);
    if s == 0 {
        return 0;
    }
    let mut z = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    SOIL.store(if z == 0 { 1 } else { z }, Relaxed);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
/// What fresh memory may hold: anything, and often what an earlier document left there.
const LEFT: &[u8] = b"'\"`>-*/{}@#=|.,;0eE)]\n aX_";
unsafe fn soil(u: *mut u8, n: usize, r: u64) {
    let c = LEFT[(r >> 40) as usize % LEFT.len()];
    match (r >> 32) % 5 {
        0 | 1 => std::ptr::write_bytes(u, (r >> 48) as u8, n),
        2 => std::ptr::write_bytes(u, c, n),
        k => {
            for i in 0..n {
                let j = if k == 3 { (r >> 40) as usize } else { (r >> 40) as usize + i / 4 };
                *u.add(i) = if i % 4 == 0 { LEFT[j % LEFT.len()] } else { 0 };
            }
        }
    }
}

struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sim_step();
        if refuse(l.size(), false) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            LIVE.store(LIVE.load(Relaxed) + l.size() as u32, Relaxed);
            let r = next_soil();
            if r != 0 {
                soil(p, l.size(), r);
            }
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.store(LIVE.load(Relaxed).wrapping_sub(l.size() as u32), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sim_step();
        if refuse(n, true) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE.store(LIVE.load(Relaxed).wrapping_sub(l.size() as u32).wrapping_add(n as u32), Relaxed);
            let r = next_soil();
            if r != 0 && n > l.size() {
                soil(q.add(l.size()), n - l.size(), r);
            }
        }
        q
    }
}
#[global_allocator]
static GA: A = A;

/// Called at every basic block of the library. Empty here because wasm-bindgen interprets parts of
/// the module while it generates the glue; the loader (node/worker.js) makes it call `sim_block`.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}
/// Blocks entered for the first time in a call: `NOVEL` counts them. At the `NOVEL_AT`-th one the
/// call is cut short or refused memory, as after a store below.
static EPOCH: AtomicU32 = AtomicU32::new(1);
static NOVEL: AtomicU32 = AtomicU32::new(0);
static NOVEL_AT: AtomicU32 = AtomicU32::new(u32::MAX);
#[no_mangle]
pub extern "C" fn sim_block(guard: *mut u32) {
    let e = EPOCH.load(Relaxed);
    GUARD.store(guard as usize as u32, Relaxed);
    unsafe {
        if *guard != e {
            *guard = e;
            let n = NOVEL.load(Relaxed);
            NOVEL.store(n + 1, Relaxed);
            if n == NOVEL_AT.load(Relaxed) {
                strike();
            }
        }
    }
    sim_step();
}
fn strike() {
    let r = REFUSE.load(Relaxed);
    if r > 0 {
        let a = ALLOCS.load(Relaxed);
        FAIL_FROM.store(a, Relaxed);
        FAIL_TO.store(a.saturating_add(r), Relaxed);
    } else {
        TRIP.store(STEPS.load(Relaxed) + 1 + PLUS.load(Relaxed), Relaxed);
    }
}
#[no_mangle]
pub extern "C" fn sim_step() {
    let n = STEPS.load(Relaxed) + 1;
    STEPS.store(n, Relaxed);
    if n >= TRIP.load(Relaxed) {
        TRIP.store(u64::MAX, Relaxed);
        unsafe { sim_trip() }
    }
}

/// Stores to memory that outlives calls (not stack, not heap): after the `SHARED`-th, the call is
/// cut short `PLUS` blocks later, or the next `REFUSE` allocations are refused.
static SHARED: AtomicU32 = AtomicU32::new(0);
static SHARED_SEEN: AtomicU32 = AtomicU32::new(0);
static PLUS: AtomicU64 = AtomicU64::new(0);
static REFUSE: AtomicU64 = AtomicU64::new(0);
extern "C" {
    static __global_base: u8;
    static __heap_base: u8;
}
macro_rules! stores { ($($n:ident)*) => { $(
    /// Empty here, made to call `sim_store` by the loader.
    #[no_mangle] pub extern "C" fn $n(_: usize) {} )* } }
stores!(__sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
#[no_mangle]
pub extern "C" fn sim_store(a: usize) {
    unsafe {
        if a < &__global_base as *const u8 as usize || a >= &__heap_base as *const u8 as usize {
            return;
        }
    }
    SHARED_SEEN.store(SHARED_SEEN.load(Relaxed).wrapping_add(1), Relaxed);
    let n = SHARED.load(Relaxed);
    if n > 0 {
        SHARED.store(n - 1, Relaxed);
        if n == 1 {
            strike();
        }
    }
}

#[no_mangle]
pub extern "C" fn sim_get(k: u32) -> f64 {
    match k {
        0 => ALLOCS.load(Relaxed) as f64,
        1 => LIVE.load(Relaxed) as f64,
        2 => REFUSED.load(Relaxed) as f64,
        3 => STEPS.load(Relaxed) as f64,
        4 => wasm_bindgen::externref_heap_live_count() as f64,
        7 => NOVEL.load(Relaxed) as f64,
        6 => OWN.load(Relaxed) as f64,
        5 => SHARED_SEEN.load(Relaxed) as f64,
        8 => unsafe { &__global_base as *const u8 as usize as f64 },
        _ => 0.0,
    }
}
#[no_mangle]
pub extern "C" fn sim_set(k: u32, v: f64) {
    let v = if v < 0.0 { u64::MAX } else { v as u64 };
    match k {
        0 => FAIL_FROM.store(v, Relaxed),
        1 => FAIL_TO.store(v, Relaxed),
        2 => TRIP.store(v, Relaxed),
        3 => SHARED.store(v as u32, Relaxed),
        4 => PLUS.store(v, Relaxed),
        5 => REFUSE.store(v, Relaxed),
        6 => BIG_MIN.store(v as u32, Relaxed),
        7 => BIG_RE.store(v as u32, Relaxed),
        8 => BIG_SKIP.store(v, Relaxed),
        9 => BIG_LEFT.store(v, Relaxed),
        12 => SITE_MAX.store(v.min(u32::MAX as u64) as u32, Relaxed),
        13 => SITE_SKIP.store(v, Relaxed),
        14 => SITE_LEFT.store(v, Relaxed),
        11 => SOIL.store(v, Relaxed),
        10 => {
            EPOCH.store(EPOCH.load(Relaxed) + 1, Relaxed);
            NOVEL.store(0, Relaxed);
            NOVEL_AT.store(v.min(u32::MAX as u64) as u32, Relaxed);
        }
        _ => {}
    }
}

/// Leaves the heap as some other history would have: other holes, other addresses, dirty memory.
#[no_mangle]
pub extern "C" fn sim_mess(seed: u32, blocks: u32) {
    let mut x = seed as u64 | 1 << 40;
    let mut next = || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x
    };
    let mut v: Vec<Vec<u8>> = Vec::new();
    for _ in 0..blocks {
        let n = 1 + (next() % (1 << (3 + next() % 9))) as usize;
        v.push(vec![(next() >> 11) as u8; n]);
    }
    for b in v {
        if next() % 3 == 0 {
            std::mem::forget(b);
        }
    }
}

/// Leaves the runtime's table of host handles as serving a much larger document leaves it: with
/// room in it.
#[no_mangle]
pub extern "C" fn sim_room(n: u32) {
    let v: Vec<_> = (0..n).map(|i| wasm_bindgen::JsValue::from_f64(i as f64 + 0.5)).collect();
    drop(v);
}
