//! The scheduler. Caller threads are real threads, but exactly one runs at a time, and every
//! change of the running thread is decided here, at points the code under test passes through:
//! every basic block and memory access of the library (compiler instrumentation), every
//! allocation, every step of handing a value to the host, every wait on a lock.
use crate::prng::Rng;
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicU32, Ordering::*};

pub const MAXT: usize = 16;
pub static GO: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
pub static DONE: AtomicU32 = AtomicU32::new(0);

thread_local! {
    static TID: Cell<u32> = const { Cell::new(u32::MAX) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Run,
    Block(usize),
    Sleep,
    Stalled,
    Done,
}

pub struct Th {
    pub st: St,
    pub lstep: u64,
    pub trip: u64,
    pub stall_at: u64,
    /// pause right after this many more accesses to memory all callers share (0: no such pause)
    pub shared_left: u64,
    /// the same, writes only
    pub written_left: u64,
    /// pause at this many more blocks not yet entered in this call (0: no such pause)
    pub novel_left: u64,
    /// for every block, the last call that entered it
    pub seen: Vec<u32>,
    pub epoch: u32,
    pub limit: u64,
    pub wake_at: u64,
    pub timed_out: bool,
    pub pre: VecDeque<(u64, usize)>,
    pub blk: VecDeque<(u64, usize)>,
    pub op: usize,
    pub host: u64,
    pub host_fault_at: u64,
    pub host_fault: HostFault,
    /// only steps of this kind (empty: any) and size count towards, and fail from, the chosen point
    pub host_of: &'static str,
    pub host_min: usize,
    pub host_len: u64,
    pub host_fired: bool,
    pub in_reenter: bool,
    pub acts: Vec<&'static str>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum HostFault {
    None,
    Err,
    Panic,
    Reenter(usize, usize),
}

pub struct Sim {
    pub th: Vec<Th>,
    pub step: u64,
    pub next_sw: u64,
    pub gap_lo: u64,
    pub gap_hi: u64,
    pub sp: u64,
    pub ap: u64,
    pub hp: u64,
    pub np: u64,
    /// a caller that was left at shared memory waits until the others get to such a place, or end
    pub park: bool,
    pub explicit: bool,
    pub rng: Rng,
    pub rec: Vec<(usize, u64, usize, u8)>,
    pub sched_hash: u64,
    pub switches: u64,
    pub clock_base: u64,
    pub clock_skew: u64,
    pub clock_seed: u64,
    pub clock_reads: u64,
    pub getenv_seed: u64,
    pub getenv_reads: u64,
    pub hash_seed: u64,
    pub rand_reads: u64,
    pub static_hits: u64,
    pub futex_waits: u64,
    pub stalls: u64,
    pub host_ops: u64,
    pub resume: bool,
    pub resumed: bool,
    pub fired: BTreeMap<&'static str, u64>,
    pub on_violation: fn(&str, String) -> !,
    pub reenter: fn(usize, usize, usize),
    pub lo: usize,
    pub hi: usize,
    /// nobody else may run: the warm-up
    pub hold: bool,
    pub calls: u64,
}

pub static mut SIM: *mut Sim = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

#[inline]
pub fn active() -> bool {
    ACTIVE.with(|a| a.get())
}
pub fn set_active(v: bool) -> bool {
    ACTIVE.with(|a| a.replace(v))
}
pub fn tid() -> usize {
    TID.with(|t| t.get()) as usize
}
pub fn register(t: usize) {
    TID.with(|x| x.set(t as u32));
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
pub fn static_range() -> (usize, usize) {
    unsafe { (&__data_start as *const u8 as usize, &_end as *const u8 as usize) }
}

// ---- raw futex, never intercepted ----
pub unsafe fn raw_syscall(n: i64, a: [usize; 6]) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _);
    r
}
pub fn raw_wait(w: &AtomicU32, v: u32) {
    unsafe {
        raw_syscall(libc::SYS_futex, [w as *const _ as usize, 128, v as usize, 0, 0, 0]);
    }
}
pub fn raw_wake(w: &AtomicU32) {
    unsafe {
        raw_syscall(libc::SYS_futex, [w as *const _ as usize, 129, 1 << 20, 0, 0, 0]);
    }
}
pub fn wait_turn(me: usize) {
    while GO[me].load(Acquire) == 0 {
        raw_wait(&GO[me], 0);
    }
    GO[me].store(0, Relaxed);
}
pub fn give(u: usize) {
    GO[u].store(1, Release);
    raw_wake(&GO[u]);
}

impl Sim {
    pub fn fire(&mut self, k: &'static str) {
        *self.fired.entry(k).or_insert(0) += 1;
    }
    fn gap(&mut self) -> u64 {
        // log-uniform between gap_lo and gap_hi
        let (lo, hi) = (self.gap_lo.max(1), self.gap_hi.max(2));
        let l = (lo as f64).ln();
        let h = (hi as f64).ln();
        let f = self.rng.below(1 << 20) as f64 / (1u64 << 20) as f64;
        (l + (h - l) * f).exp() as u64 + 1
    }
    pub fn retrip(&mut self, t: usize) {
        let th = &mut self.th[t];
        let mut n = th.limit.min(th.stall_at);
        if let Some(e) = th.pre.front() {
            n = n.min(e.0);
        }
        th.trip = if self.hold { th.limit } else { n };
    }
    pub fn runnable(&self, not: usize) -> Vec<usize> {
        if self.hold {
            return Vec::new();
        }
        (0..self.th.len()).filter(|&u| u != not && self.th[u].st == St::Run).collect()
    }
    fn note(&mut self, t: usize, u: usize, kind: u8) {
        let l = self.th[t].lstep;
        self.switches += 1;
        let mut h = self.sched_hash ^ ((t as u64) << 56 ^ (u as u64) << 48 ^ l);
        h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.sched_hash = h ^ (h >> 29);
        if self.rec.len() < 60_000 {
            self.rec.push((t, l, u, kind));
        }
    }
    fn go(&mut self, me: usize, u: usize, kind: u8) {
        self.note(me, u, kind);
        if self.th.len() > 1 {
            self.next_sw = self.step + self.gap();
        }
        give(u);
        wait_turn(me);
    }
    fn preempt(&mut self, me: usize, park: bool) {
        let r = self.runnable(me);
        if r.is_empty() {
            self.next_sw = self.step + self.gap();
            return;
        }
        let u = r[self.rng.below(r.len() as u64) as usize];
        self.note(me, u, 0);
        self.next_sw = if park { self.step + 2_000_000 } else { self.step + self.gap() };
        give(u);
        wait_turn(me);
    }
    /// `me` cannot go on: hand over to someone else. Returns when `me` is chosen again.
    pub fn leave(&mut self, me: usize) {
        loop {
            let r = self.runnable(me);
            if !r.is_empty() {
                let l = self.th[me].lstep;
                let mut u = r[0];
                if self.explicit {
                    if let Some(&(pl, pu)) = self.th[me].blk.front() {
                        if pl <= l {
                            self.th[me].blk.pop_front();
                            if r.contains(&pu) {
                                u = pu;
                            }
                        }
                    }
                } else {
                    u = r[self.rng.below(r.len() as u64) as usize];
                }
                if self.th[me].st == St::Done {
                    self.note(me, u, 1);
                    if self.th.len() > 1 {
                        self.next_sw = self.step + self.gap();
                    }
                    give(u);
                    return;
                }
                self.go(me, u, 1);
                return;
            }
            // nobody else can run: let simulated time pass to the next deadline
            let now = self.now();
            let mut best: Option<(u64, usize)> = None;
            for (i, t) in self.th.iter().enumerate() {
                if t.wake_at != u64::MAX && !matches!(t.st, St::Done | St::Stalled | St::Run) {
                    if best.map_or(true, |b| t.wake_at < b.0) {
                        best = Some((t.wake_at, i));
                    }
                }
            }
            if let Some((at, i)) = best {
                if at > now {
                    self.clock_skew += at - now;
                }
                self.th[i].st = St::Run;
                self.th[i].timed_out = true;
                self.th[i].wake_at = u64::MAX;
                if i == me {
                    return;
                }
                continue;
            }
            let blocked: Vec<usize> = (0..self.th.len())
                .filter(|&i| matches!(self.th[i].st, St::Block(_)))
                .collect();
            let stalled: Vec<usize> =
                (0..self.th.len()).filter(|&i| self.th[i].st == St::Stalled).collect();
            if !blocked.is_empty() {
                if stalled.is_empty() {
                    (self.on_violation)("deadlock", format!("callers {:?} wait for each other for ever", blocked));
                }
                (self.on_violation)(
                    "held-up",
                    format!("callers {:?} cannot finish while caller {:?} is paused", blocked, stalled),
                );
            }
            if !stalled.is_empty() {
                if self.resume {
                    self.resumed = true;
                    for i in stalled {
                        self.th[i].st = St::Run;
                    }
                    if self.th[me].st == St::Run {
                        return;
                    }
                    continue;
                }
            }
            // everyone is done (or paused for good)
            DONE.store(1, Release);
            raw_wake(&DONE);
            if self.th[me].st == St::Done {
                return;
            }
            loop {
                wait_turn(me);
            }
        }
    }
    pub fn now(&self) -> u64 {
        self.clock_base.wrapping_add(self.step).wrapping_add(self.clock_skew)
    }
    #[cold]
    fn event(&mut self, me: usize) {
        let l = self.th[me].lstep;
        if l >= self.th[me].limit {
            (self.on_violation)(
                "no-progress",
                format!("caller {} op {} is still running after {} steps", me, self.th[me].op, l),
            );
        }
        if l >= self.th[me].stall_at {
            self.th[me].stall_at = u64::MAX;
            self.stalls += 1;
            self.fire("caller_stalled");
            self.retrip(me);
            if self.th.len() > 1 {
                self.th[me].st = St::Stalled;
                self.leave(me);
            }
            return;
        }
        if let Some(&(pl, u)) = self.th[me].pre.front() {
            if l >= pl {
                self.th[me].pre.pop_front();
                self.retrip(me);
                if u != me && u < self.th.len() && self.th[u].st == St::Run {
                    self.go(me, u, 0);
                }
                return;
            }
        }
        self.retrip(me);
    }
}

const K_BLOCK: u8 = 0;
const K_MEM: u8 = 1;
const K_ALLOC: u8 = 2;
const K_HOST: u8 = 3;
const K_STORE: u8 = 4;

#[inline(always)]
fn point(kind: u8, addr: usize) {
    if !active() {
        return;
    }
    let s = sim();
    let me = tid();
    s.step += 1;
    let th = &mut s.th[me];
    th.lstep += 1;
    let mem = kind == K_MEM || kind == K_STORE;
    if th.shared_left + th.written_left > 0 && mem && addr >= s.lo && addr < s.hi && !s.hold {
        let left = if kind == K_STORE && th.written_left > 0 { &mut th.written_left } else { &mut th.shared_left };
        if *left > 0 {
            *left -= 1;
            if *left == 0 {
                th.stall_at = th.lstep;
                th.trip = th.lstep;
            }
        }
    }
    let mut fresh = false;
    if kind == K_BLOCK && (s.np > 0 || th.novel_left > 0) && !s.hold {
        let e = th.epoch;
        if let Some(x) = th.seen.get_mut(addr) {
            fresh = *x != e;
            *x = e;
        }
        if fresh && th.novel_left > 0 {
            th.novel_left -= 1;
            if th.novel_left == 0 {
                th.stall_at = th.lstep;
                th.trip = th.lstep;
            }
        }
    }
    if th.lstep >= th.trip {
        set_active(false);
        s.event(me);
        set_active(true);
        return;
    }
    if s.th.len() == 1 || s.explicit || s.hold {
        if mem && addr >= s.lo && addr < s.hi {
            s.static_hits += 1;
        }
        return;
    }
    let sw = if s.step >= s.next_sw {
        true
    } else {
        match kind {
            K_MEM | K_STORE if addr >= s.lo && addr < s.hi => {
                s.static_hits += 1;
                s.rng.below(256) < s.sp
            }
            K_ALLOC => s.ap > 0 && s.rng.below(65536) < s.ap,
            K_HOST => s.hp > 0 && s.rng.below(65536) < s.hp,
            K_BLOCK => fresh && s.np > 0 && s.rng.below(256) < s.np,
            _ => false,
        }
    };
    if sw {
        set_active(false);
        s.preempt(me, mem && s.park);
        set_active(true);
    }
}
pub fn point_alloc() {
    point(K_ALLOC, 0)
}
pub fn point_host() {
    point(K_HOST, 0)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    point(K_BLOCK, unsafe { *g } as usize)
}
static mut BLOCKS: u32 = 0;
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(from: *mut u32, to: *mut u32) {
    unsafe {
        let mut p = from;
        while p < to {
            if *p == 0 {
                BLOCKS += 1;
                *p = BLOCKS;
            }
            p = p.add(1);
        }
    }
}
/// Basic blocks of the library.
pub fn blocks() -> usize {
    unsafe { BLOCKS as usize + 1 }
}
macro_rules! mem { ($k:ident $($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(a: usize) { point($k, a) })* } }
mem!(K_MEM __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16);
mem!(K_STORE __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

// ---- system seams: what std asks the operating system for ----
unsafe fn errno(e: i32) {
    *libc::__errno_location() = e;
}
unsafe fn plain(n: i64, a: [usize; 6]) -> isize {
    let r = raw_syscall(n, a);
    if (-4095..0).contains(&r) {
        errno(-r as i32);
        return -1;
    }
    r
}
fn timeout_at(ts: usize, absolute: bool) -> u64 {
    if ts == 0 {
        return u64::MAX;
    }
    let t = unsafe { &*(ts as *const libc::timespec) };
    let ns = (t.tv_sec as u64).wrapping_mul(1_000_000_000).wrapping_add(t.tv_nsec as u64);
    if absolute {
        ns
    } else {
        sim().now().wrapping_add(ns)
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == libc::SYS_futex && active() {
        let cmd = b & 127;
        let s = sim();
        let me = tid();
        match cmd {
            0 | 9 => {
                // WAIT / WAIT_BITSET
                if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
                    errno(libc::EAGAIN);
                    return -1;
                }
                set_active(false);
                s.futex_waits += 1;
                s.th[me].st = St::Block(a);
                s.th[me].timed_out = false;
                s.th[me].wake_at = timeout_at(d, cmd == 9);
                s.leave(me);
                let to = s.th[me].timed_out;
                s.th[me].wake_at = u64::MAX;
                set_active(true);
                if to {
                    errno(libc::ETIMEDOUT);
                    return -1;
                }
                return 0;
            }
            1 | 10 => {
                let mut left = c;
                let mut k = 0;
                for t in 0..s.th.len() {
                    if left == 0 {
                        break;
                    }
                    if s.th[t].st == St::Block(a) {
                        s.th[t].st = St::Run;
                        s.th[t].wake_at = u64::MAX;
                        left -= 1;
                        k += 1;
                    }
                }
                return k;
            }
            _ => {}
        }
    }
    if n == libc::SYS_getrandom && active() {
        return getrandom(a as *mut u8, b, 0);
    }
    plain(n, [a, b, c, d, e, f])
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if active() {
        let s = sim();
        s.rand_reads += 1;
        let mut r = Rng::new(s.hash_seed.wrapping_mul(31).wrapping_add(s.rand_reads));
        for i in 0..len {
            *buf.add(i) = r.next() as u8;
        }
        return len as isize;
    }
    plain(libc::SYS_getrandom, [buf as usize, len, flags as usize, 0, 0, 0])
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if active() {
        let s = sim();
        s.clock_reads += 1;
        if s.clock_seed != 0 {
            // the clock the library reads jumps: forwards for any clock, backwards for wall time
            let mut r = Rng::new(s.clock_seed.wrapping_add(s.clock_reads));
            match r.below(4) {
                0 => {}
                1 => s.clock_skew += r.below(1_000_000),
                2 => s.clock_skew += r.below(10_000_000_000),
                _ => s.clock_skew += r.below(100_000) * 1_000_000_000,
            }
            s.fire("clock_jump");
        }
        let n = s.now();
        (*ts).tv_sec = (n / 1_000_000_000) as i64;
        (*ts).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    plain(libc::SYS_clock_gettime, [id as usize, ts as usize, 0, 0, 0, 0]) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if active() {
        sleep_until(timeout_at(req as usize, false));
        return 0;
    }
    plain(libc::SYS_nanosleep, [req as usize, rem as usize, 0, 0, 0, 0]) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if active() {
        sleep_until(timeout_at(req as usize, fl & 1 == 1));
        return 0;
    }
    let r = raw_syscall(libc::SYS_clock_nanosleep, [id as usize, fl as usize, req as usize, rem as usize, 0, 0]);
    -(r as i32)
}
fn sleep_until(t: u64) {
    set_active(false);
    let s = sim();
    let me = tid();
    s.th[me].st = St::Sleep;
    s.th[me].wake_at = t;
    s.leave(me);
    s.th[me].st = St::Run;
    set_active(true);
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if active() {
        let s = sim();
        if s.th.len() > 1 && !s.explicit {
            s.step += 1;
            s.th[tid()].lstep += 1;
            set_active(false);
            s.preempt(tid(), false);
            set_active(true);
        } else {
            point(K_BLOCK, 0);
        }
        return 0;
    }
    plain(libc::SYS_sched_yield, [0; 6]) as i32
}
static VALS: [&[u8]; 6] = [b"1\0", b"0\0", b"true\0", b"\0", b"ja_JP.UTF-8\0", b"2147483647\0"];
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    if active() {
        let s = sim();
        let n = std::ffi::CStr::from_ptr(name).to_bytes();
        if !n.starts_with(b"RUST_") {
            s.getenv_reads += 1;
            if s.getenv_seed == 0 {
                return std::ptr::null_mut();
            }
            let mut h = s.getenv_seed;
            for b in n {
                h = (h ^ *b as u64).wrapping_mul(0x100_0000_01B3);
            }
            let k = (h >> 17) % 7;
            return if k == 6 { std::ptr::null_mut() } else { VALS[k as usize].as_ptr() as *mut _ };
        }
        return std::ptr::null_mut();
    }
    let want = std::ffi::CStr::from_ptr(name).to_bytes();
    extern "C" {
        static environ: *const *const libc::c_char;
    }
    let mut p = environ;
    if p.is_null() {
        return std::ptr::null_mut();
    }
    while !(*p).is_null() {
        let e = std::ffi::CStr::from_ptr(*p).to_bytes();
        if e.len() > want.len() && e.starts_with(want) && e[want.len()] == b'=' {
            return (*p).add(want.len() + 1) as *mut _;
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}

// ---- everything by which a call could act on the system around it ----
pub fn acted(what: &'static str) {
    if active() {
        let me = tid();
        let s = sim();
        if me < s.th.len() {
            s.th[me].acts.push(what);
        }
    }
}
unsafe fn real(name: &std::ffi::CStr) -> *mut libc::c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr())
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if active() {
        acted("write");
        return n as isize;
    }
    plain(libc::SYS_write, [fd as usize, b as usize, n, 0, 0, 0])
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, b: *const u8, n: i32) -> isize {
    if active() {
        acted("write");
        let v = std::slice::from_raw_parts(b as *const libc::iovec, n.max(0) as usize);
        return v.iter().map(|x| x.iov_len as isize).sum();
    }
    plain(libc::SYS_writev, [fd as usize, b as usize, n as usize, 0, 0, 0])
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const i8, fl: i32, mode: u32) -> i32 {
    if active() {
        acted("open");
        if fl & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT) != 0 {
            return plain(libc::SYS_open, [c"/dev/null".as_ptr() as usize, libc::O_RDWR as usize, 0, 0, 0, 0]) as i32;
        }
    }
    plain(libc::SYS_open, [p as usize, fl as usize, mode as usize, 0, 0, 0]) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const i8, fl: i32, mode: u32) -> i32 {
    open64(p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn socket(a: i32, b: i32, c: i32) -> i32 {
    acted("socket");
    plain(libc::SYS_socket, [a as usize, b as usize, c as usize, 0, 0, 0]) as i32
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const i8) -> i32 {
    if active() {
        acted("chdir");
        return 0;
    }
    plain(libc::SYS_chdir, [p as usize, 0, 0, 0, 0, 0]) as i32
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const i8, m: u32) -> i32 {
    if active() {
        acted("mkdir");
        return 0;
    }
    plain(libc::SYS_mkdir, [p as usize, m as usize, 0, 0, 0, 0]) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const i8) -> i32 {
    if active() {
        acted("unlink");
        return 0;
    }
    plain(libc::SYS_unlink, [p as usize, 0, 0, 0, 0, 0]) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const i8, b: *const i8) -> i32 {
    if active() {
        acted("rename");
        return 0;
    }
    plain(libc::SYS_rename, [a as usize, b as usize, 0, 0, 0, 0]) as i32
}
#[no_mangle]
pub unsafe extern "C" fn setenv(k: *const i8, v: *const i8, o: i32) -> i32 {
    acted("setenv");
    let f: unsafe extern "C" fn(*const i8, *const i8, i32) -> i32 = std::mem::transmute(real(c"setenv"));
    f(k, v, o)
}
#[no_mangle]
pub unsafe extern "C" fn unsetenv(k: *const i8) -> i32 {
    acted("unsetenv");
    let f: unsafe extern "C" fn(*const i8) -> i32 = std::mem::transmute(real(c"unsetenv"));
    f(k)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut u8, a: *const u8, g: *mut u8, x: *mut u8) -> i32 {
    acted("pthread_create");
    let f: unsafe extern "C" fn(*mut u8, *const u8, *mut u8, *mut u8) -> i32 = std::mem::transmute(real(c"pthread_create"));
    f(t, a, g, x)
}
#[no_mangle]
pub unsafe extern "C" fn sigaction(n: i32, a: *const u8, b: *mut u8) -> i32 {
    acted("sigaction");
    let f: unsafe extern "C" fn(i32, *const u8, *mut u8) -> i32 = std::mem::transmute(real(c"sigaction"));
    f(n, a, b)
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const i8) -> i32 {
    if active() {
        acted("rmdir");
        return 0;
    }
    plain(libc::SYS_rmdir, [p as usize, 0, 0, 0, 0, 0]) as i32
}
#[no_mangle]
pub unsafe extern "C" fn kill(p: i32, n: i32) -> i32 {
    if active() {
        acted("kill");
        return 0;
    }
    plain(libc::SYS_kill, [p as usize, n as usize, 0, 0, 0, 0]) as i32
}
/// Recorded and not done when the library asks; passed on otherwise.
macro_rules! acts { ($($n:ident($($a:ident: $t:ty),*) = $r:expr, $e:expr;)*) => { $(
    #[no_mangle]
    pub unsafe extern "C" fn $n($($a: $t),*) -> isize {
        if active() {
            acted(stringify!($n));
            errno($e);
            return $r;
        }
        let f: unsafe extern "C" fn($($t),*) -> i32 = std::mem::transmute(real(std::ffi::CStr::from_bytes_with_nul_unchecked(concat!(stringify!($n), "\0").as_bytes())));
        f($($a),*) as isize
    } )* } }
acts! {
    fork() = -1, libc::EAGAIN;
    vfork() = -1, libc::EAGAIN;
    posix_spawn(a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) = libc::EPERM as isize, libc::EPERM;
    posix_spawnp(a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) = libc::EPERM as isize, libc::EPERM;
    execve(a: usize, b: usize, c: usize) = -1, libc::EPERM;
    execvp(a: usize, b: usize) = -1, libc::EPERM;
    creat64(a: usize, b: usize) = -1, libc::EPERM;
    connect(a: usize, b: usize, c: usize) = 0, 0;
    bind(a: usize, b: usize, c: usize) = 0, 0;
    socketpair(a: usize, b: usize, c: usize, d: usize) = -1, libc::EPERM;
    link(a: usize, b: usize) = 0, 0;
    linkat(a: usize, b: usize, c: usize, d: usize, e: usize) = 0, 0;
    symlink(a: usize, b: usize) = 0, 0;
    symlinkat(a: usize, b: usize, c: usize) = 0, 0;
    unlinkat(a: usize, b: usize, c: usize) = 0, 0;
    renameat(a: usize, b: usize, c: usize, d: usize) = 0, 0;
    mkfifo(a: usize, b: usize) = 0, 0;
    chmod(a: usize, b: usize) = 0, 0;
    fchmod(a: usize, b: usize) = 0, 0;
    truncate64(a: usize, b: usize) = 0, 0;
    ftruncate64(a: usize, b: usize) = 0, 0;
    fchdir(a: usize) = 0, 0;
    umask(a: usize) = 0o022, 0;
    putenv(a: usize) = 0, 0;
    clearenv() = 0, 0;
    alarm(a: usize) = 0, 0;
    setitimer(a: usize, b: usize, c: usize) = 0, 0;
    setrlimit64(a: usize, b: usize) = 0, 0;
    setpriority(a: usize, b: usize, c: usize) = 0, 0;
    sched_setaffinity(a: usize, b: usize, c: usize) = 0, 0;
    pthread_sigmask(a: usize, b: usize, c: usize) = 0, 0;
    sigprocmask(a: usize, b: usize, c: usize) = 0, 0;
    raise(a: usize) = 0, 0;
}
#[no_mangle]
pub unsafe extern "C" fn signal(n: i32, h: usize) -> usize {
    if active() {
        acted("signal");
        return 0;
    }
    let f: unsafe extern "C" fn(i32, usize) -> usize = std::mem::transmute(real(c"signal"));
    f(n, h)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, p: *const i8, fl: i32, mode: u32) -> i32 {
    if active() {
        acted("open");
        if fl & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT) != 0 {
            return plain(libc::SYS_open, [c"/dev/null".as_ptr() as usize, libc::O_RDWR as usize, 0, 0, 0, 0]) as i32;
        }
    }
    plain(libc::SYS_openat, [d as usize, p as usize, fl as usize, mode as usize, 0, 0]) as i32
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: i32, p: *const i8, fl: i32, mode: u32) -> i32 {
    openat64(d, p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const i8) -> usize {
    acted("opendir");
    let f: unsafe extern "C" fn(*const i8) -> usize = std::mem::transmute(real(c"opendir"));
    f(p)
}
