//! The allocator seam: counts what is live, decides where blocks land and what fresh memory holds.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct SimAlloc;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static COUNT: AtomicU64 = AtomicU64::new(0);
/// 0: blocks go where the system allocator puts them. Otherwise the state of a generator that
/// shifts every block and dirties its memory.
pub static PLACE: AtomicU64 = AtomicU64::new(0);
pub static SHIFTED: AtomicU64 = AtomicU64::new(0);

fn next_place() -> u64 {
    let s = PLACE.load(Relaxed);
    if s == 0 {
        return 0;
    }
    let mut z = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    PLACE.store(if z == 0 { 1 } else { z }, Relaxed);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// What fresh memory may hold: anything, and often what an earlier document left there.
const LEFT: &[u8] = b"'\"`>-*/{}@#=|.,;0eE)]\n aX_";
pub unsafe fn soil(u: *mut u8, n: usize, r: u64) {
    let c = LEFT[(r >> 40) as usize % LEFT.len()];
    match (r >> 32) % 5 {
        0 | 1 => std::ptr::write_bytes(u, (r >> 48) as u8, n),
        2 => std::ptr::write_bytes(u, c, n),
        k => {
            for i in 0..n {
                let j = if k == 3 { (r >> 40) as usize } else { (r >> 40) as usize + i / 4 };
                *u.add(i) = if i % 4 == 0 { LEFT[j % LEFT.len()] } else { 0 };
            }
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::sched::point_alloc();
        COUNT.fetch_add(1, Relaxed);
        let a = l.align().max(16);
        let r = if crate::sched::active() { next_place() } else { 0 };
        let off = a * (1 + (r % 13) as usize);
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + off, a));
        if p.is_null() {
            return p;
        }
        let u = p.add(off);
        *(u.sub(8) as *mut u64) = off as u64;
        if r != 0 {
            SHIFTED.fetch_add(1, Relaxed);
            soil(u, l.size(), r);
        }
        LIVE.fetch_add(l.size() as i64, Relaxed);
        BLOCKS.fetch_add(1, Relaxed);
        u
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let a = l.align().max(16);
        let off = *(u.sub(8) as *mut u64) as usize;
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
        if PLACE.load(Relaxed) != 0 {
            std::ptr::write_bytes(u, 0xDD, l.size());
        }
        System.dealloc(u.sub(off), Layout::from_size_align_unchecked(l.size() + off, a));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
