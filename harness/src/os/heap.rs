//! The memory of the simulated process: what its code (not the simulator's) holds is
//! counted, and an allocation can fail.
use super::{active, sched, st};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub struct Heap;
#[global_allocator]
static HEAP: Heap = Heap;

const COUNTED: usize = 0x51ed_c0de_0000_0001;
const OTHER: usize = 0x51ed_c0de_0000_0000;

// the memory of a thread that has ended may be freed while others run
static LIVE: AtomicI64 = AtomicI64::new(0);
static mut PEAK: i64 = 0;
static mut ALLOCS: u64 = 0;
static mut FAILED: u64 = 0;

// The memory of the simulated process lies in a region of its own: its addresses, and which of them
// are used again, depend on the run alone.
const BASE: usize = 0x1000_0000_0000;
const SPACE: usize = 1 << 36;
const CLASSES: usize = 160;
static mut NEXT: usize = 0;
static mut END: usize = 0;
static mut FREE: [usize; CLASSES] = [0; CLASSES];

fn in_region(p: *mut u8) -> bool {
    (BASE..BASE + SPACE).contains(&(p as usize))
}
/// Steps of 16 bytes up to 256, then four per doubling.
fn class(size: usize) -> (usize, usize) {
    if size <= 256 {
        let c = size.div_ceil(16).max(1);
        return (c, c * 16);
    }
    let log = (usize::BITS - 1 - (size - 1).leading_zeros()) as usize;
    let quarter = 1usize << (log - 2);
    let k = (size - 1 - (1 << log)) / quarter;
    (17 + (log - 8) * 4 + k, (1 << log) + (k + 1) * quarter)
}
unsafe fn region_take(size: usize, zeroed: bool) -> *mut u8 {
    let (c, room) = class(size);
    if c < CLASSES && FREE[c] != 0 {
        let p = FREE[c] as *mut u8;
        FREE[c] = *(p as *const usize);
        if zeroed {
            p.write_bytes(0, size);
        }
        return p;
    }
    if c >= CLASSES || room > END - NEXT {
        return std::ptr::null_mut();
    }
    let p = NEXT as *mut u8;
    NEXT += room;
    p
}
/// What a thread frees that is over (it runs beside the others) is not used again.
unsafe fn region_give(p: *mut u8, size: usize) {
    if sched::managed() {
        let (c, _) = class(size);
        *(p as *mut usize) = FREE[c];
        FREE[c] = p as usize;
    }
}

/// Before the simulation of a process begins.
pub fn init() {
    unsafe {
        if END == 0 {
            let flags = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE;
            let (rw, none) = ((libc::PROT_READ | libc::PROT_WRITE) as u64, -1i64 as u64);
            if super::raw::sys6(libc::SYS_mmap, BASE as u64, SPACE as u64, rw, flags as u64, none, 0) == BASE as i64 {
                END = BASE + SPACE;
                NEXT = BASE;
            }
        }
    }
    LIVE.store(0, Relaxed);
    unsafe {
        PEAK = 0;
        ALLOCS = 0;
        FAILED = 0;
    }
}
/// Bytes that the simulated process holds.
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
pub fn peak() -> i64 {
    unsafe { PEAK }
}
pub fn allocs() -> u64 {
    unsafe { ALLOCS }
}
/// Allocations that failed by the plan.
pub fn failed() -> u64 {
    unsafe { FAILED }
}
/// From here on `peak` tells the highest.
pub fn mark() {
    unsafe { PEAK = live() }
}

fn counts() -> bool {
    active() && sched::outside()
}
/// The plan fails this allocation.
unsafe fn fails(size: usize) -> bool {
    let p = &st().plan;
    if let Some((nth, n)) = p.no_mem {
        if ALLOCS > nth && ALLOCS <= nth.saturating_add(n) {
            FAILED += 1;
            return true;
        }
    }
    if p.memory.is_some_and(|m| live() + size as i64 > m as i64) {
        FAILED += 1;
        return true;
    }
    false
}
unsafe fn took(n: usize) {
    PEAK = PEAK.max(LIVE.fetch_add(n as i64, Relaxed) + n as i64);
}

fn pad(l: &Layout) -> usize {
    l.align().max(16)
}
fn whole(l: &Layout, size: usize) -> Layout {
    unsafe { Layout::from_size_align_unchecked(size + pad(l), pad(l)) }
}

unsafe fn take(l: Layout, zeroed: bool) -> *mut u8 {
    let counted = counts();
    if counted {
        ALLOCS += 1;
        if fails(l.size()) {
            return std::ptr::null_mut();
        }
    }
    if l.size() > isize::MAX as usize - 2 * pad(&l) {
        return std::ptr::null_mut();
    }
    let w = whole(&l, l.size());
    let mut b = if counted && pad(&l) == 16 { region_take(w.size(), zeroed) } else { std::ptr::null_mut() };
    if b.is_null() {
        b = if zeroed { System.alloc_zeroed(w) } else { System.alloc(w) };
    }
    if b.is_null() {
        return b;
    }
    let p = b.add(pad(&l));
    *(p.sub(8) as *mut usize) = if counted { COUNTED } else { OTHER };
    if counted {
        took(l.size());
    }
    p
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        take(l, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        take(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if *(p.sub(8) as *const usize) == COUNTED && active() {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        let b = p.sub(pad(&l));
        if in_region(b) {
            region_give(b, l.size() + 16);
        } else {
            System.dealloc(b, whole(&l, l.size()));
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let counted = *(p.sub(8) as *const usize) == COUNTED && active();
        if counted && counts() {
            ALLOCS += 1;
            if size > l.size() && fails(size - l.size()) {
                return std::ptr::null_mut();
            }
        }
        if size > isize::MAX as usize - 2 * pad(&l) {
            return std::ptr::null_mut();
        }
        let old = p.sub(pad(&l));
        if in_region(old) {
            if class(size + 16).1 == class(l.size() + 16).1 {
                if counted {
                    LIVE.fetch_sub(l.size() as i64, Relaxed);
                    took(size);
                }
                return p;
            }
            let mut b = if counts() { region_take(size + 16, false) } else { std::ptr::null_mut() };
            if b.is_null() {
                b = System.alloc(whole(&l, size));
            }
            if b.is_null() {
                return b;
            }
            b.copy_from_nonoverlapping(old, 16 + size.min(l.size()));
            region_give(old, l.size() + 16);
            if counted {
                LIVE.fetch_sub(l.size() as i64, Relaxed);
                took(size);
            }
            return b.add(16);
        }
        let b = System.realloc(old, whole(&l, l.size()), size + pad(&l));
        if b.is_null() {
            return b;
        }
        if counted {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
            took(size);
        }
        b.add(pad(&l))
    }
}

/// An allocation that nothing makes good ends the process.
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if active() && FAILED > 0 {
        let _in = sched::Inside::new();
        *st().fired.entry("memory:abort".into()).or_default() += 1;
        super::die(super::End::Killed);
    }
    let tid = super::raw::sys3(libc::SYS_gettid, 0, 0, 0);
    let pid = super::raw::sys3(libc::SYS_getpid, 0, 0, 0);
    super::raw::sys3(libc::SYS_tgkill, pid as u64, tid as u64, libc::SIGABRT as u64);
    super::raw::exit_now(134)
}
