//! The scheduler. Simulated threads are real threads of which exactly one holds the
//! token and runs; it gives the token away only here: at I/O calls, futex calls,
//! yields, thread start and end, and at the code edges the compiler instruments in
//! lindera's crates. Who gets it is the plan's decision.
use super::{active, die, raw, st, End, Preempt, Report};
use crate::rng::{mix, Rng};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ts {
    Run,
    Futex { addr: usize, deadline: u64, timed_out: bool },
    Join(usize),
    Sleep(u64),
    Done,
}
struct Th {
    state: Ts,
    token: &'static AtomicU32,
    pthread: u64,
}

static mut TH: Vec<Th> = Vec::new();
static mut CUR: usize = 0;
pub static mut MULTI: bool = false;

// code edges
pub const MAX_EDGES: usize = 1 << 17;
/// From here on not edges but sites of atomic operations, by address.
pub const SITES: usize = MAX_EDGES - (1 << 15);
static mut EDGE_COUNT: u32 = 0;
/// Shared by all processes: edges any run reached.
pub static mut COVER: *mut u8 = std::ptr::null_mut();
static mut HITS: *mut u32 = std::ptr::null_mut();
static mut TRIG: *mut u8 = std::ptr::null_mut();
static mut STEPS: u64 = 0;
static mut NEXT: u64 = u64::MAX;
static mut SYNCS: u64 = 0;
static mut LAST_SWITCH: u64 = 0;
static mut DENSE: Option<(Rng, super::Dense)> = None;
static mut SWITCHES: Vec<(u64, u32)> = Vec::new();
static mut SWITCH_HASH: u64 = 0;
static mut NTHREADS: u32 = 0;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    /// The thread is in the simulator, whose code may share instrumented instances of
    /// generic functions with lindera's crates.
    static INSIDE: Cell<u32> = const { Cell::new(0) };
}

/// The code that runs is not the simulator's.
pub fn outside() -> bool {
    managed() && INSIDE.with(|i| i.get()) == 0
}

pub struct Inside;
impl Inside {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Inside {
        INSIDE.with(|i| i.set(i.get() + 1));
        Inside
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        INSIDE.with(|i| i.set(i.get() - 1));
    }
}

unsafe fn map(len: usize, shared: bool) -> *mut u8 {
    let fl = (if shared { libc::MAP_SHARED } else { libc::MAP_PRIVATE }) | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE;
    let r = raw::sys6(libc::SYS_mmap, 0, len as u64, 3, fl as u64, u64::MAX, 0);
    assert!(r > 0);
    r as *mut u8
}
pub fn shared_map(len: usize) -> *mut u8 {
    unsafe { map(len, true) }
}

/// Once, in the parent of all runs.
pub fn setup_cover() {
    unsafe {
        COVER = map(MAX_EDGES, true);
    }
}
pub fn cover_count() -> usize {
    unsafe { (0..EDGE_COUNT as usize + 1).filter(|i| !COVER.is_null() && *COVER.add(*i) != 0).count() }
}
pub fn covered(e: u32) -> bool {
    unsafe { !COVER.is_null() && *COVER.add(e as usize) != 0 }
}
pub fn edges_total() -> usize {
    unsafe { EDGE_COUNT as usize }
}

#[allow(static_mut_refs)]
pub fn init() {
    unsafe {
        TH.clear();
        TH.push(Th { state: Ts::Run, token: Box::leak(Box::new(AtomicU32::new(0))), pthread: libc::pthread_self() });
        CUR = 0;
        ME.with(|m| m.set(0));
        MULTI = false;
        NTHREADS = 1;
        if COVER.is_null() {
            COVER = map(MAX_EDGES, false);
        }
        // fresh pages: cheap zeroing
        if !HITS.is_null() {
            raw::sys3(libc::SYS_munmap, HITS as u64, (MAX_EDGES * 4) as u64, 0);
            raw::sys3(libc::SYS_munmap, TRIG as u64, MAX_EDGES as u64, 0);
        }
        HITS = map(MAX_EDGES * 4, false) as *mut u32;
        TRIG = map(MAX_EDGES, false);
        STEPS = 0;
        SYNCS = 0;
        NEXT = u64::MAX;
        LAST_SWITCH = 0;
        SWITCHES.clear();
        SWITCH_HASH = 0;
        let p = &st().plan;
        DENSE = p.dense.map(|d| (Rng::new(d.seed), d));
        for pr in &p.preempts {
            if let Preempt::Edge { edge, .. } = pr {
                *TRIG.add(*edge as usize % MAX_EDGES) = 1;
            }
        }
        plan_next();
    }
}

#[allow(static_mut_refs)]
unsafe fn plan_next() {
    let p = &st().plan;
    let mut n = p.preempts.iter().filter_map(|x| if let Preempt::Step { step, .. } = x { Some(*step) } else { None }).filter(|s| *s > STEPS).min().unwrap_or(u64::MAX);
    if let Some((r, d)) = DENSE.as_mut() {
        if STEPS < d.to {
            n = n.min(STEPS.max(d.from) + 1 + r.below(2 * d.mean.max(1)));
        }
    }
    n = n.min(LAST_SWITCH + 3_000_000).max(STEPS + 1);
    if p.max_steps > 0 {
        n = n.min(p.max_steps.max(STEPS + 1));
    }
    NEXT = n;
}

#[allow(static_mut_refs)]
pub fn fill(r: &mut Report, edges: bool) {
    unsafe {
        r.steps = STEPS;
        r.syncs = SYNCS;
        r.switches = std::mem::take(&mut SWITCHES);
        r.switch_hash = SWITCH_HASH;
        r.threads = NTHREADS;
        if edges {
            for i in (0..=EDGE_COUNT).chain(SITES as u32..MAX_EDGES as u32) {
                let h = *HITS.add(i as usize);
                if h > 0 {
                    r.edges.push((i, h));
                }
            }
        }
    }
}

pub fn cur() -> usize {
    unsafe { CUR }
}
fn mine() -> bool {
    active() && ME.with(|m| m.get()) == unsafe { CUR }
}
/// The calling thread is a simulated thread and the simulation is on.
pub fn managed() -> bool {
    active() && ME.with(|m| m.get()) != usize::MAX
}

#[allow(static_mut_refs)]
unsafe fn hand_over(to: usize) {
    let from = CUR;
    if to == from {
        return;
    }
    LAST_SWITCH = STEPS;
    SWITCH_HASH = mix(SWITCH_HASH ^ to as u64, STEPS);
    if SWITCHES.len() < 100_000 {
        SWITCHES.push((STEPS, to as u32));
    }
    CUR = to;
    let my = TH[from].token;
    let tok = TH[to].token;
    tok.store(1, Ordering::SeqCst);
    raw::futex_wake(tok.as_ptr());
    if TH[from].state == Ts::Done {
        return;
    }
    wait_token(my);
}
unsafe fn wait_token(my: &'static AtomicU32) {
    while my.load(Ordering::SeqCst) == 0 {
        raw::futex_wait(my.as_ptr(), 0);
    }
    my.store(0, Ordering::SeqCst);
}

#[allow(static_mut_refs)]
unsafe fn runnable() -> Vec<usize> {
    TH.iter().enumerate().filter(|(_, t)| t.state == Ts::Run).map(|(i, _)| i).collect()
}

/// Give the token to some other runnable thread: number `to` counted on from here.
unsafe fn switch(to: u32) {
    let r = runnable();
    let others: Vec<usize> = r.into_iter().filter(|t| *t != CUR).collect();
    if others.is_empty() {
        return;
    }
    let next = others[to as usize % others.len()];
    hand_over(next);
}

/// The current thread cannot go on: run another, or jump the clock, or it is a deadlock.
#[allow(static_mut_refs)]
unsafe fn block() {
    loop {
        if TH[CUR].state == Ts::Run {
            return;
        }
        let r = runnable();
        if !r.is_empty() {
            let pick = match DENSE.as_mut() {
                Some((rng, d)) if STEPS >= d.from && STEPS < d.to => *rng.pick(&r),
                _ => r[0],
            };
            if pick == CUR {
                return;
            }
            hand_over(pick);
            continue;
        }
        // nobody can run: the next timer
        let mut best: Option<(u64, usize)> = None;
        for (i, t) in TH.iter().enumerate() {
            let d = match t.state {
                Ts::Futex { deadline, .. } if deadline != u64::MAX => deadline,
                Ts::Sleep(d) => d,
                _ => continue,
            };
            if best.map(|b| d < b.0).unwrap_or(true) {
                best = Some((d, i));
            }
        }
        match best {
            Some((d, i)) => {
                let s = st();
                s.clock = s.clock.max(d);
                if let Ts::Futex { addr, deadline, .. } = TH[i].state {
                    let _ = (addr, deadline);
                    TIMED_OUT[i % 64] = true;
                }
                TH[i].state = Ts::Run;
            }
            None => die(End::Deadlock),
        }
    }
}
static mut TIMED_OUT: [bool; 64] = [false; 64];

/// I/O call, futex call, yield: a place where real systems switch threads.
pub fn sync_point() {
    unsafe {
        if !mine() {
            return;
        }
        SYNCS += 1;
        if !MULTI {
            return;
        }
        let n = SYNCS;
        let mut to = None;
        for p in &st().plan.preempts {
            if let Preempt::Sync { nth, to: t } = p {
                if *nth == n {
                    to = Some(*t);
                }
            }
        }
        if let Some(t) = to {
            switch(t);
        }
    }
}

pub fn yield_now() {
    unsafe {
        if mine() {
            SYNCS += 1;
            switch(0);
        }
    }
}

pub fn sleep(ns: u64) {
    unsafe {
        if !mine() {
            return;
        }
        #[allow(static_mut_refs)]
        {
            TH[CUR].state = Ts::Sleep(st().clock + ns);
        }
        block();
    }
}

#[allow(static_mut_refs)]
pub unsafe fn futex(addr: *const u32, op: i32, val: u32, timeout: *const libc::timespec) -> i64 {
    let cmd = op & 0x7f;
    sync_point();
    match cmd {
        0 | 9 => {
            if std::ptr::read_volatile(addr) != val {
                return -(libc::EAGAIN as i64);
            }
            let deadline = if timeout.is_null() {
                u64::MAX
            } else {
                let t = (*timeout).tv_sec as u64 * 1_000_000_000 + (*timeout).tv_nsec as u64;
                if cmd == 9 {
                    t
                } else {
                    st().clock + t
                }
            };
            let me = CUR;
            TIMED_OUT[me % 64] = false;
            TH[me].state = Ts::Futex { addr: addr as usize, deadline, timed_out: false };
            block();
            if TIMED_OUT[me % 64] {
                TIMED_OUT[me % 64] = false;
                -(libc::ETIMEDOUT as i64)
            } else {
                0
            }
        }
        1 | 10 => {
            let mut n = 0;
            for t in TH.iter_mut() {
                if n >= val as i64 {
                    break;
                }
                if let Ts::Futex { addr: a, .. } = t.state {
                    if a == addr as usize {
                        t.state = Ts::Run;
                        n += 1;
                    }
                }
            }
            n
        }
        _ => -(libc::ENOSYS as i64),
    }
}

// ---- threads ----

type StartFn = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
struct Start {
    f: StartFn,
    arg: *mut libc::c_void,
    id: usize,
}

#[allow(static_mut_refs)]
extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let s = Box::from_raw(p as *mut Start);
        let (f, arg, id) = (s.f, s.arg, s.id);
        drop(s);
        let tok = TH[id].token;
        wait_token(tok);
        ME.with(|m| m.set(id));
        let r = f(arg);
        let _in = Inside::new();
        // done: wake joiners, pass the token on, leave the simulation
        if active() {
            TH[id].state = Ts::Done;
            for t in TH.iter_mut() {
                if t.state == Ts::Join(id) {
                    t.state = Ts::Run;
                }
            }
            block_done();
        }
        ME.with(|m| m.set(usize::MAX));
        r
    }
}

#[allow(static_mut_refs)]
unsafe fn block_done() {
    // like block(), for a thread that will not run again
    let r = runnable();
    if !r.is_empty() {
        let pick = match DENSE.as_mut() {
            Some((rng, d)) if STEPS >= d.from && STEPS < d.to => *rng.pick(&r),
                _ => r[0],
        };
        hand_over(pick);
        return;
    }
    if TH.iter().all(|t| t.state == Ts::Done) {
        return;
    }
    // wake by timer or deadlock
    let mut best: Option<(u64, usize)> = None;
    for (i, t) in TH.iter().enumerate() {
        let d = match t.state {
            Ts::Futex { deadline, .. } if deadline != u64::MAX => deadline,
            Ts::Sleep(d) => d,
            _ => continue,
        };
        if best.map(|b| d < b.0).unwrap_or(true) {
            best = Some((d, i));
        }
    }
    match best {
        Some((d, i)) => {
            st().clock = st().clock.max(d);
            TIMED_OUT[i % 64] = true;
            TH[i].state = Ts::Run;
            hand_over(i);
        }
        None => die(End::Deadlock),
    }
}

pub type CreateFn =
    unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, StartFn, *mut libc::c_void) -> i32;

#[allow(static_mut_refs)]
pub unsafe fn create(
    real: CreateFn,
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: StartFn,
    arg: *mut libc::c_void,
) -> i32 {
    let id = TH.len();
    TH.push(Th { state: Ts::Run, token: Box::leak(Box::new(AtomicU32::new(0))), pthread: 0 });
    NTHREADS += 1;
    MULTI = true;
    let s = Box::into_raw(Box::new(Start { f, arg, id }));
    let r = real(out, attr, trampoline, s as *mut libc::c_void);
    if r != 0 {
        TH[id].state = Ts::Done;
        return r;
    }
    TH[id].pthread = *out;
    sync_point();
    0
}

/// Wait in simulated time; the real join comes after.
#[allow(static_mut_refs)]
pub unsafe fn join(t: libc::pthread_t) {
    sync_point();
    if let Some(id) = TH.iter().rposition(|x| x.pthread == t) {
        if TH[id].state != Ts::Done {
            TH[CUR].state = Ts::Join(id);
            block();
        }
    }
}

// ---- code edges ----

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        EDGE_COUNT += 1;
        *p = EDGE_COUNT.min(SITES as u32 - 1);
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ACTIVE_FAST() {
        return;
    }
    let e = *g as usize;
    if ME.with(|m| m.get()) != CUR || INSIDE.with(|i| i.get()) != 0 {
        return;
    }
    STEPS += 1;
    if *COVER.add(e) == 0 {
        *COVER.add(e) = 1;
    }
    if MULTI {
        // counted from the start of the second thread on: only there a switch can be
        let h = *HITS.add(e) + 1;
        *HITS.add(e) = h;
        if *TRIG.add(e) != 0 {
            edge_slow(e as u32, h);
        }
    }
    if STEPS >= NEXT {
        step_slow();
    }
}
/// Before an atomic operation whose call returns to `at`, counted from the start of
/// the program.
pub unsafe fn atomic_site(at: usize) {
    if !ACTIVE_FAST() || !MULTI || ME.with(|m| m.get()) != CUR || INSIDE.with(|i| i.get()) != 0 {
        return;
    }
    STEPS += 1;
    let e = SITES + (at.wrapping_mul(0x9e37_79b1) >> 7) % (MAX_EDGES - SITES);
    let h = *HITS.add(e) + 1;
    *HITS.add(e) = h;
    if *TRIG.add(e) != 0 {
        edge_slow(e as u32, h);
    }
    if STEPS >= NEXT {
        step_slow();
    }
}
#[allow(non_snake_case)]
#[inline(always)]
unsafe fn ACTIVE_FAST() -> bool {
    super::ACTIVE
}

#[cold]
unsafe fn edge_slow(e: u32, h: u32) {
    let _in = Inside::new();
    let mut t = None;
    for p in &st().plan.preempts {
        if let Preempt::Edge { edge, nth, to } = p {
            if *edge == e && *nth == h {
                t = Some(*to);
            }
        }
    }
    if let Some(t) = t {
        switch(t);
    }
}

#[cold]
#[allow(static_mut_refs)]
unsafe fn step_slow() {
    let _in = Inside::new();
    let p = &st().plan;
    if p.max_steps > 0 && STEPS >= p.max_steps {
        die(End::StepLimit);
    }
    let mut t = None;
    for x in &p.preempts {
        if let Preempt::Step { step, to } = x {
            if *step == STEPS {
                t = Some(*to);
            }
        }
    }
    if t.is_none() {
        match DENSE.as_mut() {
            Some((r, d)) if STEPS >= d.from && STEPS < d.to => t = Some(r.below(64) as u32),
            _ => {}
        }
    }
    if STEPS >= LAST_SWITCH + 3_000_000 {
        // nobody may starve, not even behind a spinning thread
        t = t.or(Some(0));
        LAST_SWITCH = STEPS;
    }
    plan_next();
    if let Some(t) = t {
        if MULTI {
            switch(t);
        }
    }
}
