pub mod build;
pub mod cli;
pub mod conc;
pub mod embed;
pub mod load;
pub mod mem;
pub mod more;

use crate::case::*;
use crate::os::{Call, Dense, Ev, Fault, FaultKind, Plan, Preempt, Report, Sticky};
use crate::rng::Rng;
use crate::world::*;
use std::collections::BTreeMap;

pub struct Prop {
    pub id: &'static str,
    pub groups: u64,
    pub gen: fn(&mut World, &mut Rng, u64) -> Vec<Case>,
    pub exec: Exec,
    pub rule: &'static str,
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(build::props());
    v.extend(load::props());
    v.extend(cli::props());
    v.extend(conc::props());
    v.extend(more::props());
    v.extend(embed::props());
    v.extend(mem::props());
    v
}

/// Errors a call can meet in a real deployment.
pub fn errno_for(rng: &mut Rng, call: Call, write: bool) -> i32 {
    use libc::{EACCES, EAGAIN, EBUSY, EDQUOT, EFBIG, EIO, EMFILE, ENFILE, ENOENT, ENOMEM, ENOSPC, EPERM, EPIPE, EROFS, ESTALE, ETIMEDOUT, ETXTBSY};
    match call {
        Call::Open if write => *rng.pick(&[EACCES, ENOSPC, EMFILE, EROFS, EIO, EDQUOT, ETXTBSY, EPERM, ENOENT]),
        Call::Open => *rng.pick(&[EACCES, ENOENT, EMFILE, EIO, ESTALE, ENFILE, ETIMEDOUT]),
        Call::Read => *rng.pick(&[EIO, EIO, ESTALE, ETIMEDOUT, ENOMEM, EAGAIN]),
        Call::Write => *rng.pick(&[ENOSPC, ENOSPC, EIO, EDQUOT, EFBIG, EAGAIN, ETIMEDOUT]),
        Call::Mkdir => *rng.pick(&[ENOSPC, EACCES, EROFS, EIO, ENOENT]),
        Call::Opendir => *rng.pick(&[EACCES, EMFILE, EIO]),
        Call::Readdir => EIO,
        Call::Fsync => EIO,
        Call::Stdin => EIO,
        Call::Stdout => *rng.pick(&[EPIPE, ENOSPC, EIO]),
        Call::Unlink | Call::Rename => *rng.pick(&[EACCES, EIO, EBUSY]),
        _ => *rng.pick(&[EIO, EACCES]),
    }
}

pub fn faultable(e: &Ev) -> bool {
    !matches!(e.call, Call::Close | Call::Seek) && !(e.call == Call::Fstat)
}

/// An event of a dry run: half the time any, half the time one of a rare sort.
pub fn pick_event<'a>(rng: &mut Rng, log: &'a [Ev], ok: &dyn Fn(&Ev) -> bool) -> Option<&'a Ev> {
    let v: Vec<&Ev> = log.iter().filter(|e| ok(e)).collect();
    if v.is_empty() {
        return None;
    }
    if rng.chance(1, 2) {
        return Some(v[rng.below(v.len() as u64) as usize]);
    }
    let mut sorts: BTreeMap<(Call, &str), Vec<&Ev>> = BTreeMap::new();
    for e in v {
        sorts.entry((e.call, &e.path)).or_default().push(e);
    }
    let k = rng.below(sorts.len() as u64) as usize;
    let g = sorts.into_values().nth(k).unwrap();
    Some(g[rng.below(g.len() as u64) as usize])
}

pub fn fault_at(e: &Ev, kind: FaultKind) -> Fault {
    Fault { call: e.call, path: e.path.clone(), nth: e.nth, kind }
}

pub fn rand_fault(rng: &mut Rng, log: &[Ev], ok: &dyn Fn(&Ev) -> bool) -> Option<Fault> {
    let e = pick_event(rng, log, ok)?;
    let write = e.call == Call::Open && e.req & (libc::O_CREAT as u64) != 0;
    let kind = if matches!(e.call, Call::Read | Call::Write) && rng.chance(1, 6) {
        FaultKind::Short(rng.below(e.req.clamp(1, 5000)) as u32)
    } else {
        FaultKind::Err(errno_for(rng, e.call, write))
    };
    Some(fault_at(e, kind))
}

/// Faults that may make an operation fail.
pub fn hostile(rng: &mut Rng, log: &[Ev], seed: u64, image_bytes: u64, written: u64) -> Plan {
    let mut p = base_plan(seed);
    let ok: &dyn Fn(&Ev) -> bool = &faultable;
    match rng.below(18) {
        16 => {
            // memory runs out: for one allocation, for some, or for good
            let n = *rng.pick(&[1, 1, 3, u64::MAX]);
            let most = 1 << rng.range(2, 15);
            p.no_mem = Some((rng.below(most), n));
        }
        17 => {
            let most = 1 << rng.range(8, 24);
            p.memory = Some(rng.below(most));
        }
        0..=5 => p.faults.extend(rand_fault(rng, log, ok)),
        6 => {
            // a file that comes in pieces, until one cannot be read
            if let Some(e) = pick_event(rng, log, &|e: &Ev| e.call == Call::Read && e.res > 8) {
                let pieces = rng.range(2, 12);
                p.max_read = (e.res / pieces).max(1) as u32;
                p.faults.push(Fault {
                    call: Call::Read,
                    path: e.path.clone(),
                    nth: rng.below(pieces as u64 + 1) as u32,
                    kind: FaultKind::Err(errno_for(rng, Call::Read, false)),
                });
            }
        }
        7..=8 => {
            p.faults.extend(rand_fault(rng, log, ok));
            p.faults.extend(rand_fault(rng, log, ok));
        }
        9..=10 => p.capacity = Some(image_bytes + rng.below(written + 1)),
        11 => p.max_fds = Some(rng.below(8) as u32),
        12..=13 => {
            if let Some(e) = pick_event(rng, log, ok) {
                let write = e.call == Call::Open && e.req & (libc::O_CREAT as u64) != 0;
                p.sticky.push(Sticky {
                    call: e.call,
                    path: if rng.chance(1, 2) { e.path.clone() } else { "/".into() },
                    from: if rng.chance(1, 3) { 0 } else { e.n },
                    errno: errno_for(rng, e.call, write),
                });
            }
        }
        _ => {
            gentle_into(rng, &mut p);
            p.faults.extend(rand_fault(rng, log, ok));
        }
    }
    if rng.chance(1, 4) {
        p.shuffle_dir = true;
    }
    if rng.chance(1, 6) {
        p.slow = rng.below(200) as u32;
    }
    p
}

/// Partial and interrupted transfers: nothing that may make an operation fail.
pub fn gentle_into(rng: &mut Rng, p: &mut Plan) {
    if rng.chance(2, 3) {
        p.max_read = *rng.pick(&[1, 2, 3, 7, 16, 100, 1000, 4095, 4096]);
    }
    if rng.chance(2, 3) {
        p.max_write = *rng.pick(&[1, 2, 5, 16, 100, 1000, 4095, 8191]);
    }
    if rng.chance(1, 2) {
        p.eintr_open = *rng.pick(&[0, 100, 400, 700]);
        p.eintr_read = *rng.pick(&[0, 50, 300, 600]);
        p.eintr_write = *rng.pick(&[0, 50, 300, 600]);
    }
    p.shuffle_dir = rng.chance(1, 3);
    p.slow = *rng.pick(&[0, 0, 10, 1000]);
}
pub fn gentle(rng: &mut Rng, seed: u64) -> Plan {
    let mut p = base_plan(seed);
    gentle_into(rng, &mut p);
    p
}

pub fn kill_at(rng: &mut Rng, e: &Ev) -> Fault {
    let kind = if e.call == Call::Write && rng.chance(2, 3) {
        FaultKind::KillAfter(rng.below(e.req + 1) as u32)
    } else {
        FaultKind::Kill
    };
    fault_at(e, kind)
}

/// Thread switches placed with the help of a dry run.
pub fn preempting(rng: &mut Rng, p: &mut Plan, dry: &Report) {
    match rng.below(10) {
        0..=4 => {
            // half of the time where the code seldom is: what happens once happens first
            let seldom: Vec<&(u32, u32)> = dry.edges.iter().filter(|e| e.1 <= 4).collect();
            let atomics: Vec<&(u32, u32)> = dry.edges.iter().filter(|e| e.0 as usize >= crate::os::sched::SITES).collect();
            if std::env::var_os("LSIM_EDGES").is_some() {
                eprintln!("EDGES {} seldom {} atomics {} {:?}", dry.edges.len(), seldom.len(), atomics.len(), atomics);
            }
            for _ in 0..rng.range(1, 5) {
                let any = dry.edges.get(rng.below(dry.edges.len() as u64) as usize);
                let one = match rng.below(8) {
                    0..=1 if !atomics.is_empty() => Some(*rng.pick(&atomics)),
                    0..=4 if !seldom.is_empty() => Some(*rng.pick(&seldom)),
                    _ => any,
                };
                if let Some((edge, n)) = one {
                    let nth = if rng.chance(1, 2) { 1 + rng.below((*n as u64).min(6)) } else { 1 + rng.below(*n as u64) };
                    p.preempts.push(Preempt::Edge { edge: *edge, nth: nth as u32, to: rng.below(8) as u32 });
                }
            }
        }
        5 => {
            for _ in 0..rng.range(1, 6) {
                p.preempts.push(Preempt::Sync { nth: 1 + rng.below(dry.syncs.max(1)), to: rng.below(8) as u32 });
            }
        }
        6 => {
            for _ in 0..rng.range(1, 6) {
                p.preempts.push(Preempt::Step { step: 1 + rng.below(dry.steps.max(1)), to: rng.below(8) as u32 });
            }
        }
        k => {
            let mean = match k {
                7 => rng.range(3, 30),
                8 => rng.range(30, 400),
                _ => rng.range(400, 6000),
            } as u64;
            p.dense = Some(Dense { seed: rng.next(), mean, from: 0, to: 1 << 40 });
        }
    }
}
