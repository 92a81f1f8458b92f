//! The simulated operating system under the real code: one process, its threads, one
//! disk, standard streams, a clock and a random source. While the simulation is
//! active every libc call of hooks.rs that lindera's code makes through Rust's
//! standard library ends here and nothing reaches the real file system.
pub mod atomics;
pub mod heap;
pub mod hooks;
pub mod raw;
pub mod sched;
pub mod vfs;

use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::rc::Rc;
use std::collections::{BTreeMap, BTreeSet};
use vfs::{norm, Entry, Image};

pub const FD_BASE: i32 = 1 << 20;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Call {
    Open,
    Read,
    Write,
    Close,
    Stat,
    Fstat,
    Mkdir,
    Opendir,
    Readdir,
    Seek,
    Unlink,
    Rename,
    Fsync,
    Trunc,
    Stdin,
    Stdout,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum FaultKind {
    /// The call fails with this errno and does nothing.
    Err(i32),
    /// Only this many bytes are transferred.
    Short(u32),
    /// The process dies before the call.
    Kill,
    /// The process dies after this many bytes of the write reached the file.
    KillAfter(u32),
    /// The file turns out to end here: another program cut it while it was being read.
    Vanish,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fault {
    /// The nth (from 0) call of this sort on this path.
    pub call: Call,
    pub path: String,
    pub nth: u32,
    pub kind: FaultKind,
}

/// A fault that stays: every matching call from event `from` on fails.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Sticky {
    pub call: Call,
    pub path: String,
    pub from: u64,
    pub errno: i32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Preempt {
    /// When code edge `edge` is reached for the `nth` time, run another thread.
    Edge { edge: u32, nth: u32, to: u32 },
    /// At this step of the whole run, run another thread.
    Step { step: u64, to: u32 },
    /// At the nth I/O call or synchronisation point.
    Sync { nth: u64, to: u32 },
}

/// Random switching, about every `mean` steps, between steps `from` and `to`.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Dense {
    pub seed: u64,
    pub mean: u64,
    pub from: u64,
    pub to: u64,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum StdinItem {
    Data(Vec<u8>),
    Err(i32),
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub seed: u64,
    pub faults: Vec<Fault>,
    pub sticky: Vec<Sticky>,
    /// Largest piece a read or write of a file transfers (0: no limit).
    pub max_read: u32,
    pub max_write: u32,
    /// Per mille of interrupted calls.
    pub eintr_open: u32,
    pub eintr_read: u32,
    pub eintr_write: u32,
    pub shuffle_dir: bool,
    pub capacity: Option<u64>,
    pub max_fds: Option<u32>,
    /// Latency factor of the simulated disk.
    pub slow: u32,
    pub stdin: Vec<StdinItem>,
    /// Standard output accepts this many bytes, then fails with the errno.
    pub out_limit: Option<(u64, i32)>,
    pub preempts: Vec<Preempt>,
    pub dense: Option<Dense>,
    /// From this allocation on, this many fail.
    #[serde(default)]
    pub no_mem: Option<(u64, u64)>,
    /// The process may hold this many bytes; what would be more, fails.
    #[serde(default)]
    pub memory: Option<u64>,
    pub keep_log: bool,
    pub max_steps: u64,
    pub max_events: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ev {
    pub n: u64,
    /// Which call of this sort on this path, from 0.
    pub nth: u32,
    pub tid: u32,
    pub call: Call,
    pub path: String,
    pub req: u64,
    pub res: i64,
    pub fault: Option<FaultKind>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    pub events: u64,
    pub hash: u64,
    pub log: Vec<Ev>,
    /// Faults that really happened, by name.
    pub fired: BTreeMap<String, u64>,
    pub image: Image,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    /// At each point where the process asked for input that had not arrived:
    /// (input bytes delivered so far, output bytes written so far).
    pub waits: Vec<(u64, u64)>,
    /// At each read of standard input: (bytes delivered so far, memory held).
    pub held: Vec<(u64, i64)>,
    pub open_fds: Vec<String>,
    pub mutated: BTreeSet<String>,
    pub clock_ns: u64,
    pub steps: u64,
    pub syncs: u64,
    pub switches: Vec<(u64, u32)>,
    pub switch_hash: u64,
    pub threads: u32,
    /// The most memory the process held, what it held at its end, and how often it
    /// asked for some.
    pub peak: i64,
    pub live: i64,
    pub allocs: u64,
    /// Edges reached with their counts (only when asked for with keep_log).
    pub edges: Vec<(u32, u32)>,
}

#[derive(Default)]
pub struct Meta {
    pub mode: u32,
    pub size: u64,
    pub ino: u64,
    pub mtime: u64,
}
impl Meta {
    fn dir() -> Meta {
        Meta { mode: libc::S_IFDIR | 0o755, size: 4096, ino: 1 << 40, mtime: 1_500_000_000_000_000_000 }
    }
    fn file(f: &vfs::FileData, ino: u64) -> Meta {
        Meta { mode: libc::S_IFREG | 0o644, size: f.data.len() as u64, ino, mtime: f.mtime }
    }
}

enum FdKind {
    File { ino: u64, path: String, pos: Rc<Cell<u64>>, flags: i32 },
    Dir(Box<DirStream>),
}
pub struct DirStream {
    path: String,
    items: Vec<(String, Entry)>,
    at: usize,
    ent: libc::dirent64,
}

pub struct State {
    pub plan: Plan,
    pub image: Image,
    /// The working directory of the process.
    pub cwd: String,
    fds: BTreeMap<i32, FdKind>,
    next_fd: i32,
    pub events: u64,
    hash: u64,
    log: Vec<Ev>,
    pub fired: BTreeMap<String, u64>,
    out: Vec<u8>,
    err: Vec<u8>,
    stdin_item: usize,
    stdin_pos: usize,
    stdin_seen: u64,
    waits: Vec<(u64, u64)>,
    held: Vec<(u64, i64)>,
    mutated: BTreeSet<String>,
    pub clock: u64,
    clock0: u64,
    rand: Rng,
    counts: BTreeMap<(Call, String), u32>,
}

pub static mut ACTIVE: bool = false;
pub static mut TRACE: bool = false;
static mut ST: *mut State = std::ptr::null_mut();

#[allow(static_mut_refs)]
pub fn st() -> &'static mut State {
    unsafe { &mut *ST }
}
pub fn active() -> bool {
    unsafe { ACTIVE }
}

pub fn errno_name(e: i32) -> String {
    match e {
        libc::EIO => "EIO".into(),
        libc::ENOSPC => "ENOSPC".into(),
        libc::EINTR => "EINTR".into(),
        libc::EMFILE => "EMFILE".into(),
        libc::EACCES => "EACCES".into(),
        libc::ENOENT => "ENOENT".into(),
        libc::EPIPE => "EPIPE".into(),
        libc::EDQUOT => "EDQUOT".into(),
        libc::EROFS => "EROFS".into(),
        libc::ENOMEM => "ENOMEM".into(),
        libc::EAGAIN => "EAGAIN".into(),
        libc::ESTALE => "ESTALE".into(),
        e => format!("errno{e}"),
    }
}

pub fn activate(image: Image, plan: Plan) {
    let seed = plan.seed;
    // Processes on the same disk mostly follow each other in time; now and then the
    // clock was set back in between.
    let newest = image.inodes.values().map(|f| f.mtime).max().unwrap_or(0);
    let mut clock = 1_700_000_000_000_000_000 + (seed % 1_000_000_007) * 1_000_000_000;
    if clock <= newest && mix(seed, 0xc10c) % 8 != 0 {
        clock = newest + 1_000_000 + mix(seed, 0xc10d) % 10_000_000_000;
    }
    let s = State {
        plan,
        image,
        cwd: "/".into(),
        fds: BTreeMap::new(),
        next_fd: FD_BASE,
        events: 0,
        hash: 0xcbf2_9ce4_8422_2325,
        log: vec![],
        fired: BTreeMap::new(),
        out: vec![],
        err: vec![],
        stdin_item: 0,
        stdin_pos: 0,
        stdin_seen: 0,
        waits: vec![],
        held: vec![],
        mutated: BTreeSet::new(),
        clock,
        clock0: clock,
        rand: Rng::new(mix(seed, 0x5eed)),
        counts: BTreeMap::new(),
    };
    unsafe {
        ST = Box::into_raw(Box::new(s));
        sched::init();
        heap::init();
        ACTIVE = true;
    }
}

/// Ends the simulation of this process and tells what happened.
pub fn deactivate() -> Report {
    unsafe {
        ACTIVE = false;
    }
    report()
}

fn report() -> Report {
    let s = st();
    if heap::failed() > 0 {
        s.fired.insert("memory:refused".into(), heap::failed());
    }
    let mut r = Report {
        events: s.events,
        hash: s.hash,
        log: std::mem::take(&mut s.log),
        fired: s.fired.clone(),
        image: std::mem::take(&mut s.image),
        out: std::mem::take(&mut s.out),
        err: std::mem::take(&mut s.err),
        waits: s.waits.clone(),
        held: std::mem::take(&mut s.held),
        open_fds: s
            .fds
            .values()
            .map(|f| match f {
                FdKind::File { path, .. } => path.clone(),
                FdKind::Dir(d) => d.path.clone(),
            })
            .collect(),
        mutated: s.mutated.clone(),
        clock_ns: s.clock - s.clock0,
        peak: heap::peak(),
        live: heap::live(),
        allocs: heap::allocs(),
        ..Default::default()
    };
    sched::fill(&mut r, s.plan.keep_log);
    r
}

/// How a simulated process ended.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum End {
    Done,
    Killed,
    Deadlock,
    StepLimit,
    EventLimit,
}

pub static mut PUBLISH: Option<fn(End, &[u8])> = None;

pub fn die(end: End) -> ! {
    // std can wait for its own lock when it gets no memory to say so
    let end = if end == End::Deadlock && heap::failed() > 0 {
        st().fire("memory:abort".into());
        End::Killed
    } else {
        end
    };
    unsafe {
        ACTIVE = false;
        let bytes = bincode::serialize(&report()).unwrap();
        if let Some(p) = PUBLISH {
            p(end, &bytes);
        }
        raw::exit_now(90)
    }
}

fn fnv(h: &mut u64, b: &[u8]) {
    for x in b {
        *h = (*h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
}

struct Call1 {
    n: u64,
    nth: u32,
    fault: Option<FaultKind>,
}

/// Partial and interrupted transfers are frequent up to this event, and rare after it.
const DENSE_EVENTS: u64 = 20_000;

impl State {
    pub fn now(&self) -> u64 {
        self.clock
    }

    fn fire(&mut self, name: String) {
        *self.fired.entry(name).or_default() += 1;
    }

    /// Start of a simulated I/O call: schedules, numbers the call, finds its fault.
    fn begin(&mut self, call: Call, path: &str) -> Call1 {
        sched::sync_point();
        let n = self.events;
        self.events += 1;
        if self.plan.max_events > 0 && n > self.plan.max_events {
            die(End::EventLimit);
        }
        let lat = match call {
            Call::Open | Call::Mkdir | Call::Unlink | Call::Rename | Call::Opendir => 50_000,
            Call::Fsync => 5_000_000,
            Call::Close | Call::Fstat | Call::Seek => 1_000,
            _ => 20_000,
        };
        self.clock += lat * (1 + self.plan.slow as u64) + mix(self.plan.seed, n) % 1000;
        let k = self.counts.entry((call, path.to_string())).or_default();
        let nth = *k;
        *k += 1;
        let mut fault =
            self.plan.faults.iter().find(|f| f.call == call && f.nth == nth && f.path == path).map(|f| f.kind);
        if fault.is_none() {
            if let Some(s) = self.plan.sticky.iter().find(|s| s.call == call && n >= s.from && path.contains(&s.path)) {
                fault = Some(FaultKind::Err(s.errno));
            }
        }
        if fault.is_none() {
            let rate = match call {
                Call::Open => self.plan.eintr_open,
                // the csv crate gives an interrupted read to its caller
                Call::Read if path.ends_with(".csv") => 0,
                Call::Read | Call::Stdin => self.plan.eintr_read,
                Call::Write | Call::Stdout => self.plan.eintr_write,
                _ => 0,
            };
            // rare in the long tail of a run, which would take too long otherwise
            let rate = if n > DENSE_EVENTS { rate / 20 } else { rate };
            if rate > 0 && mix(self.plan.seed ^ 0xe1e1, n) % 1000 < rate as u64 {
                fault = Some(FaultKind::Err(libc::EINTR));
            }
        }
        if let Some(FaultKind::Kill) = fault {
            self.fire(format!("kill@{call:?}"));
            self.end(Call1 { n, nth, fault }, call, path, 0, 0);
            die(End::Killed);
        }
        Call1 { n, nth, fault }
    }

    fn end(&mut self, c: Call1, call: Call, path: &str, req: u64, res: i64) -> i64 {
        let tid = sched::cur() as u32;
        let mut h = self.hash;
        fnv(&mut h, &[call as u8, tid as u8]);
        fnv(&mut h, path.as_bytes());
        fnv(&mut h, &req.to_le_bytes());
        fnv(&mut h, &res.to_le_bytes());
        self.hash = h;
        if self.plan.keep_log && self.log.len() < 40_000 {
            self.log.push(Ev { n: c.n, nth: c.nth, tid, call, path: path.to_string(), req, res, fault: c.fault });
        }
        if unsafe { TRACE } {
            raw::eprint(&format!("{} t{} {:?} {} req={} res={} {:?}\n", c.n, tid, call, path, req, res, c.fault));
        }
        if res < 0 {
            unsafe { *libc::__errno_location() = (-res) as i32 };
            -1
        } else {
            res
        }
    }

    /// An injected error of this call, if the plan has one.
    fn err_of(&mut self, c: &Call1, call: Call) -> Option<i64> {
        if let Some(FaultKind::Err(e)) = c.fault {
            self.fire(format!("{call:?}:{}", errno_name(e)));
            Some(-(e as i64))
        } else {
            None
        }
    }

    /// Every component before the last is a directory.
    fn parent_ok(&self, p: &str) -> i64 {
        let mut at = 0;
        while let Some(n) = p[at + 1..].find('/') {
            at += 1 + n;
            match self.image.names.get(&p[..at]) {
                Some(Entry::Dir) => {}
                Some(_) => return -(libc::ENOTDIR as i64),
                None => return -(libc::ENOENT as i64),
            }
        }
        0
    }

    /// The absolute path of one that may start at the working directory.
    pub fn at(&self, path: &str) -> String {
        if path.starts_with('/') {
            norm(path)
        } else {
            norm(&format!("{}/{path}", self.cwd))
        }
    }

    pub fn chdir(&mut self, path: &str) -> i64 {
        let p = self.at(path);
        let mut m = Meta::default();
        let r = self.stat(&p, &mut m);
        if r < 0 {
            return r;
        }
        if m.mode & libc::S_IFMT != libc::S_IFDIR {
            unsafe { *libc::__errno_location() = libc::ENOTDIR };
            return -1;
        }
        self.cwd = p;
        0
    }

    pub fn open(&mut self, path: &str, flags: i32) -> i64 {
        let p = self.at(path);
        let c = self.begin(Call::Open, &p);
        let r = match self.err_of(&c, Call::Open) {
            Some(e) => e,
            None => self.open_inner(&p, flags),
        };
        self.end(c, Call::Open, &p, flags as u64, r)
    }

    fn open_inner(&mut self, p: &str, flags: i32) -> i64 {
        if let Some(m) = self.plan.max_fds {
            if self.fds.len() as u32 >= m {
                self.fire("Open:EMFILE(limit)".into());
                return -(libc::EMFILE as i64);
            }
        }
        let e = self.parent_ok(p);
        if e < 0 && p != "/" {
            return e;
        }
        let wr = flags & libc::O_ACCMODE != libc::O_RDONLY;
        let ino = match self.image.names.get(p).copied() {
            Some(Entry::Dir) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return -(libc::EEXIST as i64);
                }
                if wr || flags & libc::O_CREAT != 0 {
                    return -(libc::EISDIR as i64);
                }
                0
            }
            Some(Entry::File(i)) => {
                if flags & libc::O_DIRECTORY != 0 {
                    return -(libc::ENOTDIR as i64);
                }
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return -(libc::EEXIST as i64);
                }
                if flags & libc::O_TRUNC != 0 && wr {
                    let now = self.clock;
                    let f = self.image.inodes.get_mut(&i).unwrap();
                    f.data.clear();
                    f.mtime = now;
                    self.mutated.insert(p.to_string());
                }
                i
            }
            None => {
                if flags & libc::O_CREAT == 0 {
                    return -(libc::ENOENT as i64);
                }
                self.mutated.insert(p.to_string());
                let i = self.image.create(p);
                self.image.inodes.get_mut(&i).unwrap().mtime = self.clock;
                i
            }
        };
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, FdKind::File { ino, path: p.to_string(), pos: Rc::new(Cell::new(0)), flags });
        fd as i64
    }

    fn chunk(&self, n: u64, len: usize, max: u32, salt: u64) -> usize {
        if max == 0 || len <= 1 {
            return len;
        }
        if n > DENSE_EVENTS && mix(self.plan.seed ^ salt, !n) % 32 != 0 {
            return len;
        }
        let cap = (max as usize).min(len);
        1 + (mix(self.plan.seed ^ salt, n) % cap as u64) as usize
    }

    pub fn read(&mut self, fd: i32, buf: &mut [u8], at: Option<u64>) -> i64 {
        if fd == 0 {
            return self.read_stdin(buf);
        }
        let (ino, path, pos) = match self.fds.get(&fd) {
            Some(FdKind::File { ino, path, pos, flags }) if flags & libc::O_ACCMODE != libc::O_WRONLY => {
                (*ino, path.clone(), at.unwrap_or(pos.get()))
            }
            _ => {
                unsafe { *libc::__errno_location() = libc::EBADF };
                return -1;
            }
        };
        let c = self.begin(Call::Read, &path);
        let r = match self.err_of(&c, Call::Read) {
            Some(e) => e,
            None if ino == 0 => -(libc::EISDIR as i64),
            None => {
                if let Some(FaultKind::Vanish) = c.fault {
                    let f = self.image.inodes.get_mut(&ino).unwrap();
                    if (pos as usize) < f.data.len() {
                        f.data.truncate(pos as usize);
                        self.fire("Read:cut".into());
                    }
                }
                let data = &self.image.inodes[&ino].data;
                let pos = (pos as usize).min(data.len());
                let left = data.len() - pos;
                let want = left.min(buf.len());
                let mut n = self.chunk(c.n, want, self.plan.max_read, 0x7ead);
                if let Some(FaultKind::Short(k)) = c.fault {
                    n = n.min((k as usize).max(1));
                }
                let n = n.min(want);
                buf[..n].copy_from_slice(&data[pos..][..n]);
                if n < want {
                    self.fire("Read:short".into());
                }
                n as i64
            }
        };
        if r > 0 && at.is_none() {
            if let Some(FdKind::File { pos, .. }) = self.fds.get_mut(&fd) {
                pos.set(pos.get() + r as u64);
            }
        }
        let len = buf.len() as u64;
        self.end(c, Call::Read, &path, len, r)
    }

    fn read_stdin(&mut self, buf: &mut [u8]) -> i64 {
        if self.stdin_pos == 0 {
            self.waits.push((self.stdin_seen, self.out.len() as u64));
        }
        self.held.push((self.stdin_seen, heap::live()));
        let c = self.begin(Call::Stdin, "<stdin>");
        let r = match self.err_of(&c, Call::Stdin) {
            Some(e) => e,
            None => match self.plan.stdin.get(self.stdin_item).cloned() {
                None => 0,
                Some(StdinItem::Err(e)) => {
                    self.stdin_item += 1;
                    self.fire(format!("Stdin:{}", errno_name(e)));
                    -(e as i64)
                }
                Some(StdinItem::Data(d)) => {
                    let want = (d.len() - self.stdin_pos).min(buf.len());
                    let n = self.chunk(c.n, want, self.plan.max_read, 0x7ead);
                    buf[..n].copy_from_slice(&d[self.stdin_pos..][..n]);
                    self.stdin_pos += n;
                    self.stdin_seen += n as u64;
                    if self.stdin_pos >= d.len() {
                        self.stdin_item += 1;
                        self.stdin_pos = 0;
                    }
                    n as i64
                }
            },
        };
        let len = buf.len() as u64;
        self.end(c, Call::Stdin, "<stdin>", len, r)
    }

    pub fn write(&mut self, fd: i32, buf: &[u8], at: Option<u64>) -> i64 {
        if fd == 2 {
            if self.err.len() < 1 << 20 {
                self.err.extend_from_slice(buf);
            }
            return buf.len() as i64;
        }
        if fd == 1 {
            return self.write_stdout(buf);
        }
        let (ino, path, pos, flags) = match self.fds.get(&fd) {
            Some(FdKind::File { ino, path, pos, flags }) if flags & libc::O_ACCMODE != libc::O_RDONLY => {
                (*ino, path.clone(), at.unwrap_or(pos.get()), *flags)
            }
            _ => {
                unsafe { *libc::__errno_location() = libc::EBADF };
                return -1;
            }
        };
        let c = self.begin(Call::Write, &path);
        let r = match self.err_of(&c, Call::Write) {
            Some(e) => e,
            None if buf.is_empty() => 0,
            None => {
                let mut n = self.chunk(c.n, buf.len(), self.plan.max_write, 0x3717);
                match c.fault {
                    Some(FaultKind::Short(k)) => n = n.min((k as usize).max(1)),
                    Some(FaultKind::KillAfter(k)) => n = n.min(k as usize),
                    _ => {}
                }
                let mut full = false;
                if let Some(cap) = self.plan.capacity {
                    let free = cap.saturating_sub(self.image.total()) as usize;
                    if n > free {
                        n = free;
                        full = n == 0;
                    }
                }
                if full {
                    self.fire("Write:ENOSPC(full)".into());
                    -(libc::ENOSPC as i64)
                } else {
                    if n < buf.len() {
                        self.fire("Write:short".into());
                    }
                    let f = self.image.inodes.get_mut(&ino).unwrap();
                    let at0 = if flags & libc::O_APPEND != 0 { f.data.len() } else { pos as usize };
                    if f.data.len() < at0 + n {
                        f.data.resize(at0 + n, 0);
                    }
                    f.data[at0..at0 + n].copy_from_slice(&buf[..n]);
                    f.mtime = self.clock;
                    self.mutated.insert(path.clone());
                    if at.is_none() {
                        if let Some(FdKind::File { pos, .. }) = self.fds.get_mut(&fd) {
                            pos.set((at0 + n) as u64);
                        }
                    }
                    n as i64
                }
            }
        };
        if let Some(FaultKind::KillAfter(_)) = c.fault {
            self.fire("kill@torn-write".into());
            self.end(c, Call::Write, &path, buf.len() as u64, r);
            die(End::Killed);
        }
        self.end(c, Call::Write, &path, buf.len() as u64, r)
    }

    fn write_stdout(&mut self, buf: &[u8]) -> i64 {
        let c = self.begin(Call::Stdout, "<stdout>");
        let r = match self.err_of(&c, Call::Stdout) {
            Some(e) => e,
            None if buf.is_empty() => 0,
            None => {
                let mut n = self.chunk(c.n, buf.len(), self.plan.max_write, 0x3717);
                if let Some(FaultKind::Short(k)) = c.fault {
                    n = n.min((k as usize).max(1));
                }
                let mut e = 0;
                if let Some((lim, errno)) = self.plan.out_limit {
                    let free = lim.saturating_sub(self.out.len() as u64) as usize;
                    if n > free {
                        n = free;
                        if n == 0 {
                            e = errno;
                        }
                    }
                }
                if e != 0 {
                    self.fire(format!("Stdout:{}(limit)", errno_name(e)));
                    -(e as i64)
                } else {
                    if n < buf.len() {
                        self.fire("Stdout:short".into());
                    }
                    self.out.extend_from_slice(&buf[..n]);
                    n as i64
                }
            }
        };
        self.end(c, Call::Stdout, "<stdout>", buf.len() as u64, r)
    }

    pub fn close(&mut self, fd: i32) -> i64 {
        let path = match self.fds.get(&fd) {
            Some(FdKind::File { path, .. }) => path.clone(),
            Some(FdKind::Dir(d)) => d.path.clone(),
            None => {
                unsafe { *libc::__errno_location() = libc::EBADF };
                return -1;
            }
        };
        let c = self.begin(Call::Close, &path);
        self.fds.remove(&fd);
        self.end(c, Call::Close, &path, 0, 0)
    }

    /// A second descriptor of the same open file.
    pub fn dup(&mut self, fd: i32) -> i64 {
        let (ino, path, pos, flags) = match self.fds.get(&fd) {
            Some(FdKind::File { ino, path, pos, flags }) => (*ino, path.clone(), pos.clone(), *flags),
            _ => {
                unsafe { *libc::__errno_location() = libc::EBADF };
                return -1;
            }
        };
        let c = self.begin(Call::Open, &path);
        let r = match self.err_of(&c, Call::Open) {
            Some(e) => e,
            None if self.plan.max_fds.map(|m| self.fds.len() as u32 >= m).unwrap_or(false) => -(libc::EMFILE as i64),
            None => {
                let fd = self.next_fd;
                self.next_fd += 1;
                self.fds.insert(fd, FdKind::File { ino, path: path.clone(), pos, flags });
                fd as i64
            }
        };
        self.end(c, Call::Open, &path, flags as u64, r)
    }

    pub fn lseek(&mut self, fd: i32, off: i64, whence: i32) -> i64 {
        let (ino, path, pos) = match self.fds.get(&fd) {
            Some(FdKind::File { ino, path, pos, .. }) => (*ino, path.clone(), pos.get()),
            _ => {
                unsafe { *libc::__errno_location() = if fd <= 2 { libc::ESPIPE } else { libc::EBADF } };
                return -1;
            }
        };
        let c = self.begin(Call::Seek, &path);
        let len = self.image.inodes.get(&ino).map(|f| f.data.len()).unwrap_or(0) as i64;
        let np = match whence {
            0 => off,
            1 => pos as i64 + off,
            _ => len + off,
        };
        let r = if np < 0 { -(libc::EINVAL as i64) } else { np };
        if r >= 0 {
            if let Some(FdKind::File { pos, .. }) = self.fds.get_mut(&fd) {
                pos.set(r as u64);
            }
        }
        self.end(c, Call::Seek, &path, off as u64, r)
    }

    pub fn stat(&mut self, path: &str, out: &mut Meta) -> i64 {
        let p = self.at(path);
        let c = self.begin(Call::Stat, &p);
        let r = match self.err_of(&c, Call::Stat) {
            Some(e) => e,
            None => match self.image.names.get(&p).copied() {
                Some(Entry::Dir) => {
                    *out = Meta::dir();
                    0
                }
                Some(Entry::File(i)) => {
                    *out = Meta::file(&self.image.inodes[&i], i);
                    0
                }
                None => {
                    let e = self.parent_ok(&p);
                    if e < 0 {
                        e
                    } else {
                        -(libc::ENOENT as i64)
                    }
                }
            },
        };
        self.end(c, Call::Stat, &p, 0, r)
    }

    pub fn fstat(&mut self, fd: i32, out: &mut Meta) -> i64 {
        if (0..=2).contains(&fd) {
            *out = Meta { mode: libc::S_IFIFO | 0o600, size: 0, ino: 7, mtime: 0 };
            return 0;
        }
        let (ino, path) = match self.fds.get(&fd) {
            Some(FdKind::File { ino, path, .. }) => (*ino, path.clone()),
            Some(FdKind::Dir(d)) => (0, d.path.clone()),
            None => {
                unsafe { *libc::__errno_location() = libc::EBADF };
                return -1;
            }
        };
        let c = self.begin(Call::Fstat, &path);
        let r = match self.err_of(&c, Call::Fstat) {
            Some(e) => e,
            None => {
                *out = if ino == 0 {
                    Meta::dir()
                } else {
                    Meta::file(&self.image.inodes[&ino], ino)
                };
                0
            }
        };
        self.end(c, Call::Fstat, &path, 0, r)
    }

    pub fn mkdir(&mut self, path: &str) -> i64 {
        let p = self.at(path);
        let c = self.begin(Call::Mkdir, &p);
        let r = match self.err_of(&c, Call::Mkdir) {
            Some(e) => e,
            None => {
                let e = self.parent_ok(&p);
                if self.image.names.contains_key(&p) {
                    -(libc::EEXIST as i64)
                } else if e < 0 {
                    e
                } else {
                    self.mutated.insert(p.clone());
                    self.image.names.insert(p.clone(), Entry::Dir);
                    0
                }
            }
        };
        self.end(c, Call::Mkdir, &p, 0, r)
    }

    pub fn unlink(&mut self, path: &str, dir: bool) -> i64 {
        let p = self.at(path);
        let c = self.begin(Call::Unlink, &p);
        let r = match self.err_of(&c, Call::Unlink) {
            Some(e) => e,
            None => match self.image.names.get(&p).copied() {
                None if self.parent_ok(&p) < 0 => self.parent_ok(&p),
                None => -(libc::ENOENT as i64),
                Some(Entry::Dir) if !dir => -(libc::EISDIR as i64),
                Some(Entry::Dir) => {
                    if self.image.list(&p).is_empty() {
                        self.mutated.insert(p.clone());
                        self.image.names.remove(&p);
                        0
                    } else {
                        -(libc::ENOTEMPTY as i64)
                    }
                }
                Some(Entry::File(_)) if dir => -(libc::ENOTDIR as i64),
                Some(Entry::File(_)) => {
                    self.mutated.insert(p.clone());
                    self.image.names.remove(&p); // the inode stays for open descriptors
                    0
                }
            },
        };
        self.end(c, Call::Unlink, &p, 0, r)
    }

    pub fn rename(&mut self, a: &str, b: &str) -> i64 {
        let (a, b) = (self.at(a), self.at(b));
        let c = self.begin(Call::Rename, &a);
        let r = match self.err_of(&c, Call::Rename) {
            Some(e) => e,
            None => {
                let names = &self.image.names;
                let (ea, eb) = (self.parent_ok(&a), self.parent_ok(&b));
                match (names.get(&a).copied(), names.get(&b).copied()) {
                    _ if ea < 0 => ea,
                    _ if eb < 0 => eb,
                    (None, _) => -(libc::ENOENT as i64),
                    (Some(Entry::Dir), _) if b.starts_with(&format!("{a}/")) => -(libc::EINVAL as i64),
                    _ if a.starts_with(&format!("{b}/")) => -(libc::ENOTEMPTY as i64),
                    (Some(x), Some(y)) if x == y && (a == b || x != Entry::Dir) => 0,
                    (Some(Entry::File(_)), Some(Entry::Dir)) => -(libc::EISDIR as i64),
                    (Some(Entry::Dir), Some(Entry::File(_))) => -(libc::ENOTDIR as i64),
                    (Some(Entry::Dir), Some(Entry::Dir)) if !self.image.list(&b).is_empty() => -(libc::ENOTEMPTY as i64),
                    (Some(en), _) => {
                        self.mutated.insert(a.clone());
                        self.mutated.insert(b.clone());
                        let pre = format!("{a}/");
                        let sub: Vec<(String, Entry)> =
                            self.image.names.iter().filter(|(k, _)| k.starts_with(&pre)).map(|(k, e)| (k.clone(), *e)).collect();
                        for (k, e) in sub {
                            self.image.names.remove(&k);
                            self.image.names.insert(format!("{b}/{}", &k[pre.len()..]), e);
                        }
                        self.image.names.remove(&a);
                        self.image.names.insert(b.clone(), en);
                        // who has it open knows it by its new name
                        for f in self.fds.values_mut() {
                            let path = match f {
                                FdKind::File { path, .. } => path,
                                FdKind::Dir(d) => &mut d.path,
                            };
                            if *path == a {
                                *path = b.clone();
                            } else if let Some(r) = path.strip_prefix(&pre) {
                                *path = format!("{b}/{r}");
                            }
                        }
                        0
                    }
                }
            }
        };
        self.end(c, Call::Rename, &a, 0, r)
    }

    /// A second name of the same file.
    pub fn link(&mut self, a: &str, b: &str) -> i64 {
        let (a, b) = (self.at(a), self.at(b));
        let c = self.begin(Call::Rename, &a);
        let r = match self.err_of(&c, Call::Rename) {
            Some(e) => e,
            None => {
                let (ea, eb) = (self.parent_ok(&a), self.parent_ok(&b));
                match (self.image.names.get(&a).copied(), self.image.names.contains_key(&b)) {
                    _ if ea < 0 => ea,
                    (None, _) => -(libc::ENOENT as i64),
                    _ if eb < 0 => eb,
                    (_, true) => -(libc::EEXIST as i64),
                    (Some(Entry::Dir), _) => -(libc::EPERM as i64),
                    (Some(en), _) => {
                        self.mutated.insert(b.clone());
                        self.image.names.insert(b.clone(), en);
                        0
                    }
                }
            }
        };
        self.end(c, Call::Rename, &a, 0, r)
    }

    pub fn fsync(&mut self, fd: i32) -> i64 {
        let (ino, path) = match self.fds.get(&fd) {
            Some(FdKind::File { ino, path, .. }) => (*ino, path.clone()),
            _ => return 0,
        };
        let c = self.begin(Call::Fsync, &path);
        let r = match self.err_of(&c, Call::Fsync) {
            Some(e) => e,
            None => {
                if let Some(f) = self.image.inodes.get_mut(&ino) {
                    f.synced = Some(f.data.clone());
                }
                0
            }
        };
        self.end(c, Call::Fsync, &path, 0, r)
    }

    pub fn ftruncate(&mut self, fd: i32, len: i64) -> i64 {
        let (ino, path) = match self.fds.get(&fd) {
            Some(FdKind::File { flags, .. }) if flags & libc::O_ACCMODE == libc::O_RDONLY => {
                unsafe { *libc::__errno_location() = libc::EINVAL };
                return -1;
            }
            Some(FdKind::File { ino, path, .. }) => (*ino, path.clone()),
            _ => {
                unsafe { *libc::__errno_location() = libc::EBADF };
                return -1;
            }
        };
        let c = self.begin(Call::Trunc, &path);
        let r = match self.err_of(&c, Call::Trunc) {
            Some(e) => e,
            None => {
                self.mutated.insert(path.clone());
                let now = self.clock;
                let f = self.image.inodes.get_mut(&ino).unwrap();
                f.data.resize(len as usize, 0);
                f.mtime = now;
                0
            }
        };
        self.end(c, Call::Trunc, &path, len as u64, r)
    }

    /// `of`: a descriptor of the directory, which the stream takes over.
    pub fn opendir(&mut self, path: &str, of: Option<i32>) -> *mut DirStream {
        let p = self.at(path);
        let c = self.begin(Call::Opendir, &p);
        let r = match self.err_of(&c, Call::Opendir) {
            Some(e) => e,
            None => match self.image.names.get(&p) {
                Some(Entry::Dir) => {
                    if of.is_none() && self.plan.max_fds.map(|m| self.fds.len() as u32 >= m).unwrap_or(false) {
                        self.fire("Opendir:EMFILE(limit)".into());
                        -(libc::EMFILE as i64)
                    } else {
                        0
                    }
                }
                Some(_) => -(libc::ENOTDIR as i64),
                None if self.parent_ok(&p) < 0 => self.parent_ok(&p),
                None => -(libc::ENOENT as i64),
            },
        };
        if self.end(c, Call::Opendir, &p, 0, r) < 0 {
            return std::ptr::null_mut();
        }
        let mut items = self.image.list(&p);
        items.insert(0, ("..".into(), Entry::Dir));
        items.insert(0, (".".into(), Entry::Dir));
        if self.plan.shuffle_dir {
            Rng::new(mix(self.plan.seed, 0xd14)).shuffle(&mut items);
            self.fire("Readdir:shuffled".into());
        }
        let fd = of.unwrap_or(self.next_fd);
        self.next_fd = self.next_fd.max(fd + 1);
        let mut b = Box::new(DirStream { path: p, items, at: 0, ent: unsafe { std::mem::zeroed() } });
        let ptr: *mut DirStream = &mut *b;
        self.fds.insert(fd, FdKind::Dir(b));
        ptr
    }

    fn dir_fd(&self, d: *const DirStream) -> Option<i32> {
        self.fds.iter().find_map(|(k, f)| match f {
            FdKind::Dir(b) if std::ptr::eq(&**b, d) => Some(*k),
            _ => None,
        })
    }
    pub fn is_dir_stream(&self, d: *const DirStream) -> bool {
        self.dir_fd(d).is_some()
    }
    pub fn dirfd(&self, d: *const DirStream) -> i32 {
        self.dir_fd(d).unwrap_or(-1)
    }
    pub fn dir_path(&self, fd: i32) -> Option<String> {
        match self.fds.get(&fd) {
            Some(FdKind::Dir(d)) => Some(d.path.clone()),
            Some(FdKind::File { path, .. }) => Some(path.clone()),
            None => None,
        }
    }

    pub fn readdir(&mut self, d: *mut DirStream) -> *mut libc::dirent64 {
        let d = unsafe { &mut *d };
        let path = d.path.clone();
        let c = self.begin(Call::Readdir, &path);
        if let Some(e) = self.err_of(&c, Call::Readdir) {
            self.end(c, Call::Readdir, &path, 0, e);
            return std::ptr::null_mut();
        }
        let Some((name, e)) = d.items.get(d.at).cloned() else {
            self.end(c, Call::Readdir, &path, 0, 0);
            return std::ptr::null_mut();
        };
        d.at += 1;
        d.ent.d_ino = match e {
            Entry::Dir => 1 << 40,
            Entry::File(i) => i,
        };
        d.ent.d_type = if matches!(e, Entry::Dir) { libc::DT_DIR } else { libc::DT_REG };
        d.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
        d.ent.d_off = d.at as i64;
        for (i, b) in name.bytes().chain([0]).enumerate() {
            d.ent.d_name[i] = b as i8;
        }
        self.end(c, Call::Readdir, &path, 0, 1);
        &mut d.ent
    }

    pub fn closedir(&mut self, d: *mut DirStream) -> i64 {
        match self.dir_fd(d) {
            Some(fd) => self.close(fd),
            None => -1,
        }
    }

    pub fn random(&mut self, buf: &mut [u8]) {
        for b in buf.iter_mut() {
            *b = self.rand.next() as u8;
        }
    }

    pub fn has_fd(&self, fd: i32) -> bool {
        (0..=2).contains(&fd) || self.fds.contains_key(&fd)
    }
}

/// The faults stop here (called by a workload inside the simulation).
pub fn calm() {
    if active() {
        let p = &mut st().plan;
        p.faults.clear();
        p.sticky.clear();
        p.eintr_open = 0;
        p.eintr_read = 0;
        p.eintr_write = 0;
        p.capacity = None;
        p.max_fds = None;
        p.out_limit = None;
        p.no_mem = None;
        p.memory = None;
    }
}
