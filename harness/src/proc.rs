//! Simulated processes: each runs in a forked child, so that nothing but the
//! simulated disk survives from one to the next.
use crate::os::{self, raw, sched, vfs::Image, End, Plan, Report};
use serde::{de::DeserializeOwned, Deserialize, Serialize};

pub const SHM_LEN: usize = 1 << 30;

static mut SHM: *mut u8 = std::ptr::null_mut();
static mut MEMFD: i32 = -1;

/// Once per worker process.
pub fn setup_worker() {
    unsafe {
        let name = c"lsim";
        let fd = raw::sys3(libc::SYS_memfd_create, name.as_ptr() as u64, 0, 0);
        assert!(fd >= 0, "memfd_create: {fd}");
        MEMFD = fd as i32;
        assert!(raw::sys3(libc::SYS_ftruncate, fd as u64, SHM_LEN as u64, 0) == 0);
        SHM = map_fd(MEMFD);
    }
}
unsafe fn map_fd(fd: i32) -> *mut u8 {
    let r = raw::sys6(
        libc::SYS_mmap,
        0,
        SHM_LEN as u64,
        3,
        (libc::MAP_SHARED | libc::MAP_NORESERVE) as u64,
        fd as u64,
        0,
    );
    assert!(r > 0, "mmap: {r}");
    r as *mut u8
}

fn shm_write(status: u32, bytes: &[u8]) {
    unsafe {
        assert!(bytes.len() + 16 < SHM_LEN);
        *(SHM.add(8) as *mut u64) = bytes.len() as u64;
        std::ptr::copy_nonoverlapping(bytes.as_ptr(), SHM.add(16), bytes.len());
        *(SHM as *mut u32) = status;
    }
}
fn shm_read() -> (u32, Vec<u8>) {
    unsafe {
        let st = *(SHM as *const u32);
        let n = *(SHM.add(8) as *const u64) as usize;
        (st, std::slice::from_raw_parts(SHM.add(16), n.min(SHM_LEN - 16)).to_vec())
    }
}
fn publish(end: End, bytes: &[u8]) {
    let s = match end {
        End::Done => 1,
        End::Killed => 2,
        End::Deadlock => 3,
        End::StepLimit => 4,
        End::EventLimit => 5,
    };
    shm_write(s, bytes);
}

/// What became of a simulated process.
#[derive(Debug)]
pub enum Outcome<T> {
    /// It ran to its end.
    Done(Report, T),
    /// The simulator stopped it (kill fault, deadlock, no progress).
    Ended(End, Report),
    /// It died: a signal, or an exit nobody asked for.
    Crashed(String),
}

fn wait(pid: i32) -> i32 {
    let mut status = 0i32;
    loop {
        let r = unsafe { raw::sys6(libc::SYS_wait4, pid as u64, &mut status as *mut i32 as u64, 0, 0, 0, 0) };
        if r == pid as i64 {
            return status;
        }
        if r != -(libc::EINTR as i64) {
            return -1;
        }
    }
}

/// The real-time limit is only a net under loops that the simulator does not see.
pub const REAL_LIMIT_S: u32 = 120;

fn end_of(st: u32) -> Option<End> {
    Some(match st {
        2 => End::Killed,
        3 => End::Deadlock,
        4 => End::StepLimit,
        5 => End::EventLimit,
        _ => return None,
    })
}

struct Whole<F>(F);
unsafe impl<F> Send for Whole<F> {}
impl<F: FnOnce() -> R, R> Whole<F> {
    fn call(self) -> R {
        self.0()
    }
}

/// Forks from a thread of its own: what std keeps per thread (the hash keys of
/// `RandomState` above all) starts anew in each simulated process.
pub fn run<T: Serialize + DeserializeOwned>(image: &Image, plan: &Plan, body: impl FnOnce() -> T) -> Outcome<T> {
    let job = Whole(|| Whole(run_here(image, plan, body)));
    std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || job.call()).unwrap().join().unwrap().0)
}

fn run_here<T: Serialize + DeserializeOwned>(image: &Image, plan: &Plan, body: impl FnOnce() -> T) -> Outcome<T> {
    unsafe {
        *(SHM as *mut u32) = 0;
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(REAL_LIMIT_S);
            os::PUBLISH = Some(publish);
            os::activate(image.clone(), plan.clone());
            let t = body();
            let r = os::deactivate();
            publish(End::Done, &bincode::serialize(&(r, t)).unwrap());
            raw::exit_now(0);
        }
        let status = wait(pid);
        let (st, bytes) = shm_read();
        if st == 1 && status == 0 {
            let (r, t) = bincode::deserialize(&bytes).unwrap();
            return Outcome::Done(r, t);
        }
        if let Some(e) = end_of(st) {
            return Outcome::Ended(e, bincode::deserialize(&bytes).unwrap());
        }
        Outcome::Crashed(describe(status))
    }
}

pub fn describe(status: i32) -> String {
    if libc::WIFSIGNALED(status) {
        let s = libc::WTERMSIG(status);
        match s {
            libc::SIGSEGV => "killed by SIGSEGV".into(),
            libc::SIGABRT => "killed by SIGABRT".into(),
            libc::SIGBUS => "killed by SIGBUS".into(),
            libc::SIGALRM => format!("no end within {REAL_LIMIT_S} s of real time"),
            s => format!("killed by signal {s}"),
        }
    } else {
        format!("exit status {}", libc::WEXITSTATUS(status))
    }
}

// ---- the command line program ----

#[derive(Serialize, Deserialize)]
struct CliSpec {
    image: Image,
    plan: Plan,
    trace: bool,
}

const CLI_FD: i32 = 900;

pub struct Cli {
    dir: std::path::PathBuf,
}

impl Cli {
    pub fn new() -> Cli {
        let me = std::env::current_exe().unwrap();
        Cli { dir: me.parent().unwrap().to_path_buf() }
    }

    /// Runs the program; T is its exit status.
    pub fn run(&self, exe: &str, env: &[&str], image: &Image, plan: &Plan, args: &[String]) -> Outcome<i32> {
        let exe = std::ffi::CString::new(self.dir.join(exe).to_str().unwrap()).unwrap();
        let spec = bincode::serialize(&CliSpec { image: image.clone(), plan: plan.clone(), trace: false }).unwrap();
        shm_write(100, &spec);
        let mut argv: Vec<std::ffi::CString> = vec![std::ffi::CString::new("lindera").unwrap()];
        argv.extend(args.iter().map(|a| std::ffi::CString::new(a.as_str()).unwrap()));
        let mut ptrs: Vec<*const libc::c_char> = argv.iter().map(|a| a.as_ptr()).collect();
        ptrs.push(std::ptr::null());
        let env: Vec<std::ffi::CString> =
            ["LSIM_CLI=1", "RUST_BACKTRACE=0"].iter().chain(env).map(|e| std::ffi::CString::new(*e).unwrap()).collect();
        let envp: Vec<*const libc::c_char> = env.iter().map(|e| e.as_ptr()).chain([std::ptr::null()]).collect();
        unsafe {
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::alarm(REAL_LIMIT_S);
                raw::sys3(libc::SYS_dup2, MEMFD as u64, CLI_FD as u64, 0);
                raw::sys3(libc::SYS_execve, exe.as_ptr() as u64, ptrs.as_ptr() as u64, envp.as_ptr() as u64);
                raw::eprint("lsim: cannot exec the command line program\n");
                raw::exit_now(91);
            }
            let status = wait(pid);
            let (st, bytes) = shm_read();
            if st == 1 && libc::WIFEXITED(status) {
                return Outcome::Done(bincode::deserialize(&bytes).unwrap(), libc::WEXITSTATUS(status));
            }
            if let Some(e) = end_of(st) {
                return Outcome::Ended(e, bincode::deserialize(&bytes).unwrap());
            }
            Outcome::Crashed(describe(status))
        }
    }
}

extern "C" fn cli_exit() {
    if os::active() {
        let r = os::deactivate();
        publish(End::Done, &bincode::serialize(&r).unwrap());
    }
}

/// Runs before main of the command line program.
pub extern "C" fn cli_ctor(_argc: i32, _argv: *const *const i8, envp: *const *const i8) {
    unsafe {
        let mut e = envp;
        let mut ours = false;
        while !(*e).is_null() {
            if std::ffi::CStr::from_ptr(*e).to_bytes() == b"LSIM_CLI=1" {
                ours = true;
            }
            e = e.add(1);
        }
        if !ours {
            raw::eprint("lindera_cli_sim runs only under lsim\n");
            raw::exit_now(91);
        }
        SHM = map_fd(CLI_FD);
        let (st, bytes) = shm_read();
        if st != 100 {
            raw::exit_now(92);
        }
        let spec: CliSpec = bincode::deserialize(&bytes).unwrap();
        *(SHM as *mut u32) = 0;
        os::PUBLISH = Some(publish);
        libc::atexit(cli_exit);
        os::activate(spec.image, spec.plan);
    }
}

pub fn no_aslr() {
    unsafe {
        const ADDR_NO_RANDOMIZE: u64 = 0x0040000;
        if std::env::var_os("LSIM_NOASLR").is_some() {
            return;
        }
        let cur = raw::sys3(libc::SYS_personality, 0xffff_ffff, 0, 0);
        if cur >= 0 && raw::sys3(libc::SYS_personality, cur as u64 | ADDR_NO_RANDOMIZE, 0, 0) >= 0 {
            use std::os::unix::process::CommandExt;
            let mut c = std::process::Command::new("/proc/self/exe");
            c.args(std::env::args_os().skip(1)).env("LSIM_NOASLR", "1");
            let _ = c.exec();
        }
    }
}
#[allow(unused)]
pub fn cover() -> (usize, usize) {
    (sched::cover_count(), sched::edges_total())
}
