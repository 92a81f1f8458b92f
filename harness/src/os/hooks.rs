//! The libc entry points that Rust's standard library imports, defined here so that
//! the linker binds lindera's I/O, threads, clock and randomness to the simulation.
//! Outside a simulation they go to the kernel.
use super::{active, raw, sched, st, DirStream, Meta};
use libc::{c_char, c_int, c_void, size_t, ssize_t};
use std::ffi::CStr;

unsafe fn path(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}
fn sim() -> bool {
    active() && sched::managed()
}
fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let _in = sched::Inside::new();
    f()
}
unsafe fn fail(e: i32) -> i64 {
    *libc::__errno_location() = e;
    -1
}
/// The directory part of an *at call.
unsafe fn at_path(dirfd: c_int, p: *const c_char) -> String {
    let s = path(p);
    if s.starts_with('/') || dirfd == libc::AT_FDCWD {
        return s;
    }
    match st().dir_path(dirfd) {
        Some(d) => format!("{d}/{s}"),
        None => format!("/.no-such-descriptor/{s}"),
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return st().open(&path(p), flags) as c_int;
    }
    raw::ret(raw::sys6(libc::SYS_openat, libc::AT_FDCWD as i64 as u64, p as u64, flags as u64, mode as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return st().open(&at_path(d, p), flags) as c_int;
    }
    raw::ret(raw::sys6(libc::SYS_openat, d as i64 as u64, p as u64, flags as u64, mode as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    openat64(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if sim() && quiet(|| st().has_fd(fd)) {
        let _in = sched::Inside::new();
        return st().read(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), None) as ssize_t;
    }
    raw::ret(raw::sys3(libc::SYS_read, fd as u64, buf as u64, n as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if sim() && quiet(|| st().has_fd(fd)) {
        let _in = sched::Inside::new();
        return st().read(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), Some(off as u64)) as ssize_t;
    }
    raw::ret(raw::sys6(libc::SYS_pread64, fd as u64, buf as u64, n as u64, off as u64, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if sim() && quiet(|| st().has_fd(fd)) {
        let _in = sched::Inside::new();
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    raw::ret(raw::sys3(libc::SYS_readv, fd as u64, iov as u64, cnt as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if sim() && quiet(|| st().has_fd(fd)) {
        let _in = sched::Inside::new();
        return st().write(fd, std::slice::from_raw_parts(buf as *const u8, n), None) as ssize_t;
    }
    raw::ret(raw::sys3(libc::SYS_write, fd as u64, buf as u64, n as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t {
    if sim() && quiet(|| st().has_fd(fd)) {
        let _in = sched::Inside::new();
        return st().write(fd, std::slice::from_raw_parts(buf as *const u8, n), Some(off as u64)) as ssize_t;
    }
    raw::ret(raw::sys6(libc::SYS_pwrite64, fd as u64, buf as u64, n as u64, off as u64, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if sim() && quiet(|| st().has_fd(fd)) {
        let _in = sched::Inside::new();
        let mut all: Vec<u8> = vec![];
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
            }
        }
        return st().write(fd, &all, None) as ssize_t;
    }
    raw::ret(raw::sys3(libc::SYS_writev, fd as u64, iov as u64, cnt as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if sim() && quiet(|| fd >= super::FD_BASE) {
        let _in = sched::Inside::new();
        return st().close(fd) as c_int;
    }
    raw::ret(raw::sys3(libc::SYS_close, fd as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    if sim() && quiet(|| st().has_fd(fd)) {
        let _in = sched::Inside::new();
        return st().lseek(fd, off, wh);
    }
    raw::ret(raw::sys3(libc::SYS_lseek, fd as u64, off as u64, wh as u64))
}
unsafe fn fill_stat(out: *mut libc::stat64, m: Meta) {
    std::ptr::write_bytes(out, 0, 1);
    (*out).st_mode = m.mode;
    (*out).st_size = m.size as i64;
    (*out).st_ino = m.ino;
    (*out).st_mtime = (m.mtime / 1_000_000_000) as i64;
    (*out).st_mtime_nsec = (m.mtime % 1_000_000_000) as i64;
    (*out).st_ctime = (*out).st_mtime;
    (*out).st_ctime_nsec = (*out).st_mtime_nsec;
    (*out).st_nlink = 1;
    (*out).st_blksize = 4096;
    (*out).st_blocks = (m.size as i64 + 511) / 512;
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, out: *mut libc::stat64) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        let mut m = Meta::default();
        let r = st().stat(&path(p), &mut m);
        if r == 0 {
            fill_stat(out, m);
        }
        return r as c_int;
    }
    raw::ret(raw::sys3(libc::SYS_stat, p as u64, out as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, out: *mut libc::stat64) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return stat64(p, out);
    }
    raw::ret(raw::sys3(libc::SYS_lstat, p as u64, out as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, out: *mut libc::stat64) -> c_int {
    if sim() && quiet(|| st().has_fd(fd)) {
        let _in = sched::Inside::new();
        let mut m = Meta::default();
        let r = st().fstat(fd, &mut m);
        if r == 0 {
            fill_stat(out, m);
        }
        return r as c_int;
    }
    raw::ret(raw::sys3(libc::SYS_fstat, fd as u64, out as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, out: *mut libc::stat64, fl: c_int) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        if *p == 0 {
            return fstat64(d, out);
        }
        let full = at_path(d, p);
        let mut m = Meta::default();
        let r = st().stat(&full, &mut m);
        if r == 0 {
            fill_stat(out, m);
        }
        return r as c_int;
    }
    raw::ret(raw::sys6(libc::SYS_newfstatat, d as i64 as u64, p as u64, out as u64, fl as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: u32, out: *mut libc::statx) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        let mut m = Meta::default();
        let r = if p.is_null() || *p == 0 {
            if p.is_null() {
                return fail(libc::EFAULT) as c_int;
            }
            st().fstat(d, &mut m)
        } else {
            st().stat(&at_path(d, p), &mut m)
        };
        if r == 0 {
            std::ptr::write_bytes(out, 0, 1);
            (*out).stx_mask = 0x7ff;
            (*out).stx_mode = m.mode as u16;
            (*out).stx_size = m.size;
            (*out).stx_ino = m.ino;
            (*out).stx_mtime.tv_sec = (m.mtime / 1_000_000_000) as i64;
            (*out).stx_mtime.tv_nsec = (m.mtime % 1_000_000_000) as u32;
            (*out).stx_ctime = (*out).stx_mtime;
            (*out).stx_btime = (*out).stx_mtime;
            (*out).stx_nlink = 1;
            (*out).stx_blksize = 4096;
        }
        return r as c_int;
    }
    raw::ret(raw::sys6(libc::SYS_statx, d as i64 as u64, p as u64, fl as u64, mask as u64, out as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: u32) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return st().mkdir(&path(p)) as c_int;
    }
    raw::ret(raw::sys3(libc::SYS_mkdir, p as u64, mode as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return st().unlink(&path(p), false) as c_int;
    }
    raw::ret(raw::sys3(libc::SYS_unlink, p as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return st().unlink(&path(p), true) as c_int;
    }
    raw::ret(raw::sys3(libc::SYS_rmdir, p as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return st().unlink(&at_path(d, p), fl & libc::AT_REMOVEDIR != 0) as c_int;
    }
    raw::ret(raw::sys3(libc::SYS_unlinkat, d as i64 as u64, p as u64, fl as u64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return st().rename(&path(a), &path(b)) as c_int;
    }
    raw::ret(raw::sys3(libc::SYS_rename, a as u64, b as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if sim() && quiet(|| st().has_fd(fd)) {
        let _in = sched::Inside::new();
        return st().fsync(fd) as c_int;
    }
    raw::ret(raw::sys3(libc::SYS_fsync, fd as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if sim() && quiet(|| st().has_fd(fd)) {
        let _in = sched::Inside::new();
        return st().fsync(fd) as c_int;
    }
    raw::ret(raw::sys3(libc::SYS_fdatasync, fd as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if sim() && quiet(|| st().has_fd(fd)) {
        let _in = sched::Inside::new();
        return st().ftruncate(fd, len) as c_int;
    }
    raw::ret(raw::sys3(libc::SYS_ftruncate, fd as u64, len as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: u64) -> c_int {
    if sim() && quiet(|| fd >= super::FD_BASE) {
        let _in = sched::Inside::new();
        return match cmd {
            libc::F_GETFD => libc::FD_CLOEXEC,
            libc::F_GETFL => libc::O_RDWR,
            libc::F_SETFD | libc::F_SETFL => 0,
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => st().dup(fd) as c_int,
            _ => fail(libc::EINVAL) as c_int,
        };
    }
    raw::ret(raw::sys3(libc::SYS_fcntl, fd as u64, cmd as u64, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: u64, arg: u64) -> c_int {
    if sim() && quiet(|| fd >= super::FD_BASE || fd <= 2) {
        let _in = sched::Inside::new();
        return fail(libc::ENOTTY) as c_int;
    }
    raw::ret(raw::sys3(libc::SYS_ioctl, fd as u64, req, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        fail(libc::ENOTTY);
        return 0;
    }
    let mut t = [0u8; 64];
    (raw::ret(raw::sys3(libc::SYS_ioctl, fd as u64, 0x5401, t.as_mut_ptr() as u64)) == 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return 0;
    }
    raw::ret(raw::sys3(libc::SYS_flock, fd as u64, op as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: u32) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return 0;
    }
    raw::ret(raw::sys3(libc::SYS_fchmod, fd as u64, m as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const libc::timespec) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return 0;
    }
    raw::ret(raw::sys6(libc::SYS_utimensat, fd as u64, 0, t as u64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(d: c_int, p: *const c_char, t: *const libc::timespec, f: c_int) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return 0;
    }
    raw::ret(raw::sys6(libc::SYS_utimensat, d as i64 as u64, p as u64, t as u64, f as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: u32) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return 0;
    }
    raw::ret(raw::sys3(libc::SYS_chmod, p as u64, m as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        let mut x = Meta::default();
        return st().stat(&path(p), &mut x) as c_int;
    }
    raw::ret(raw::sys3(libc::SYS_access, p as u64, m as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if sim() {
        let _in = sched::Inside::new();
        return fail(libc::EINVAL) as ssize_t;
    }
    raw::ret(raw::sys3(libc::SYS_readlink, p as u64, b as u64, n as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return st().link(&path(a), &path(b)) as c_int;
    }
    raw::ret(raw::sys3(libc::SYS_link, a as u64, b as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return st().link(&at_path(d, a), &at_path(e, b)) as c_int;
    }
    raw::ret(raw::sys6(libc::SYS_linkat, d as i64 as u64, a as u64, e as i64 as u64, b as u64, f as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int {
    renameat2(d, a, e, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: u32) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        if f != 0 {
            return fail(libc::EINVAL) as c_int;
        }
        return st().rename(&at_path(d, a), &at_path(e, b)) as c_int;
    }
    raw::ret(raw::sys6(libc::SYS_renameat2, d as i64 as u64, a as u64, e as i64 as u64, b as u64, f as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, p: *const c_char, m: u32) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return st().mkdir(&at_path(d, p)) as c_int;
    }
    raw::ret(raw::sys3(libc::SYS_mkdirat, d as i64 as u64, p as u64, m as u64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, m: c_int, f: c_int) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        let mut x = Meta::default();
        return st().stat(&at_path(d, p), &mut x) as c_int;
    }
    raw::ret(raw::sys6(libc::SYS_faccessat, d as i64 as u64, p as u64, m as u64, f as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmodat(d: c_int, p: *const c_char, m: u32, f: c_int) -> c_int {
    if sim() {
        return 0;
    }
    raw::ret(raw::sys6(libc::SYS_fchmodat, d as i64 as u64, p as u64, m as u64, f as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const c_char, len: i64) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        let fd = st().open(&path(p), libc::O_WRONLY);
        if fd < 0 {
            return -1;
        }
        let r = st().ftruncate(fd as i32, len);
        st().close(fd as i32);
        return r as c_int;
    }
    raw::ret(raw::sys3(libc::SYS_truncate, p as u64, len as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: i64, len: i64) -> c_int {
    if sim() && quiet(|| fd >= super::FD_BASE) {
        return fail(libc::EOPNOTSUPP) as c_int;
    }
    raw::ret(raw::sys6(libc::SYS_fallocate, fd as u64, mode as u64, off as u64, len as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, off: i64, len: i64, a: c_int) -> c_int {
    if sim() {
        return 0;
    }
    -raw::sys6(libc::SYS_fadvise64, fd as u64, off as u64, len as u64, a as u64, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if sim() && quiet(|| fd >= super::FD_BASE) {
        let _in = sched::Inside::new();
        return st().dup(fd) as c_int;
    }
    raw::ret(raw::sys3(libc::SYS_dup, fd as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sync() {
    if !sim() {
        raw::sys3(libc::SYS_sync, 0, 0, 0);
    }
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, n: size_t, prot: c_int, fl: c_int, fd: c_int, off: i64) -> *mut c_void {
    if sim() && fl & libc::MAP_ANONYMOUS == 0 && fd >= super::FD_BASE {
        // no mapped files on the simulated disk
        fail(libc::ENODEV);
        return libc::MAP_FAILED;
    }
    raw::ret(raw::sys6(libc::SYS_mmap, a as u64, n as u64, prot as u64, fl as u64, fd as i64 as u64, off as u64)) as *mut c_void
}
/// No symbolic links on the simulated disk.
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return fail(libc::EPERM) as c_int;
    }
    raw::ret(raw::sys3(libc::SYS_symlink, a as u64, b as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: size_t, f: u32) -> ssize_t {
    if sim() {
        let _in = sched::Inside::new();
        return fail(libc::ENOSYS) as ssize_t;
    }
    raw::ret(raw::sys6(libc::SYS_copy_file_range, a as u64, ao as u64, b as u64, bo as u64, n as u64, f as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut i64, n: size_t) -> ssize_t {
    if sim() {
        let _in = sched::Inside::new();
        return fail(libc::ENOSYS) as ssize_t;
    }
    raw::ret(raw::sys6(libc::SYS_sendfile, a as u64, b as u64, o as u64, n as u64, 0, 0)) as ssize_t
}

// ---- directories ----

unsafe fn real(name: &CStr) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr())
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DirStream {
    if sim() {
        let _in = sched::Inside::new();
        return st().opendir(&path(p), None);
    }
    let f: unsafe extern "C" fn(*const c_char) -> *mut DirStream = std::mem::transmute(real(c"opendir"));
    f(p)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut DirStream {
    if sim() {
        let _in = sched::Inside::new();
        match st().dir_path(fd) {
            Some(p) => {
                return st().opendir(&p, Some(fd));
            }
            None => {
                fail(libc::EBADF);
                return std::ptr::null_mut();
            }
        }
    }
    let f: unsafe extern "C" fn(c_int) -> *mut DirStream = std::mem::transmute(real(c"fdopendir"));
    f(fd)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DirStream) -> *mut libc::dirent64 {
    if sim() && quiet(|| st().is_dir_stream(d)) {
        let _in = sched::Inside::new();
        return st().readdir(d);
    }
    let f: unsafe extern "C" fn(*mut DirStream) -> *mut libc::dirent64 = std::mem::transmute(real(c"readdir64"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DirStream) -> c_int {
    if sim() && quiet(|| st().is_dir_stream(d)) {
        let _in = sched::Inside::new();
        return st().closedir(d) as c_int;
    }
    let f: unsafe extern "C" fn(*mut DirStream) -> c_int = std::mem::transmute(real(c"closedir"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DirStream) -> c_int {
    if sim() && quiet(|| st().is_dir_stream(d)) {
        let _in = sched::Inside::new();
        return st().dirfd(d);
    }
    let f: unsafe extern "C" fn(*mut DirStream) -> c_int = std::mem::transmute(real(c"dirfd"));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if sim() {
        let _in = sched::Inside::new();
        let s = st().at(&path(p));
        let mut m = Meta::default();
        if st().stat(&s, &mut m) < 0 {
            return std::ptr::null_mut();
        }
        let b = if out.is_null() { libc::malloc(4097) as *mut c_char } else { out };
        for (i, c) in s.bytes().chain([0]).enumerate() {
            *b.add(i) = c as c_char;
        }
        return b;
    }
    let f: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(real(c"realpath"));
    f(p, out)
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return st().chdir(&path(p)) as c_int;
    }
    raw::ret(raw::sys3(libc::SYS_chdir, p as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchdir(d: c_int) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return match st().dir_path(d) {
            Some(p) => st().chdir(&p) as c_int,
            None => fail(libc::ENOTDIR) as c_int,
        };
    }
    raw::ret(raw::sys3(libc::SYS_fchdir, d as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if sim() {
        let _in = sched::Inside::new();
        let s = st().cwd.clone();
        if n <= s.len() {
            fail(libc::ERANGE);
            return std::ptr::null_mut();
        }
        for (i, c) in s.bytes().chain([0]).enumerate() {
            *b.add(i) = c as c_char;
        }
        return b;
    }
    if raw::ret(raw::sys3(libc::SYS_getcwd, b as u64, n as u64, 0)) < 0 {
        return std::ptr::null_mut();
    }
    b
}

// ---- clock, randomness, identity ----

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        let s = st();
        s.clock += 100;
        (*ts).tv_sec = (s.clock / 1_000_000_000) as i64;
        (*ts).tv_nsec = (s.clock % 1_000_000_000) as i64;
        return 0;
    }
    raw::ret(raw::sys3(libc::SYS_clock_gettime, id as u64, ts as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        sched::sleep((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64);
        return 0;
    }
    raw::ret(raw::sys3(libc::SYS_nanosleep, t as u64, rem as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, fl: c_int, t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        let ns = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
        sched::sleep(if fl & 1 != 0 { ns.saturating_sub(st().clock) } else { ns });
        return 0;
    }
    -(raw::sys6(libc::SYS_clock_nanosleep, id as u64, fl as u64, t as u64, rem as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, fl: u32) -> ssize_t {
    if sim() {
        let _in = sched::Inside::new();
        st().random(std::slice::from_raw_parts_mut(b as *mut u8, n));
        return n as ssize_t;
    }
    raw::ret(raw::sys3(libc::SYS_getrandom, b as u64, n as u64, fl as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        return 4000 + (st().plan.seed % 1000) as c_int;
    }
    raw::sys3(libc::SYS_getpid, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_pid: c_int, n: size_t, set: *mut c_void) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        // simulated processors, whatever the machine has
        std::ptr::write_bytes(set as *mut u8, 0, n);
        *(set as *mut u8) = match super::mix(st().plan.seed, 0xc9) % 6 {
            0 => 0x01,
            1 => 0x03,
            2 => 0x3f,
            3 => 0xff,
            _ => 0x0f,
        };
        return 0;
    }
    let r = raw::ret(raw::sys3(libc::SYS_sched_getaffinity, 0, n as u64, set as u64));
    if r < 0 {
        -1
    } else {
        0
    }
}

// ---- threads ----

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        sched::yield_now();
        return 0;
    }
    raw::ret(raw::sys3(libc::SYS_sched_yield, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    if sim() {
        let _in = sched::Inside::new();
        match n {
            libc::SYS_futex => {
                let r = sched::futex(a as *const u32, b as i32, c as u32, d as *const libc::timespec);
                return raw::ret(r);
            }
            libc::SYS_getrandom => return getrandom(a as *mut c_void, b as usize, c as u32) as i64,
            libc::SYS_statx => return statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut libc::statx) as i64,
            libc::SYS_copy_file_range => return fail(libc::ENOSYS),
            _ => {}
        }
    }
    raw::ret(raw::sys6(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let re: sched::CreateFn = std::mem::transmute(real(c"pthread_create"));
    if sim() {
        let _in = sched::Inside::new();
        return sched::create(re, out, attr, f, arg);
    }
    re(out, attr, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    if sim() {
        let _in = sched::Inside::new();
        sched::join(t);
    }
    let re: unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(real(c"pthread_join"));
    re(t, r)
}
