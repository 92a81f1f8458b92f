//! Raw system calls: the way out of the simulation. Nothing here goes through
//! libc, whose file functions this crate replaces.
use std::arch::asm;

#[inline]
pub unsafe fn sys6(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}
pub unsafe fn sys3(n: i64, a: u64, b: u64, c: u64) -> i64 {
    sys6(n, a, b, c, 0, 0, 0)
}
/// Kernel return value to the libc convention (-1 and errno).
pub unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    sys6(libc::SYS_futex, addr as u64, 128, val as u64, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32) {
    sys6(libc::SYS_futex, addr as u64, 129, i32::MAX as u64, 0, 0, 0);
}
pub unsafe fn exit_now(code: i32) -> ! {
    sys3(libc::SYS_exit_group, code as u64, 0, 0);
    loop {}
}
pub fn eprint(s: &str) {
    unsafe {
        sys3(libc::SYS_write, 2, s.as_ptr() as u64, s.len() as u64);
    }
}
