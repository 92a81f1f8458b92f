//! Atomic operations of the instrumented crates. The compiler turns each into one of
//! these calls (LLVM's thread sanitizer pass, its runtime replaced by this), which makes
//! every one a place where threads can be switched. The memory is sequentially
//! consistent: one thread runs at a time.
#![allow(clippy::missing_safety_doc)]
use super::sched;
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

// The caller's address is the site; then the operation itself.
macro_rules! site {
    ($($name:literal),*) => {
        std::arch::global_asm!($(
            concat!(".globl __tsan_atomic", $name),
            concat!(".type __tsan_atomic", $name, ",@function"),
            concat!("__tsan_atomic", $name, ":"),
            "push rdi",
            "push rsi",
            "push rdx",
            "push rcx",
            "push r8",
            "mov rdi, [rsp+40]",
            "call {site}",
            "pop r8",
            "pop rcx",
            "pop rdx",
            "pop rsi",
            "pop rdi",
            concat!("jmp lsim_atomic", $name),
        )*
            site = sym lsim_atomic_site,
        );
    };
}
site!(
    "8_load", "8_store", "8_exchange", "8_fetch_add", "8_fetch_sub", "8_fetch_and", "8_fetch_or", "8_fetch_xor", "8_fetch_nand",
    "8_compare_exchange_val", "16_load", "16_store", "16_exchange", "16_fetch_add", "16_fetch_sub", "16_fetch_and",
    "16_fetch_or", "16_fetch_xor", "16_fetch_nand", "16_compare_exchange_val", "32_load", "32_store", "32_exchange",
    "32_fetch_add", "32_fetch_sub", "32_fetch_and", "32_fetch_or", "32_fetch_xor", "32_fetch_nand",
    "32_compare_exchange_val", "64_load", "64_store", "64_exchange", "64_fetch_add", "64_fetch_sub", "64_fetch_and",
    "64_fetch_or", "64_fetch_xor", "64_fetch_nand", "64_compare_exchange_val"
);

extern "C" {
    static __executable_start: u8;
}

#[no_mangle]
unsafe extern "C" fn lsim_atomic_site(ret: usize) {
    sched::atomic_site(ret.wrapping_sub(&raw const __executable_start as usize));
}

macro_rules! ops {
    ($t:ty, $a:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $a, _mo: i32) -> $t {
            (*p).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const $a, v: $t, _mo: i32) {
            (*p).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *const $a, v: $t, _mo: i32) -> $t {
            (*p).swap(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *const $a, v: $t, _mo: i32) -> $t {
            (*p).fetch_add(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *const $a, v: $t, _mo: i32) -> $t {
            (*p).fetch_sub(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *const $a, v: $t, _mo: i32) -> $t {
            (*p).fetch_and(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *const $a, v: $t, _mo: i32) -> $t {
            (*p).fetch_or(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *const $a, v: $t, _mo: i32) -> $t {
            (*p).fetch_xor(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *const $a, v: $t, _mo: i32) -> $t {
            (*p).fetch_nand(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *const $a, old: $t, new: $t, _mo: i32, _fail: i32) -> $t {
            match (*p).compare_exchange(old, new, SeqCst, SeqCst) {
                Ok(v) | Err(v) => v,
            }
        }
    };
}
ops!(u8, AtomicU8, lsim_atomic8_load, lsim_atomic8_store, lsim_atomic8_exchange, lsim_atomic8_fetch_add, lsim_atomic8_fetch_sub, lsim_atomic8_fetch_and, lsim_atomic8_fetch_or, lsim_atomic8_fetch_xor, lsim_atomic8_fetch_nand, lsim_atomic8_compare_exchange_val);
ops!(u16, AtomicU16, lsim_atomic16_load, lsim_atomic16_store, lsim_atomic16_exchange, lsim_atomic16_fetch_add, lsim_atomic16_fetch_sub, lsim_atomic16_fetch_and, lsim_atomic16_fetch_or, lsim_atomic16_fetch_xor, lsim_atomic16_fetch_nand, lsim_atomic16_compare_exchange_val);
ops!(u32, AtomicU32, lsim_atomic32_load, lsim_atomic32_store, lsim_atomic32_exchange, lsim_atomic32_fetch_add, lsim_atomic32_fetch_sub, lsim_atomic32_fetch_and, lsim_atomic32_fetch_or, lsim_atomic32_fetch_xor, lsim_atomic32_fetch_nand, lsim_atomic32_compare_exchange_val);
ops!(u64, AtomicU64, lsim_atomic64_load, lsim_atomic64_store, lsim_atomic64_exchange, lsim_atomic64_fetch_add, lsim_atomic64_fetch_sub, lsim_atomic64_fetch_and, lsim_atomic64_fetch_or, lsim_atomic64_fetch_xor, lsim_atomic64_fetch_nand, lsim_atomic64_compare_exchange_val);

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(_mo: i32) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}
