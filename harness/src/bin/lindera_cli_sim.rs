// lindera-cli's main.rs, unchanged, over the simulated operating system.
#[used]
#[link_section = ".init_array"]
static LSIM_CTOR: extern "C" fn(i32, *const *const i8, *const *const i8) = lsim::proc::cli_ctor;

include!("/repo/lindera-cli/src/main.rs");
