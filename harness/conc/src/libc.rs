//! The few C declarations the harness needs (x86-64 Linux).
#![allow(non_camel_case_types)]
pub const PROT_NONE: i32 = 0; pub const PROT_READ: i32 = 1; pub const PROT_WRITE: i32 = 2;
pub const MAP_PRIVATE: i32 = 2; pub const MAP_ANONYMOUS: i32 = 32;
pub const SIGILL: i32 = 4; pub const SIGABRT: i32 = 6; pub const SIGBUS: i32 = 7; pub const SIGSEGV: i32 = 11; pub const SIGALRM: i32 = 14;
pub const SA_ONSTACK: i32 = 0x08000000;
pub const RLIMIT_AS: i32 = 9; pub const RLIMIT_CORE: i32 = 4;
pub type pthread_t = usize;
#[repr(C)] pub struct sigaction { pub sa_sigaction: usize, pub sa_mask: [u64; 16], pub sa_flags: i32, pub sa_restorer: usize }
#[repr(C)] pub struct stack_t { pub ss_sp: *mut u8, pub ss_flags: i32, pub ss_size: usize }
#[repr(C)] pub struct rlimit { pub rlim_cur: u64, pub rlim_max: u64 }
extern "C" {
    pub fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    pub fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
    pub fn write(fd: i32, p: *const u8, n: usize) -> isize;
    pub fn _exit(c: i32) -> !;
    pub fn sigaction(s: i32, n: *const sigaction, o: *mut sigaction) -> i32;
    pub fn sigaltstack(n: *const stack_t, o: *mut stack_t) -> i32;
    pub fn setrlimit(r: i32, l: *const rlimit) -> i32;
    pub fn pthread_self() -> pthread_t;
    pub fn pthread_kill(t: pthread_t, s: i32) -> i32;
}
