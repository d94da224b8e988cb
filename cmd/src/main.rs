// The command-line tool itself, in which the naps its main thread takes while it has nothing to do are counted
// in a file (the environment's VN_NAPS), so that it can be told when it has come to rest.
include!("/repo/src/main.rs");

mod naps {
    use std::os::raw::{c_int, c_long, c_void};
    use std::sync::atomic::{AtomicU64, Ordering};
    use std::sync::OnceLock;
    extern "C" { fn syscall(n: c_long, ...) -> c_long; fn getpid() -> c_int; }
    const NANOSLEEP: c_long = 35;
    const CLOCK_NANOSLEEP: c_long = 230;
    const GETTID: c_long = 186;
    static COUNT: AtomicU64 = AtomicU64::new(0);
    static FILE: OnceLock<Option<std::fs::File>> = OnceLock::new();
    fn nap() {
        if unsafe { syscall(GETTID) as c_int != getpid() } { return }
        let f = FILE.get_or_init(|| std::env::var_os("VN_NAPS").and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok()));
        let n = COUNT.fetch_add(1, Ordering::SeqCst) + 1;
        if let Some(f) = f { let _ = std::os::unix::fs::FileExt::write_all_at(f, &n.to_le_bytes(), 0); }
    }
    #[no_mangle] pub unsafe extern "C" fn nanosleep(a: *const c_void, b: *mut c_void) -> c_int { nap(); if syscall(NANOSLEEP, a, b) == 0 { 0 } else { -1 } }
    #[no_mangle] pub unsafe extern "C" fn clock_nanosleep(c: c_int, f: c_int, a: *const c_void, b: *mut c_void) -> c_int { nap(); if syscall(CLOCK_NANOSLEEP, c as c_long, f as c_long, a, b) == 0 { 0 } else { 4 } }
}
