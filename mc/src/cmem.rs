//! malloc and free as the C interface sees them: while a call is watched, every block it takes
//! with malloc is listed, filled and fenced; releasing twice, writing behind a block and blocks
//! never released are reported.  (Rust's own blocks go through alloc.rs and are passed on.)
use std::cell::{Cell, UnsafeCell};
use std::ffi::c_void;

extern "C" {
    fn __libc_malloc(n: usize) -> *mut c_void;
    fn __libc_free(p: *mut c_void);
}
const FENCE: usize = 64;
const CAP: usize = 512;

#[derive(Copy, Clone)]
struct Ent {
    p:    usize,
    n:    usize,
    live: bool
}
thread_local! {
    static WATCH: Cell<bool> = const { Cell::new(false) };
    static RUST: Cell<u32> = const { Cell::new(0) };
    static LEN: Cell<usize> = const { Cell::new(0) };
    static FAULT: Cell<u32> = const { Cell::new(0) };
    static TAB: UnsafeCell<[Ent; CAP]> = const { UnsafeCell::new([Ent { p: 0, n: 0, live: false }; CAP]) };
}
/// blocks taken inside are Rust's own
pub fn rust<T>(f: impl FnOnce() -> T) -> T {
    let _ = RUST.try_with(|r| r.set(r.get() + 1));
    let t = f();
    let _ = RUST.try_with(|r| r.set(r.get() - 1));
    t
}
fn watching() -> bool {
    WATCH.try_with(|w| w.get()).unwrap_or(false) && RUST.try_with(|r| r.get() == 0).unwrap_or(false)
}
#[no_mangle]
pub unsafe extern "C" fn malloc(n: usize) -> *mut c_void {
    if !watching() || n > 1 << 28 {
        return __libc_malloc(n);
    }
    let k = LEN.with(|l| l.get());
    if k == CAP {
        return __libc_malloc(n);
    }
    let p = __libc_malloc(n + FENCE);
    if p.is_null() {
        return p;
    }
    std::ptr::write_bytes(p as *mut u8, 0xC5, n);
    std::ptr::write_bytes((p as *mut u8).add(n), 0xFE, FENCE);
    TAB.with(|t| (*t.get())[k] = Ent { p: p as usize, n, live: true });
    LEN.with(|l| l.set(k + 1));
    p
}
unsafe fn fence_ok(e: &Ent) -> bool {
    std::slice::from_raw_parts((e.p as *const u8).add(e.n), FENCE).iter().all(|b| *b == 0xFE)
}
#[no_mangle]
pub unsafe extern "C" fn free(p: *mut c_void) {
    let k = LEN.try_with(|l| l.get()).unwrap_or(0);
    if p.is_null() || k == 0 {
        return __libc_free(p);
    }
    let mut fault = 0;
    let known = TAB.with(|t| {
        for e in (&mut (*t.get()))[..k].iter_mut().rev() {
            if e.p == p as usize {
                if !e.live {
                    fault |= 1;
                } else {
                    if !fence_ok(e) {
                        fault |= 2;
                    }
                    e.live = false;
                    std::ptr::write_bytes(p as *mut u8, 0xDD, e.n);
                }
                return true;
            }
        }
        false
    });
    if fault != 0 {
        FAULT.with(|f| f.set(f.get() | fault));
    }
    if !known {
        __libc_free(p);
    }
}
/// watch the C calls of `f`
pub fn watch<T>(f: impl FnOnce() -> T) -> T {
    WATCH.with(|w| w.set(true));
    let t = f();
    WATCH.with(|w| w.set(false));
    t
}
/// what happened since the last call: (released twice, overrun, blocks not released)
pub fn end() -> (bool, bool, usize) {
    let k = LEN.with(|l| l.replace(0));
    let f = FAULT.with(|f| f.replace(0));
    let mut live = 0;
    let mut over = f & 2 != 0;
    TAB.with(|t| unsafe {
        for e in &(&(*t.get()))[..k] {
            if e.live {
                live += 1;
                over |= !fence_ok(e);
            }
            __libc_free(e.p as *mut c_void);
        }
    });
    (f & 1 != 0, over, live)
}
