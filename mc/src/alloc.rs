//! Checking allocator: every block is preceded by a header recording its layout and followed by a
//! red zone.  A dealloc/realloc with a different layout, or a clobbered red zone, is recorded in a
//! thread local and turned into a violation by the engine at the end of the execution.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct CheckAlloc;

#[cfg(feature = "capi")]
pub use crate::cmem::rust;
#[cfg(not(feature = "capi"))]
#[inline(always)]
pub fn rust<T>(f: impl FnOnce() -> T) -> T {
    f()
}
pub fn net() -> isize {
    BYTES.try_with(|p| p.get() as isize).unwrap_or(0)
}


const MAGIC: usize = 0x5EED_C0DE_1234_ABCD;
const TAIL: usize = 16;
const TAIL_BYTE: u8 = 0xA7;
const FILL: u8 = 0xC5;

thread_local! {
    static FAULT: Cell<u32> = const { Cell::new(0) };
    static BYTES: Cell<usize> = const { Cell::new(0) };
    static PEAK: Cell<usize> = const { Cell::new(0) };
}
/// Faults detected on any thread (also threads the library spawned)
pub static FAULTS: AtomicUsize = AtomicUsize::new(0);

pub fn take_fault() -> u32 {
    FAULT.try_with(|f| f.replace(0)).unwrap_or(0)
}
pub fn reset_peak() {
    let _ = BYTES.try_with(|b| b.set(0));
    let _ = PEAK.try_with(|p| p.set(0));
}
pub fn peak() -> usize {
    PEAK.try_with(|p| p.get()).unwrap_or(0)
}

fn fault(code: u32) {
    FAULTS.fetch_add(1, Ordering::Relaxed);
    let _ = FAULT.try_with(|f| f.set(f.get() | code));
}

fn hdr(align: usize) -> usize {
    align.max(32)
}

unsafe impl GlobalAlloc for CheckAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        #[cfg(any(feature = "procs", feature = "jxl"))]
        crate::sched::point();
        let h = hdr(l.align());
        let full = match Layout::from_size_align(l.size() + h + TAIL, l.align().max(16)) {
            Ok(f) => f,
            Err(_) => return std::ptr::null_mut()
        };
        let p = rust(|| System.alloc(full));
        if p.is_null() {
            return p;
        }
        self.setup(p, h, l);
        let user = p.add(h);
        // uninitialised memory gets a fixed pattern, so that reading it is deterministic
        if l.size() <= 1 << 16 {
            std::ptr::write_bytes(user, FILL, l.size());
        }
        user
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        #[cfg(any(feature = "procs", feature = "jxl"))]
        crate::sched::point();
        let h = hdr(l.align());
        let full = match Layout::from_size_align(l.size() + h + TAIL, l.align().max(16)) {
            Ok(f) => f,
            Err(_) => return std::ptr::null_mut()
        };
        let p = rust(|| System.alloc_zeroed(full));
        if p.is_null() {
            return p;
        }
        self.setup(p, h, l);
        p.add(h)
    }
    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        let (p, full) = self.verify(user, l);
        let _ = BYTES.try_with(|b| b.set(b.get().wrapping_sub(l.size())));
        rust(|| System.dealloc(p, full));
    }
    unsafe fn realloc(&self, user: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let n = self.alloc(nl);
        if n.is_null() {
            return n;
        }
        let real = std::ptr::read_unaligned(user.sub(24) as *const usize);
        std::ptr::copy_nonoverlapping(user, n, real.min(l.size()).min(new));
        self.dealloc(user, l);
        n
    }
}

impl CheckAlloc {
    unsafe fn setup(&self, p: *mut u8, h: usize, l: Layout) {
        let user = p.add(h);
        std::ptr::write_unaligned(user.sub(32) as *mut usize, MAGIC);
        std::ptr::write_unaligned(user.sub(24) as *mut usize, l.size());
        std::ptr::write_unaligned(user.sub(16) as *mut usize, l.align());
        std::ptr::write_unaligned(user.sub(8) as *mut usize, MAGIC);
        std::ptr::write_bytes(user.add(l.size()), TAIL_BYTE, TAIL);
        let _ = BYTES.try_with(|b| {
            let v = b.get().wrapping_add(l.size());
            b.set(v);
            let _ = PEAK.try_with(|pk| {
                if (v as isize) > pk.get() as isize {
                    pk.set(v)
                }
            });
        });
    }
    unsafe fn verify(&self, user: *mut u8, l: Layout) -> (*mut u8, Layout) {
        let m0 = std::ptr::read_unaligned(user.sub(32) as *const usize);
        let sz = std::ptr::read_unaligned(user.sub(24) as *const usize);
        let al = std::ptr::read_unaligned(user.sub(16) as *const usize);
        let m1 = std::ptr::read_unaligned(user.sub(8) as *const usize);
        if m0 != MAGIC || m1 != MAGIC {
            fault(1);
            // cannot trust anything, use what we were told
            let h = hdr(l.align());
            return (
                user.sub(h),
                Layout::from_size_align_unchecked(l.size() + h + TAIL, l.align().max(16))
            );
        }
        if sz != l.size() || al != l.align() {
            fault(2);
        }
        let tail = std::slice::from_raw_parts(user.add(sz), TAIL);
        if tail.iter().any(|b| *b != TAIL_BYTE) {
            fault(4);
        }
        let h = hdr(al);
        std::ptr::write_unaligned(user.sub(8) as *mut usize, 0);
        (
            user.sub(h),
            Layout::from_size_align_unchecked(sz + h + TAIL, al.max(16))
        )
    }
}
