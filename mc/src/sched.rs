//! Controlled scheduler for the threads the library spawns.
//!
//! `pthread_create` is interposed: a thread created while the calling (engine) thread has a
//! scheduler installed is held in a trampoline and runs only when the scheduler releases it.
//! A calibration run finds out how many threads are waiting at each release (a thread is released
//! when the creating thread is blocked, or has stopped creating threads); the explorer then
//! enumerates every choice of the next thread to run.  Within a thread, every allocation is a point
//! where it can be preempted in favour of another waiting thread.
use std::cell::Cell;
use std::collections::HashMap;
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex, MutexGuard, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default)]
pub struct Profile {
    /// threads created before the k-th release
    pub created: Vec<usize>,
    /// allocations made by each thread
    pub allocs: Vec<usize>
}
impl Profile {
    pub fn threads(&self) -> usize {
        self.created.len()
    }
    /// threads waiting at the k-th release
    pub fn waiting(&self, k: usize) -> usize {
        self.created[k] - k
    }
}

#[derive(Default)]
struct St {
    calibrate: bool,
    created: usize,
    done: Vec<bool>,
    steps: usize,
    running: bool,
    profile: Profile,
    order: Vec<usize>,
    free: bool,
    preempt: Option<(usize, usize, usize)>,
    grant: Option<usize>,
    preempted: bool,
    last: Option<Instant>
}
pub struct Sched {
    m: Mutex<St>,
    cv: Condvar,
    main: i32
}

thread_local! {
    static CUR: Cell<*const Sched> = const { Cell::new(std::ptr::null()) };
    static ME: Cell<(*const Sched, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    static ALLOCS: Cell<usize> = const { Cell::new(0) };
    /// inside the closure given to the thread: before and after it, the standard library allocates
    /// while it holds a lock of its own
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}
/// how often a planned schedule could not be carried out (the run then goes on unscheduled)
pub static BROKEN: AtomicUsize = AtomicUsize::new(0);

type Entry = extern "C" fn(*mut c_void) -> *mut c_void;
type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Entry, *mut c_void) -> c_int;
struct Start {
    f: Entry,
    arg: *mut c_void,
    sched: Arc<Sched>,
    idx: usize
}

fn real() -> Create {
    static R: OnceLock<usize> = OnceLock::new();
    let p = *R.get_or_init(|| unsafe { libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()) as usize });
    assert!(p != 0);
    unsafe { std::mem::transmute::<usize, Create>(p) }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: Entry, arg: *mut c_void) -> c_int {
    let cur = CUR.try_with(|c| c.get()).unwrap_or(std::ptr::null());
    if cur.is_null() {
        return crate::alloc::rust(|| real()(t, a, f, arg));
    }
    Arc::increment_strong_count(cur);
    let sched = Arc::from_raw(cur);
    let idx = {
        let mut g = sched.lock();
        let i = g.created;
        g.created += 1;
        g.done.push(false);
        g.profile.allocs.push(0);
        g.last = Some(Instant::now());
        i
    };
    sched.cv.notify_all();
    let s = Box::into_raw(Box::new(Start { f, arg, sched, idx }));
    let r = real()(t, a, tramp, s as *mut c_void);
    if r != 0 {
        let s = Box::from_raw(s);
        s.sched.lock().free = true;
        s.sched.cv.notify_all();
    }
    r
}

/// The standard library sets up the signal stack of a thread right before it runs the closure, and
/// disables it right after
#[no_mangle]
pub unsafe extern "C" fn sigaltstack(ss: *const libc::stack_t, old: *mut libc::stack_t) -> c_int {
    static R: OnceLock<usize> = OnceLock::new();
    let p = *R.get_or_init(|| libc::dlsym(libc::RTLD_NEXT, c"sigaltstack".as_ptr()) as usize);
    let f = std::mem::transmute::<usize, unsafe extern "C" fn(*const libc::stack_t, *mut libc::stack_t) -> c_int>(p);
    if !ss.is_null() {
        let on = (*ss).ss_flags & libc::SS_DISABLE == 0;
        let _ = INSIDE.try_with(|i| i.set(on));
    }
    f(ss, old)
}

extern "C" fn tramp(arg: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(arg as *mut Start) };
    s.sched.begin(s.idx);
    ALLOCS.with(|a| a.set(0));
    ME.with(|m| m.set((Arc::as_ptr(&s.sched), s.idx)));
    let r = (s.f)(s.arg);
    ME.with(|m| m.set((std::ptr::null(), 0)));
    s.sched.end(s.idx, ALLOCS.with(|a| a.get()));
    r
}

/// called by the allocator: a point where a scheduled thread can be preempted
pub fn point() {
    let (p, i) = ME.try_with(|m| m.get()).unwrap_or((std::ptr::null(), 0));
    if p.is_null() || !INSIDE.try_with(|i| i.get()).unwrap_or(false) {
        return;
    }
    let n = ALLOCS.with(|a| {
        a.set(a.get() + 1);
        a.get()
    });
    ME.with(|m| m.set((std::ptr::null(), 0)));
    unsafe { &*p }.maybe_preempt(i, n);
    ME.with(|m| m.set((p, i)));
}

const GIVE_UP: Duration = Duration::from_secs(4);

fn asleep(tid: i32) -> bool {
    // no allocation worth worrying about: this runs outside ME
    match std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) {
        Ok(s) => s.rsplit(')').next().map_or(false, |x| x.trim_start().starts_with('S')),
        Err(_) => false
    }
}

impl Sched {
    fn lock(&self) -> MutexGuard<'_, St> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn begin(&self, i: usize) {
        let mut g = self.lock();
        let start = Instant::now();
        let mut still = (0, usize::MAX);
        loop {
            if g.free {
                return;
            }
            if g.calibrate {
                let first = g.done.iter().position(|d| !*d);
                if !g.running && first == Some(i) {
                    // released once the creator cannot create more threads for now
                    let created = g.created;
                    let idle = g.last.map_or(Duration::ZERO, |l| l.elapsed());
                    drop(g);
                    let s = asleep(self.main);
                    g = self.lock();
                    if g.created == created && s && still.1 == created {
                        still.0 += 1;
                    } else {
                        still = (0, created);
                    }
                    if g.created == created && (still.0 >= 3 || idle > Duration::from_millis(250)) {
                        g.running = true;
                        let c = g.created;
                        g.profile.created.push(c);
                        return;
                    }
                }
                g = self.cv.wait_timeout(g, Duration::from_millis(1)).unwrap_or_else(|e| e.into_inner()).0;
                continue;
            }
            if g.grant == Some(i) && !g.running {
                g.running = true;
                return;
            }
            let k = g.steps;
            if g.grant.is_none() && !g.preempted_now() && !g.running && k < g.order.len() && g.order[k] == i && g.created >= g.profile.created[k] {
                g.running = true;
                return;
            }
            if k >= g.order.len() || start.elapsed() > GIVE_UP * 2 || g.last.map_or(false, |l| l.elapsed() > GIVE_UP) {
                g.free = true;
                BROKEN.fetch_add(1, Relaxed);
                drop(g);
                self.cv.notify_all();
                return;
            }
            g = self.cv.wait_timeout(g, Duration::from_millis(200)).unwrap_or_else(|e| e.into_inner()).0;
        }
    }
    fn end(&self, i: usize, allocs: usize) {
        let mut g = self.lock();
        g.running = false;
        g.done[i] = true;
        g.profile.allocs[i] = allocs;
        g.last = Some(Instant::now());
        if g.grant == Some(i) {
            g.grant = None;
            g.preempted = false;
            // it has already run: take it out of the order
            let k = g.steps;
            if let Some(p) = g.order[k..].iter().position(|x| *x == i) {
                g.order.remove(k + p);
                g.profile.created.pop();
            }
        } else {
            g.steps += 1;
        }
        drop(g);
        self.cv.notify_all();
    }
    fn maybe_preempt(&self, i: usize, n: usize) {
        let mut g = self.lock();
        if g.free || g.calibrate || g.preempt.map_or(true, |p| (p.0, p.1) != (i, n)) {
            return;
        }
        let t = g.preempt.unwrap().2;
        g.preempt = None;
        if t >= g.done.len() || g.done[t] {
            return;
        }
        g.grant = Some(t);
        g.preempted = true;
        g.running = false;
        self.cv.notify_all();
        let start = Instant::now();
        while g.preempted && !g.free {
            if start.elapsed() > GIVE_UP {
                // the other thread waits for something this one holds
                g.free = true;
                BROKEN.fetch_add(1, Relaxed);
                self.cv.notify_all();
                break;
            }
            g = self.cv.wait_timeout(g, Duration::from_millis(200)).unwrap_or_else(|e| e.into_inner()).0;
        }
        g.running = true;
    }
}
impl St {
    fn preempted_now(&self) -> bool {
        self.preempted
    }
}

fn run<R>(st: St, f: impl FnOnce() -> R) -> (R, Arc<Sched>) {
    let s = Arc::new(Sched { m: Mutex::new(st), cv: Condvar::new(), main: unsafe { libc::syscall(libc::SYS_gettid) as i32 } });
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            CUR.with(|c| c.set(std::ptr::null()));
        }
    }
    CUR.with(|c| c.set(Arc::as_ptr(&s)));
    let _r = Reset;
    let r = f();
    CUR.with(|c| c.set(std::ptr::null()));
    (r, s)
}

/// What threads `f` creates; cached under `key`
pub fn calibrate(key: u64, f: impl FnOnce()) -> Arc<Profile> {
    static CACHE: OnceLock<Mutex<HashMap<u64, Arc<Mutex<Option<Arc<Profile>>>>>>> = OnceLock::new();
    let cell = {
        let mut c = CACHE.get_or_init(|| Mutex::new(HashMap::new())).lock().unwrap_or_else(|e| e.into_inner());
        c.entry(key).or_default().clone()
    };
    let mut g = cell.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(p) = &*g {
        return p.clone();
    }
    let (_, s) = run(St { calibrate: true, ..Default::default() }, || {
        let _ = crate::engine::guard(f);
    });
    // the last thread may still be on its way out
    let mut st = s.lock();
    let start = Instant::now();
    while !st.done.iter().all(|d| *d) && start.elapsed() < GIVE_UP {
        st = s.cv.wait_timeout(st, Duration::from_millis(1)).unwrap_or_else(|e| e.into_inner()).0;
    }
    let p = Arc::new(st.profile.clone());
    drop(st);
    *g = Some(p.clone());
    p
}

/// Runs `f` with its threads released in the given order, and with at most one preemption
/// (thread, allocation number, thread that runs instead)
pub fn scheduled<R>(p: &Profile, order: Vec<usize>, preempt: Option<(usize, usize, usize)>, f: impl FnOnce() -> R) -> R {
    let st = St { order, profile: Profile { created: p.created.clone(), allocs: vec![] }, preempt, last: Some(Instant::now()), ..Default::default() };
    run(st, f).0
}

/// Every order in which the threads can be released, one per execution (once more than `budget`
/// orders are possible, the threads still to come run in the order of their creation)
pub fn choose_order(ch: &mut crate::engine::Ch, p: &Profile) -> Vec<usize> {
    let mut budget = if ch.thorough() { 20000 } else { 720 };
    let mut order = vec![];
    let mut waiting: Vec<usize> = vec![];
    let mut seen = 0;
    for k in 0..p.threads() {
        while seen < p.created[k] {
            waiting.push(seen);
            seen += 1;
        }
        let n = waiting.len();
        let i = if n > 1 && budget >= n {
            budget /= n;
            ch.choose(n)
        } else {
            0
        };
        order.push(waiting.remove(i));
    }
    order
}
