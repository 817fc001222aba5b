//! Stateless explorer.  A scenario is an ordinary function whose every nondeterministic decision
//! (which operation comes next, which byte, which environment answer, which thread runs) is taken
//! by `Ch::choose`.  The driver executes the scenario once for every path of the resulting choice
//! tree: an execution is identified by its choice vector, which is also its replay.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough
}

/// A violation: a class key (used to match known findings) and a description of the failing case
#[derive(Clone, Debug)]
pub struct Bad {
    pub key: String,
    pub msg: String
}
pub type Res = Result<(), Bad>;

pub fn bad<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Bad> {
    Err(Bad { key: key.into(), msg: msg.into() })
}

pub struct Ch<'a> {
    prefix:   &'a [u32],
    pub log:  Vec<(u32, u32)>,
    h:        u64,
    obs:      u64,
    states:   Vec<u64>,
    nontriv:  bool,
    skip:     bool,
    pub tracing: bool,
    pub trace:   String,
    pub tier: Tier
}

#[inline]
fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (b.len() as u64);
    for c in b.chunks(8) {
        let mut v = 0u64;
        for (i, x) in c.iter().enumerate() {
            v |= (*x as u64) << (8 * i);
        }
        h = mix(h, v);
    }
    h
}

impl<'a> Ch<'a> {
    pub fn new(prefix: &'a [u32], tier: Tier, tracing: bool) -> Ch<'a> {
        Ch {
            prefix,
            log: Vec::with_capacity(32),
            h: 1,
            obs: 7,
            states: vec![],
            nontriv: true,
            skip: false,
            tracing,
            trace: String::new(),
            tier
        }
    }
    /// one nondeterministic choice out of `0..n`
    #[inline]
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        let i = self.log.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            panic!("ENGINE: replay diverged: choice {c} of {n} at position {i}");
        }
        self.log.push((c, n as u32));
        self.h = mix(self.h, c as u64 + 1);
        c as usize
    }
    #[inline]
    pub fn pick<T: Copy>(&mut self, items: &[T]) -> T {
        items[self.choose(items.len())]
    }
    pub fn pick_ref<'b, T>(&mut self, items: &'b [T]) -> &'b T {
        &items[self.choose(items.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// record a visited state of the reference model
    #[inline]
    pub fn state(&mut self, s: u64) {
        self.states.push(s);
    }
    /// record an observation (what the implementation did)
    #[inline]
    pub fn obs(&mut self, v: u64) {
        self.obs = mix(self.obs, v);
    }
    pub fn obs_bytes(&mut self, b: &[u8]) {
        let v = hash_bytes(b);
        self.obs(v)
    }
    /// this execution does not exercise the property (e.g. the input is outside the format)
    pub fn trivial(&mut self) {
        self.nontriv = false;
    }
    /// do not count this execution at all (redundant combination)
    pub fn discard(&mut self) {
        self.skip = true;
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            if std::env::var_os("MC_PANICS").is_some() {
                eprintln!("{s}");
            }
            let _ = writeln!(self.trace, "{s}");
        }
    }
}

#[derive(Copy, Clone)]
pub struct Scenario {
    pub name: &'static str,
    pub f:    fn(&mut Ch) -> Res
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
}
pub static LAST_FOREIGN_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let full = format!("{m} @ {loc}");
        if std::env::var_os("MC_PANICS").is_some() {
            eprintln!("panic: {full}");
        }
        if let Ok(mut g) = LAST_FOREIGN_PANIC.lock() {
            *g = Some(full.clone());
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(full));
    }));
}

fn take_panic() -> String {
    PANIC_MSG
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| "panic".into())
}

/// Run a closure of library code; a panic becomes Err(text)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = take_panic();
            if m.starts_with("ENGINE:") {
                panic!("{m}");
            }
            Err(m)
        }
    }
}

/// file name of a panic location, without line numbers (for class keys)
pub fn panic_class(m: &str) -> String {
    let (msg, loc) = match m.rfind(" @ ") {
        Some(i) => (&m[..i], &m[i + 3..]),
        None => (m, "")
    };
    let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("");
    let krate = loc
        .split("crates/")
        .nth(1)
        .and_then(|x| x.split('/').next())
        .unwrap_or("std");
    let msg: String = msg
        .chars()
        .map(|c| if c.is_ascii_digit() { '#' } else { c })
        .take(60)
        .collect();
    let mut out = String::new();
    let mut last = ' ';
    for c in msg.chars() {
        if c == '#' && last == '#' {
            continue;
        }
        out.push(c);
        last = c;
    }
    format!("panic:{krate}/{file}:{out}")
}

pub struct Exec {
    pub log:    Vec<(u32, u32)>,
    pub res:    Res,
    pub obs:    u64,
    pub states: Vec<u64>,
    pub nontriv: bool,
    pub skip:   bool,
    pub trace:  String
}

pub fn run_one(s: &Scenario, prefix: &[u32], tier: Tier, tracing: bool) -> Exec {
    let mut ch = Ch::new(prefix, tier, tracing);
    crate::alloc::take_fault();
    crate::alloc::reset_peak();
    let r = catch_unwind(AssertUnwindSafe(|| (s.f)(&mut ch)));
    let mut res = match r {
        Ok(r) => r,
        Err(_) => {
            let m = take_panic();
            if m.starts_with("ENGINE:") {
                engine_error(&format!("{} in scenario {} prefix {:?}", m, s.name, prefix));
            }
            Err(Bad { key: panic_class(&m), msg: format!("library panicked: {m}") })
        }
    };
    let f = crate::alloc::take_fault();
    if f != 0 && res.is_ok() {
        res = Err(Bad {
            key: format!("memory:{f}"),
            msg: format!(
                "heap misuse detected (1=bad pointer/underrun, 2=dealloc with wrong layout, 4=overrun): {f}"
            )
        });
    }
    if ch.log.len() < prefix.len() && res.is_ok() {
        engine_error(&format!("replay of {} shorter than its prefix {:?}", s.name, prefix));
    }
    Exec {
        obs: mix(ch.obs, res.is_ok() as u64),
        log: ch.log,
        res,
        states: ch.states,
        nontriv: ch.nontriv,
        skip: ch.skip,
        trace: ch.trace
    }
}

pub fn engine_error(m: &str) -> ! {
    eprintln!("ENGINE ERROR: {m}");
    std::process::exit(3);
}

struct Shard {
    set: Mutex<HashSet<u64>>
}
struct BigSet {
    shards: Vec<Shard>,
    full:   AtomicBool
}
const SHARD_CAP: usize = 300_000;
impl BigSet {
    fn new() -> Self {
        BigSet {
            shards: (0..64).map(|_| Shard { set: Mutex::new(HashSet::new()) }).collect(),
            full: AtomicBool::new(false)
        }
    }
    fn add(&self, v: u64) {
        let mut g = self.shards[(v >> 58) as usize].set.lock().unwrap();
        if g.len() < SHARD_CAP {
            g.insert(v);
        } else {
            self.full.store(true, Relaxed);
        }
    }
    fn len(&self) -> usize {
        self.shards.iter().map(|s| s.set.lock().unwrap().len()).sum()
    }
}

#[derive(Clone)]
pub struct Violation {
    pub scenario: &'static str,
    pub choices:  Vec<u32>,
    pub bad:      Bad
}

pub struct Report {
    pub executions:  u64,
    pub nontrivial:  u64,
    pub transitions: u64,
    pub nodes:       u64,
    pub states:      u64,
    pub distinct_obs: u64,
    pub sets_capped: bool,
    pub exhausted:   bool,
    pub per_scenario: Vec<(String, u64, bool)>,
    pub samples:     Vec<String>,
    pub violations:  Vec<Violation>,
    pub wall:        f64
}

/// shared memory slots where each worker leaves the prefix it is executing, so that the parent
/// process can name the case when the worker process dies (signal, abort) or hangs
pub struct Slots {
    base: *mut u8,
    pub n: usize
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
pub const SLOT: usize = 1 << 16;
impl Slots {
    pub fn map(path: &str, n: usize, create: bool) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(create)
            .truncate(false)
            .open(path)
            .expect("slot file");
        f.set_len((n * SLOT) as u64).unwrap();
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                n * SLOT,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0
            )
        };
        assert!(p != libc::MAP_FAILED);
        Slots { base: p.cast(), n }
    }
    pub fn set(&self, i: usize, scen: usize, prefix: &[u32]) {
        unsafe {
            let b = self.base.add(i * SLOT) as *mut u32;
            let n = prefix.len().min(SLOT / 4 - 8);
            b.write_volatile(0);
            b.add(1).write_volatile(scen as u32);
            b.add(2).write_volatile(n as u32);
            std::ptr::copy_nonoverlapping(prefix.as_ptr(), b.add(4), n);
            b.write_volatile(1);
        }
    }
    pub fn clear(&self, i: usize) {
        unsafe { (self.base.add(i * SLOT) as *mut u32).write_volatile(0) }
    }
    pub fn mark_hung(&self, i: usize) {
        unsafe { (self.base.add(i * SLOT) as *mut u32).add(3).write_volatile(1) }
    }
    pub fn get(&self, i: usize) -> Option<(usize, Vec<u32>, bool)> {
        unsafe {
            let b = self.base.add(i * SLOT) as *mut u32;
            if b.read_volatile() != 1 {
                return None;
            }
            let scen = b.add(1).read_volatile() as usize;
            let n = b.add(2).read_volatile() as usize;
            let hung = b.add(3).read_volatile() == 1;
            Some((scen, (0..n).map(|k| b.add(4 + k).read_volatile()).collect(), hung))
        }
    }
}

pub struct Cfg {
    pub tier:     Tier,
    pub workers:  usize,
    pub deadline: Duration,
    pub hang:     Duration,
    pub known:    HashSet<String>,
    /// how many different violations end the exploration
    pub stop:     usize,
    pub slots:    Slots
}

type Item = (usize, Vec<u32>);

pub fn explore(scens: &[Scenario], cfg: &Cfg) -> Report {
    let start = Instant::now();
    let global: Mutex<(Vec<Item>, usize)> = Mutex::new((
        (0..scens.len()).rev().map(|i| (i, vec![])).collect(),
        0 // idle workers
    ));
    let cv = Condvar::new();
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let pending = AtomicUsize::new(scens.len()); // items not finished
    let idle = AtomicUsize::new(0);
    let execs = AtomicU64::new(0);
    let nontrivial = AtomicU64::new(0);
    let transitions = AtomicU64::new(0);
    let nodes = AtomicU64::new(scens.len() as u64);
    let states = BigSet::new();
    let obs = BigSet::new();
    let per: Vec<AtomicU64> = scens.iter().map(|_| AtomicU64::new(0)).collect();
    let open_items: Vec<AtomicU64> = scens.iter().map(|_| AtomicU64::new(1)).collect();
    let viol: Mutex<BTreeMap<String, Violation>> = Mutex::new(BTreeMap::new());
    let samples: Mutex<Vec<(usize, Vec<u32>)>> = Mutex::new(vec![]);
    let det_left: Vec<AtomicUsize> = scens.iter().map(|_| AtomicUsize::new(24)).collect();
    let started: Vec<AtomicU64> = (0..cfg.workers).map(|_| AtomicU64::new(0)).collect();
    let unknown_found = AtomicUsize::new(0);

    std::thread::scope(|sc| {
        for w in 0..cfg.workers {
            let (global, cv, stop, capped, pending, idle) =
                (&global, &cv, &stop, &capped, &pending, &idle);
            let (execs, nontrivial, transitions, nodes, states, obs, per, open_items) =
                (&execs, &nontrivial, &transitions, &nodes, &states, &obs, &per, &open_items);
            let (viol, samples, det_left, started, unknown_found) =
                (&viol, &samples, &det_left, &started, &unknown_found);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut local: Vec<Item> = vec![];
                    loop {
                        if stop.load(Relaxed) {
                            break;
                        }
                        let item = match local.pop() {
                            Some(i) => i,
                            None => {
                                let mut g = global.lock().unwrap();
                                idle.fetch_add(1, Relaxed);
                                let it = loop {
                                    if stop.load(Relaxed) || pending.load(SeqCst) == 0 {
                                        cv.notify_all();
                                        break None;
                                    }
                                    if let Some(it) = g.0.pop() {
                                        break Some(it);
                                    }
                                    g = cv.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
                                };
                                idle.fetch_sub(1, Relaxed);
                                match it {
                                    Some(i) => i,
                                    None => break
                                }
                            }
                        };
                        let (si, prefix) = item;
                        cfg.slots.set(w, si, &prefix);
                        started[w].store(start.elapsed().as_millis() as u64 + 1, Relaxed);
                        let ex = run_one(&scens[si], &prefix, cfg.tier, false);
                        if det_left[si].load(Relaxed) > 0 {
                            det_left[si].fetch_sub(1, Relaxed);
                            let again = run_one(&scens[si], &prefix, cfg.tier, false);
                            if again.log != ex.log || again.obs != ex.obs {
                                let mut v = viol.lock().unwrap();
                                v.entry("nondeterminism".into()).or_insert(Violation {
                                    scenario: scens[si].name,
                                    choices:  ex.log.iter().map(|x| x.0).collect(),
                                    bad:      Bad {
                                        key: format!("{}:nondeterminism", scens[si].name),
                                        msg: "the same choices gave different observations in two executions".into()
                                    }
                                });
                                unknown_found.fetch_add(1, Relaxed);
                            }
                        }
                        started[w].store(0, Relaxed);
                        cfg.slots.clear(w);
                        // successors
                        let mut pushed = 0;
                        let base = prefix.len();
                        for i in (base..ex.log.len()).rev() {
                            let n = ex.log[i].1;
                            if n > 1 {
                                for alt in (1..n).rev() {
                                    let mut p: Vec<u32> = Vec::with_capacity(i + 1);
                                    p.extend(ex.log[..i].iter().map(|x| x.0));
                                    p.push(alt);
                                    local.push((si, p));
                                    pushed += 1;
                                }
                            }
                        }
                        nodes.fetch_add((ex.log.len() - base.min(ex.log.len())) as u64 + (base > 0) as u64, Relaxed);
                        pending.fetch_add(pushed, SeqCst);
                        open_items[si].fetch_add(pushed as u64, Relaxed);
                        pending.fetch_sub(1, SeqCst);
                        open_items[si].fetch_sub(1, Relaxed);
                        // donate
                        if idle.load(Relaxed) > 0 && local.len() > 8 {
                            if let Ok(mut g) = global.try_lock() {
                                let k = local.len() / 2;
                                g.0.extend(local.drain(..k));
                                cv.notify_all();
                            }
                        }
                        if !ex.skip {
                            let e = execs.fetch_add(1, Relaxed);
                            per[si].fetch_add(1, Relaxed);
                            transitions.fetch_add(ex.log.len() as u64, Relaxed);
                            if ex.nontriv {
                                nontrivial.fetch_add(1, Relaxed);
                                obs.add(mix(ex.obs, si as u64));
                            }
                            for s in &ex.states {
                                states.add(mix(*s, si as u64 + 77));
                            }
                            let k = per[si].load(Relaxed);
                            if ex.nontriv && (k == 3 || k == 1000) && e < u64::MAX {
                                samples.lock().unwrap().push((si, ex.log.iter().map(|x| x.0).collect()));
                            }
                        }
                        if let Err(b) = ex.res {
                            let choices: Vec<u32> = ex.log.iter().map(|x| x.0).collect();
                            let key = format!("{}:{}", scens[si].name, b.key);
                            let mut v = viol.lock().unwrap();
                            let nv = Violation {
                                scenario: scens[si].name,
                                choices,
                                bad: Bad { key: key.clone(), msg: b.msg }
                            };
                            match v.get(&key) {
                                Some(o)
                                    if (o.choices.len(), &o.choices)
                                        <= (nv.choices.len(), &nv.choices) => {}
                                Some(_) => {
                                    v.insert(key.clone(), nv);
                                }
                                None => {
                                    if !cfg.known.contains(&key) {
                                        unknown_found.fetch_add(1, Relaxed);
                                    }
                                    v.insert(key.clone(), nv);
                                }
                            }
                            drop(v);
                            if unknown_found.load(Relaxed) >= cfg.stop {
                                stop.store(true, Relaxed);
                                capped.store(true, Relaxed);
                            }
                        }
                        if start.elapsed() > cfg.deadline {
                            capped.store(true, Relaxed);
                            stop.store(true, Relaxed);
                        }
                    }
                })
                .unwrap();
        }
        // watchdog
        let (stop, pending, started) = (&stop, &pending, &started);
        let unknown_found = &unknown_found;
        sc.spawn(move || {
            let mut found_at: Option<Instant> = None;
            loop {
                if stop.load(Relaxed) || pending.load(SeqCst) == 0 {
                    break;
                }
                std::thread::sleep(Duration::from_millis(20));
                // once something was found, look a little further for a shorter one, then report
                if unknown_found.load(Relaxed) > 0 {
                    let t = *found_at.get_or_insert_with(Instant::now);
                    if t.elapsed() > Duration::from_secs(15) {
                        stop.store(true, Relaxed);
                    }
                }
                let now = start.elapsed().as_millis() as u64;
                for (w, s) in started.iter().enumerate() {
                    let t = s.load(Relaxed);
                    if t != 0 && now.saturating_sub(t) > cfg.hang.as_millis() as u64 {
                        cfg.slots.mark_hung(w);
                        // the parent turns this into a violation
                        std::process::exit(97);
                    }
                }
            }
        });
    });

    let exhausted = !capped.load(Relaxed) && pending.load(SeqCst) == 0;
    let samples = samples
        .into_inner()
        .unwrap()
        .into_iter()
        .take(12)
        .map(|(si, c)| {
            let ex = run_one(&scens[si], &c, cfg.tier, true);
            let mut t = ex.trace.trim().replace('\n', "; ");
            if t.len() > 600 {
                let mut k = 600;
                while !t.is_char_boundary(k) {
                    k -= 1
                }
                t.truncate(k);
            }
            format!("{} choices={:?} {}", scens[si].name, c, t)
        })
        .collect();
    let capset = states.full.load(Relaxed) || obs.full.load(Relaxed);
    Report {
        executions: execs.load(Relaxed),
        nontrivial: nontrivial.load(Relaxed),
        transitions: transitions.load(Relaxed),
        nodes: nodes.load(Relaxed),
        states: states.len() as u64,
        distinct_obs: obs.len() as u64,
        sets_capped: capset,
        exhausted,
        per_scenario: scens
            .iter()
            .enumerate()
            .map(|(i, s)| {
                (
                    s.name.to_string(),
                    per[i].load(Relaxed),
                    open_items[i].load(Relaxed) == 0
                )
            })
            .collect(),
        samples,
        violations: viol.into_inner().unwrap().into_values().collect(),
        wall: start.elapsed().as_secs_f64()
    }
}
