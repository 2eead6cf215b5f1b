//! The explorer: exhaustive depth-first enumeration of the choices of a driver.
//!
//! A *unit* is a driver function that makes all of its decisions (term parameters, input bytes, chunk
//! sizes, environment answers, task to run next, ...) by calling `Ch::pick`.  The explorer runs the
//! driver once per leaf of the decision tree, on the real code, from the initial state, by replaying a
//! prefix of choices and taking alternative 0 afterwards.  If a replayed prefix offers a different number
//! of alternatives than it did before, the driver does not own all nondeterminism: that is a hard error.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- hashing
#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(u64::from(x) + 1);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(u64::from(x));
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(u64::from(x));
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64);
    }
    fn finish(&self) -> u64 {
        let x = self.0;
        (x ^ (x >> 29)).wrapping_mul(0x9e37_79b9_7f4a_7c15)
    }
}
pub type FxSet = HashSet<u64, BuildHasherDefault<Fx>>;
pub fn fx<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- allocation tracking
pub struct Tracking;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static MAXREQ: Cell<usize> = const { Cell::new(0) };
    static LIMIT: Cell<isize> = const { Cell::new(isize::MAX) };
}
#[inline]
fn note(sz: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get().saturating_add(sz as isize);
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = MAXREQ.try_with(|p| {
            if sz > p.get() {
                p.set(sz)
            }
        });
        let over = LIMIT.try_with(|m| v > m.get() || sz as isize > m.get() || (sz as isize) < 0);
        if let Ok(true) = over {
            let _ = LIMIT.try_with(|m| m.set(isize::MAX));
            fatal_violation(&format!("memory exhaustion: allocation of {sz} bytes, {v} bytes live in this case"));
        }
    });
}
unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as isize));
        note(n);
        System.realloc(p, l, n)
    }
}
/// Runs bookkeeping of the harness, whose allocations do not count.
#[inline]
fn uncounted<T>(f: impl FnOnce() -> T) -> T {
    let (l, p, m) = (LIVE.with(|x| x.get()), PEAK.with(|x| x.get()), MAXREQ.with(|x| x.get()));
    let r = f();
    LIVE.with(|x| x.set(l));
    PEAK.with(|x| x.set(p));
    MAXREQ.with(|x| x.set(m));
    r
}
/// Starts measuring allocations of this thread; returns the base line.
pub fn alloc_mark() -> isize {
    let l = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(l));
    MAXREQ.with(|p| p.set(0));
    l
}
/// (peak growth since the mark, largest single request since the mark)
pub fn alloc_since(mark: isize) -> (usize, usize) {
    (PEAK.with(|p| (p.get() - mark).max(0) as usize), MAXREQ.with(|p| p.get()))
}

// ---------------------------------------------------------------- choices
pub type Case = Result<(), String>;

pub struct Ch {
    prefix: Vec<(u32, u32)>,
    taken: Vec<(u32, u32)>,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub states: FxSet,
    pub outcomes: FxSet,
    pub transitions: u64,
    pub validated: u64,
    pub skipped: bool,
    salt: u64,
}
impl Ch {
    fn new() -> Self {
        Ch {
            prefix: vec![],
            taken: vec![],
            tracing: false,
            trace: vec![],
            states: FxSet::default(),
            outcomes: FxSet::default(),
            transitions: 0,
            validated: 0,
            skipped: false,
            salt: 0,
        }
    }
    /// Chooses one of `n` alternatives.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0);
        let i = self.taken.len();
        let c = if i < self.prefix.len() {
            let (c, m) = self.prefix[i];
            if m as usize != n {
                panic!("the code behaves differently in identical executions: choice {i} had {m} alternatives, now {n}");
            }
            c
        } else {
            0
        };
        uncounted(|| self.taken.push((c, n as u32)));
        c as usize
    }
    pub fn pick_bool(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.pick(xs.len())]
    }
    /// One call of the code under test.
    #[inline]
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    /// A state of the explored system was reached (observable configuration).
    #[inline]
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        let h = fx(&(self.salt, fx(t)));
        uncounted(|| self.states.insert(h));
    }
    #[inline]
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        let h = fx(t);
        uncounted(|| self.outcomes.insert(h));
    }
    /// A complete execution of the implementation was compared with the reference.
    pub fn valid(&mut self) {
        self.validated += 1;
    }
    pub fn salt<T: Hash + ?Sized>(&mut self, t: &T) {
        self.salt = fx(t);
    }
    #[inline]
    pub fn log<F: FnOnce() -> String>(&mut self, f: F) {
        if self.tracing {
            uncounted(|| {
                let s = f();
                self.trace.push(s);
            });
        }
    }
    pub fn skip(&mut self) -> Case {
        self.skipped = true;
        Ok(())
    }
}

pub struct Unit {
    pub label: String,
    pub f: Box<dyn Fn(&mut Ch) -> Case + Send + Sync>,
}
pub fn unit<F: Fn(&mut Ch) -> Case + Send + Sync + 'static>(label: impl Into<String>, f: F) -> Unit {
    Unit { label: label.into(), f: Box::new(f) }
}

// ---------------------------------------------------------------- running
#[derive(Clone, Debug)]
pub struct Violation {
    pub unit: String,
    pub choices: Vec<u32>,
    pub msg: String,
    pub trace: Vec<String>,
}
#[derive(Default)]
pub struct Stats {
    pub executions: u64,
    pub skipped: u64,
    pub transitions: u64,
    pub states: u64,
    pub outcomes: FxSet,
    pub validated: u64,
    pub units: u64,
    pub units_total: u64,
    pub max_depth: usize,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub capped: bool,
}

static FATAL: AtomicBool = AtomicBool::new(false);
thread_local! {
    static CURRENT: Cell<(*const Unit, *const Ch)> = const { Cell::new((std::ptr::null(), std::ptr::null())) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if at.contains("verif/mc/") || at.starts_with("src/") && !std::path::Path::new("/dev/null/x").exists() && std::env::var_os("MC_PANICS").is_some() {
            eprintln!("panic: {m} at {at}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {at}"));
    }));
}

pub fn engine_error(m: &str) -> ! {
    eprintln!("ENGINE-ERROR: {m}");
    std::process::exit(2);
}

/// Reports a violation that cannot be unwound (memory exhaustion, hang) and ends the process.
pub fn fatal_violation(msg: &str) -> ! {
    if FATAL.swap(true, SeqCst) {
        loop {
            std::thread::sleep(Duration::from_secs(1));
        }
    }
    let (u, c) = CURRENT.with(|c| c.get());
    let v = if u.is_null() {
        Violation { unit: "?".into(), choices: vec![], msg: msg.into(), trace: vec![] }
    } else {
        let (u, c) = unsafe { (&*u, &*c) };
        Violation {
            unit: u.label.clone(),
            choices: c.taken.iter().map(|x| x.0).collect(),
            msg: msg.into(),
            trace: c.trace.clone(),
        }
    };
    crate::report::fatal(v)
}

// ---------------------------------------------------------------- crashes
// A stack overflow (or a panic during unwinding) ends in SIGABRT.  The handler leaves word of what the thread was
// executing and stays there; another thread reports it.
static CRASHED: (AtomicUsize, AtomicUsize) = (AtomicUsize::new(0), AtomicUsize::new(0));
extern "C" fn on_abort(_: i32) {
    let (u, c) = CURRENT.try_with(|c| c.get()).unwrap_or((std::ptr::null(), std::ptr::null()));
    if !u.is_null() && CRASHED.1.compare_exchange(0, c as usize, SeqCst, SeqCst).is_ok() {
        CRASHED.0.store(u as usize, SeqCst);
    } else if u.is_null() {
        // Not in the code under test.
        unsafe { _exit(134) }
    }
    loop {
        unsafe { sleep(1) };
    }
}
extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn sleep(s: u32) -> u32;
    fn _exit(code: i32) -> !;
}
pub fn catch_crashes() {
    unsafe { signal(6, on_abort as extern "C" fn(i32) as usize) };
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(20));
        let u = CRASHED.0.load(SeqCst);
        if u != 0 && !FATAL.swap(true, SeqCst) {
            let (u, c) = unsafe { (&*(u as *const Unit), &*(CRASHED.1.load(SeqCst) as *const Ch)) };
            crate::report::fatal(Violation {
                unit: u.label.clone(),
                choices: c.taken.iter().map(|x| x.0).collect(),
                msg: "the process was aborted: stack overflow, or a panic during a panic".into(),
                trace: c.trace.clone(),
            });
        }
    });
}

fn run_once(u: &Unit, ch: &mut Ch) -> Case {
    CURRENT.with(|c| c.set((u as *const _, ch as *const _)));
    LIVE.with(|l| l.set(0));
    LIMIT.with(|m| m.set(1 << 30));
    let r = catch_unwind(AssertUnwindSafe(|| (u.f)(ch)));
    LIMIT.with(|m| m.set(isize::MAX));
    CURRENT.with(|c| c.set((std::ptr::null(), std::ptr::null())));
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            if m.starts_with("HARNESS") {
                engine_error(&m);
            }
            Err(format!("panic: {m}"))
        }
    }
}

/// Replays one execution with tracing.
pub fn replay(u: &Unit, choices: &[u32]) -> (Case, Vec<String>) {
    let mut ch = Ch::new();
    ch.tracing = true;
    // alternatives are unknown here: learn them by letting pick() accept anything
    ch.prefix = vec![];
    let mut forced = Forced { ch, choices: choices.to_vec() };
    let r = forced.run(u);
    (r, forced.ch.trace)
}
struct Forced {
    ch: Ch,
    choices: Vec<u32>,
}
impl Forced {
    fn run(&mut self, u: &Unit) -> Case {
        // Discover the number of alternatives position by position.
        let mut known: Vec<(u32, u32)> = vec![];
        loop {
            let mut ch = Ch::new();
            ch.tracing = true;
            ch.prefix = known.clone();
            let r = run_once(u, &mut ch);
            let mut i = known.len();
            let mut changed = false;
            while i < ch.taken.len() && i < self.choices.len() {
                let (c, n) = ch.taken[i];
                let want = self.choices[i];
                if want >= n {
                    self.ch = ch;
                    return Err(format!("replay diverged: choice {i}={want} out of {n} alternatives"));
                }
                known.push((want, n));
                if want != c {
                    changed = true;
                    break;
                }
                i += 1;
            }
            if !changed {
                self.ch = ch;
                return r;
            }
        }
    }
}

pub struct Opts {
    pub threads: usize,
    pub deadline: Option<Instant>,
    pub case_timeout: Duration,
    pub max_violations: usize,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
            deadline: None,
            case_timeout: Duration::from_secs(60),
            max_violations: 3,
        }
    }
}

pub fn explore(units: &[Unit], o: &Opts) -> Stats {
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let total = Mutex::new(Stats { units_total: units.len() as u64, ..Default::default() });
    let heart: Vec<AtomicUsize> = (0..o.threads).map(|_| AtomicUsize::new(0)).collect();
    let cur: Vec<Mutex<(String, Vec<u32>)>> = (0..o.threads).map(|_| Mutex::new((String::new(), vec![]))).collect();
    let stride = (units.len() / 6).max(1);
    std::thread::scope(|s| {
        // watchdog
        let (heart, cur, done) = (&heart, &cur, &done);
        let timeout = o.case_timeout;
        s.spawn(move || {
            let mut last: Vec<(usize, Instant)> = heart.iter().map(|h| (h.load(SeqCst), Instant::now())).collect();
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                for (i, h) in heart.iter().enumerate() {
                    let v = h.load(SeqCst);
                    if v != last[i].0 || v == 0 {
                        last[i] = (v, Instant::now());
                    } else if v != usize::MAX && last[i].1.elapsed() > timeout {
                        // The worker never returns: report what it was executing.
                        let (unit, choices) = cur[i].lock().unwrap().clone();
                        if FATAL.swap(true, SeqCst) {
                            continue;
                        }
                        crate::report::fatal(Violation {
                            unit,
                            choices,
                            msg: format!("a call did not return within {timeout:?} (endless loop)"),
                            trace: vec![],
                        });
                    }
                }
            }
        });
        let mut hs = vec![];
        for t in 0..o.threads {
            let (next, stop, total) = (&next, &stop, &total);
            hs.push(std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, move || {
                let mut beat = 1usize;
                loop {
                    if stop.load(SeqCst) {
                        break;
                    }
                    let i = next.fetch_add(1, SeqCst);
                    if i >= units.len() {
                        break;
                    }
                    if let Some(d) = o.deadline {
                        if Instant::now() > d {
                            total.lock().unwrap().capped = true;
                            break;
                        }
                    }
                    let u = &units[i];
                    cur[t].lock().unwrap().0 = u.label.clone();
                    let t0 = Instant::now();
                    let mut ch = Ch::new();
                    ch.salt(&u.label);
                    let base_salt = ch.salt;
                    let (mut execs, mut skipped, mut maxd) = (0u64, 0u64, 0usize);
                    let mut viol: Option<Violation> = None;
                    let mut capped = false;
                    loop {
                        ch.taken.clear();
                        ch.skipped = false;
                        ch.salt = base_salt;
                        {
                            let mut c = cur[t].lock().unwrap();
                            c.1.clear();
                            c.1.extend(ch.prefix.iter().map(|x| x.0));
                        }
                        beat += 1;
                        heart[t].store(beat, SeqCst);
                        let r = run_once(u, &mut ch);
                        execs += 1;
                        if ch.skipped {
                            skipped += 1;
                        }
                        maxd = maxd.max(ch.taken.len());
                        let r = match r {
                            Ok(()) if ch.taken.len() < ch.prefix.len() => Err("the code behaves differently in identical executions".into()),
                            r => r,
                        };
                        if let Err(m) = r {
                            let choices: Vec<u32> = ch.taken.iter().map(|x| x.0).collect();
                            // Confirm: the same choices must fail in the same way, twice.
                            let (r1, tr) = replay(u, &choices);
                            let (r2, _) = replay(u, &choices);
                            let mut m = m;
                            if r1 != Err(m.clone()) || r2 != Err(m.clone()) {
                                m += &format!(" (the same calls on fresh objects behave differently: {r1:?} / {r2:?})");
                            }
                            viol = Some(Violation { unit: u.label.clone(), choices, msg: m, trace: tr });
                            break;
                        }
                        if execs & 0xfff == 0 {
                            if let Some(d) = o.deadline {
                                if Instant::now() > d {
                                    capped = true;
                                    break;
                                }
                            }
                            if stop.load(SeqCst) {
                                break;
                            }
                        }
                        // Next leaf of the decision tree.
                        let mut k = ch.taken.len();
                        while k > 0 && ch.taken[k - 1].0 + 1 >= ch.taken[k - 1].1 {
                            k -= 1;
                        }
                        if k == 0 {
                            break;
                        }
                        ch.prefix.clear();
                        ch.prefix.extend_from_slice(&ch.taken[..k]);
                        ch.prefix[k - 1].0 += 1;
                    }
                    let mut sample = None;
                    if i % stride == 0 && viol.is_none() {
                        let choices: Vec<u32> = ch.taken.iter().map(|x| x.0).collect();
                        heart[t].store(usize::MAX, SeqCst);
                        let (_, tr) = replay(u, &choices);
                        sample = Some(format!("{} choices={:?}: {}", u.label, choices, tr.join("; ")));
                    }
                    heart[t].store(usize::MAX, SeqCst);
                    if std::env::var_os("MC_PROFILE").is_some() {
                        eprintln!("PROFILE {} ms {execs} executions {}", t0.elapsed().as_millis(), u.label);
                    }
                    let mut g = total.lock().unwrap();
                    g.executions += execs;
                    g.skipped += skipped;
                    g.transitions += ch.transitions;
                    g.validated += ch.validated;
                    g.states += ch.states.len() as u64;
                    g.outcomes.extend(ch.outcomes.iter());
                    g.units += 1;
                    g.max_depth = g.max_depth.max(maxd);
                    g.capped |= capped;
                    if let Some(mut s) = sample {
                        if s.len() > 1500 {
                            let mut k = 1500;
                            while !s.is_char_boundary(k) {
                                k -= 1;
                            }
                            s.truncate(k);
                        }
                        if g.samples.len() < 8 {
                            g.samples.push(s);
                        }
                    }
                    if let Some(v) = viol {
                        g.violations.push(v);
                        if g.violations.len() >= o.max_violations {
                            stop.store(true, SeqCst);
                        }
                    }
                }
                heart[t].store(usize::MAX, SeqCst);
            }).unwrap());
        }
        for h in hs {
            let _ = h.join();
        }
        done.store(true, SeqCst);
    });
    let mut g = total.into_inner().unwrap();
    g.violations.sort_by_key(|v| (v.choices.len(), v.unit.len(), v.unit.clone()));
    g
}
