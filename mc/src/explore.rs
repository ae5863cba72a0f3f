//! Bounded-exhaustive explorer: depth-first search over all choice sequences of a scenario.
use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::fs::File;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io::Write;
use std::panic;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- counting allocator

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static OVER: AtomicBool = AtomicBool::new(false);
pub const MEM_CAP: usize = 1 << 30;
thread_local! { static EXEMPT: Cell<bool> = const { Cell::new(false) }; }

fn grew(n: usize) {
    let live = LIVE.fetch_add(n, SeqCst) + n;
    if live > PEAK.load(SeqCst) {
        PEAK.store(live, SeqCst);
    }
    if live > MEM_CAP && !EXEMPT.try_with(|e| e.get()).unwrap_or(true) {
        OVER.store(true, SeqCst);
        loop {
            std::thread::sleep(Duration::from_millis(50));
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grew(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grew(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            grew(n - l.size());
        } else {
            LIVE.fetch_sub(l.size() - n, SeqCst);
        }
        System.realloc(p, l, n)
    }
}

/// Live heap bytes now; resets the peak to it.
pub fn mem_mark() -> usize {
    let live = LIVE.load(SeqCst);
    PEAK.store(live, SeqCst);
    live
}
pub fn mem_peak() -> usize {
    PEAK.load(SeqCst)
}

// ---------------------------------------------------------------- failures

#[derive(Debug, Clone)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Fail>;

pub fn fail<T>(key: &str, msg: impl Into<String>) -> Res<T> {
    Err(Fail { key: key.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! bail {
    ($key:expr, $($arg:tt)*) => { return Err($crate::explore::Fail { key: $key.into(), msg: format!($($arg)*) }) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($arg:tt)*) => { if !$cond { $crate::bail!($key, $($arg)*) } };
}

// ---------------------------------------------------------------- choices

type FxSet = HashSet<u64, BuildHasherDefault<IdHasher>>;
#[derive(Default)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}

#[derive(Clone, Copy)]
struct Pt {
    choice: u32,
    n: u32,
    costed: bool,
}

pub struct Inner {
    prefix: RefCell<Vec<u32>>,
    trail: RefCell<Vec<Pt>>,
    budget: Cell<u32>,
    salt: Cell<u64>,
    pub transitions: Cell<u64>,
    states: RefCell<FxSet>,
    logging: Cell<bool>,
    log: RefCell<Vec<String>>,
    cache: RefCell<Option<(u64, Rc<dyn Any>)>>,
    pub worker: Cell<usize>,
    pub thorough: Cell<bool>,
}

#[derive(Clone)]
pub struct X(pub Rc<Inner>);

const STATE_CAP: usize = 6_000_000;

impl X {
    fn new() -> X {
        X(Rc::new(Inner {
            prefix: Default::default(),
            trail: Default::default(),
            budget: Cell::new(0),
            salt: Cell::new(0),
            transitions: Cell::new(0),
            states: Default::default(),
            logging: Cell::new(false),
            log: Default::default(),
            cache: Default::default(),
            worker: Cell::new(0),
            thorough: Cell::new(false),
        }))
    }
    fn choose(&self, n: usize, costed: bool) -> usize {
        assert!(n > 0, "harness: empty choice");
        let mut trail = self.0.trail.borrow_mut();
        let i = trail.len();
        let prefix = self.0.prefix.borrow();
        let c = if i < prefix.len() { prefix[i] } else { 0 };
        assert!((c as usize) < n, "harness: nondeterministic replay (choice {} of {} at {})", c, n, i);
        if costed && c > 0 {
            self.0.budget.set(self.0.budget.get() - 1);
        }
        trail.push(Pt { choice: c, n: n as u32, costed });
        c as usize
    }
    /// Progress within a long execution, for the watchdog.
    pub fn alive(&self) {
        CURRENT.lock().unwrap().started = Some(Instant::now());
    }
    /// All n alternatives are explored.
    pub fn all(&self, n: usize) -> usize {
        if n == 1 {
            return 0;
        }
        self.choose(n, false)
    }
    /// Alternative 0 is free; any other costs one unit of the deviation budget.
    pub fn dev(&self, n: usize) -> usize {
        if n == 1 || self.0.budget.get() == 0 {
            return 0;
        }
        self.choose(n, true)
    }
    pub fn flag(&self) -> bool {
        self.all(2) == 1
    }
    pub fn pick<'a, T>(&self, v: &'a [T]) -> &'a T {
        &v[self.all(v.len())]
    }
    pub fn pick_dev<'a, T>(&self, v: &'a [T]) -> &'a T {
        &v[self.dev(v.len())]
    }
    /// All subsets of `positions` with at most `k` elements.
    pub fn subset<T: Clone>(&self, positions: &[T], k: usize) -> Vec<T> {
        let mut out = vec![];
        let mut start = 0;
        while out.len() < k && start < positions.len() {
            let c = self.all(positions.len() - start + 1);
            if c == 0 {
                break;
            }
            out.push(positions[start + c - 1].clone());
            start += c;
        }
        out
    }
    pub fn step(&self) {
        self.0.transitions.set(self.0.transitions.get() + 1);
    }
    /// One operation was performed and the model is now in abstract state `s`.
    pub fn state<H: Hash>(&self, s: H) {
        self.step();
        let mut h = DefaultHasher::new();
        self.0.salt.get().hash(&mut h);
        s.hash(&mut h);
        let mut st = self.0.states.borrow_mut();
        if st.len() < STATE_CAP {
            st.insert(h.finish());
        }
    }
    pub fn logging(&self) -> bool {
        self.0.logging.get()
    }
    pub fn log<F: FnOnce() -> String>(&self, f: F) {
        if self.0.logging.get() {
            let mut l = self.0.log.borrow_mut();
            if l.len() < 200 {
                let mut s = f();
                if s.len() > 600 {
                    let mut k = 600;
                    while !s.is_char_boundary(k) {
                        k -= 1
                    }
                    s.truncate(k);
                    s.push_str("...");
                }
                l.push(s);
            }
        }
    }
    /// Value computed once per (key); only the last is kept.
    pub fn cached<T: 'static, F: FnOnce() -> T>(&self, key: u64, f: F) -> Rc<T> {
        if let Some((k, ref v)) = *self.0.cache.borrow() {
            if k == key {
                if let Ok(t) = v.clone().downcast::<T>() {
                    return t;
                }
            }
        }
        let t = Rc::new(f());
        *self.0.cache.borrow_mut() = Some((key, t.clone()));
        t
    }
    pub fn thorough(&self) -> bool {
        self.0.thorough.get()
    }
}

// ---------------------------------------------------------------- groups

pub struct Group {
    pub name: &'static str,
    pub outers: u64,
    pub budget: u32,
    pub run: Box<dyn Fn(&X, u64) -> Res>,
}

pub fn group<F: Fn(&X, u64) -> Res + 'static>(name: &'static str, outers: u64, budget: u32, run: F) -> Group {
    Group { name, outers, budget, run: Box::new(run) }
}

/// Decode an outer index in mixed radix.
pub struct Radix(pub u64);
impl Radix {
    pub fn take(&mut self, n: usize) -> usize {
        let r = self.0 % n as u64;
        self.0 /= n as u64;
        r as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.take(v.len())]
    }
}

thread_local! { static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) }; }

struct Current {
    group: String,
    outer: u64,
    prefix: Vec<u32>,
    started: Option<Instant>,
}
static CURRENT: Mutex<Current> = Mutex::new(Current { group: String::new(), outer: 0, prefix: Vec::new(), started: None });

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Opts {
    pub prop: String,
    pub thorough: bool,
    pub out: String,
    pub shared: String,
    pub worker: usize,
    pub soft_secs: u64,
    pub hang_secs: u64,
    pub known: Vec<(String, String)>,
    pub replay: Option<(String, u64, Vec<u32>)>,
    pub only: Option<String>,
    pub keep_going: bool,
}

struct Shared {
    next: &'static AtomicU64,
    stop: &'static AtomicU64,
}

fn map_shared(path: &str) -> Shared {
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("shared file");
    f.set_len(64).ok();
    use std::os::unix::io::AsRawFd;
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 64, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        let a = p as *const AtomicU64;
        Shared { next: &*a, stop: &*a.add(1) }
    }
}

fn run_once(x: &X, g: &Group, outer: u64, prefix: &[u32], logging: bool) -> Res {
    x.0.prefix.borrow_mut().clear();
    x.0.prefix.borrow_mut().extend_from_slice(prefix);
    x.0.trail.borrow_mut().clear();
    x.0.budget.set(g.budget);
    x.0.logging.set(logging);
    x.0.log.borrow_mut().clear();
    {
        let mut c = CURRENT.lock().unwrap();
        if c.group != g.name {
            c.group = g.name.into();
        }
        c.outer = outer;
        c.prefix.clear();
        c.prefix.extend_from_slice(prefix);
        c.started = Some(Instant::now());
    }
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| (g.run)(x, outer)));
    CURRENT.lock().unwrap().started = None;
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC_MSG.with(|p| p.borrow().clone());
            fail("panic", format!("panicked: {}", m))
        }
    }
}

/// Run in a thread made for the purpose, which has no thread-local state from earlier executions.
pub fn fresh_thread(f: impl FnOnce() -> Res) -> Res {
    struct Trust<T>(T);
    // the caller waits, so nothing is ever used by two threads at once
    unsafe impl<T> Send for Trust<T> {}
    impl<T> Trust<T> {
        fn take(self) -> T {
            self.0
        }
    }
    let f = Trust(f);
    std::thread::scope(|s| {
        s.spawn(move || {
            let f = f.take();
            Trust(panic::catch_unwind(panic::AssertUnwindSafe(f)).unwrap_or_else(|_| {
                let m = PANIC_MSG.with(|p| p.borrow().clone());
                fail("panic", format!("panicked: {}", m))
            }))
        })
        .join()
        .map(|r| r.take())
        .unwrap_or_else(|_| fail("panic", "the thread is gone"))
    })
}

fn violation_json(prop: &str, known: bool, g: &str, outer: u64, choices: &[u32], f: &Fail, log: &[String]) -> String {
    let ch: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let lg: Vec<String> = log.iter().map(|c| json_str(c)).collect();
    format!(
        "{{\"type\":\"violation\",\"property\":{},\"known\":{},\"group\":{},\"outer\":{},\"choices\":[{}],\"key\":{},\"msg\":{},\"log\":[{}]}}",
        json_str(prop), known, json_str(g), outer, ch.join(","), json_str(&f.key), json_str(&f.msg), lg.join(",")
    )
}

/// If the last choice that can still be advanced exists, the next prefix in DFS order.
fn advance(x: &X) -> Option<Vec<u32>> {
    let t = x.0.trail.borrow();
    let mut i = t.len();
    while i > 0 {
        i -= 1;
        if t[i].choice + 1 < t[i].n {
            let mut p: Vec<u32> = t[..i].iter().map(|p| p.choice).collect();
            p.push(t[i].choice + 1);
            return Some(p);
        }
    }
    None
}

pub fn main_loop(opts: &Opts, groups: Vec<Group>) -> i32 {
    panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = m);
    }));
    let x = X::new();
    x.0.worker.set(opts.worker);
    x.0.thorough.set(opts.thorough);

    if let Some((ref gname, outer, ref choices)) = opts.replay {
        let g = groups.iter().find(|g| g.name == gname).expect("no such group");
        let secs = opts.hang_secs;
        std::thread::spawn(move || {
            while !CURRENT.lock().unwrap().started.map_or(false, |s| s.elapsed().as_secs() >= secs) {
                std::thread::sleep(Duration::from_millis(100));
            }
            println!("REPRODUCED hang: no result after {} s", secs);
            std::process::exit(1);
        });
        let r = run_once(&x, g, outer, choices, true);
        for l in x.0.log.borrow().iter() {
            println!("  {}", l);
        }
        return match r {
            Ok(()) => {
                println!("no violation in this execution");
                0
            }
            Err(f) => {
                println!("REPRODUCED [{}] {}", f.key, f.msg);
                1
            }
        };
    }

    let shared = map_shared(&opts.shared);
    let mut out = File::create(&opts.out).expect("out file");

    // watchdog
    {
        let (path, prop) = (opts.out.clone(), opts.prop.clone());
        let limit = Duration::from_secs(opts.hang_secs);
        let stop: &'static AtomicU64 = shared.stop;
        let known = opts.known.clone();
        std::thread::spawn(move || {
            EXEMPT.with(|e| e.set(true));
            loop {
                std::thread::sleep(Duration::from_millis(100));
                let over = OVER.load(SeqCst);
                let c = CURRENT.lock().unwrap();
                let hung = c.started.map_or(false, |s| s.elapsed() > limit);
                if over || hung {
                    let f = Fail {
                        key: if over { "memory".into() } else { "hang".into() },
                        msg: if over {
                            format!("used more than {} bytes of heap", MEM_CAP)
                        } else {
                            format!("did not finish within {} s", limit.as_secs())
                        },
                    };
                    let k = format!("{}/{}", c.group, f.key);
                    let is_known = known.iter().any(|(p, kk)| *p == prop && *kk == k);
                    let mut out = std::fs::OpenOptions::new().append(true).open(&path).unwrap();
                    let _ = writeln!(out, "{}", violation_json(&prop, is_known, &c.group, c.outer, &c.prefix, &f, &[]));
                    stop.store(1, SeqCst);
                    std::process::exit(3);
                }
            }
        });
    }

    let t0 = Instant::now();
    let soft = Duration::from_secs(opts.soft_secs);
    let mut bases = vec![];
    let mut total = 0u64;
    for g in &groups {
        bases.push(total);
        if opts.only.as_ref().map_or(true, |o| g.name.contains(&o[..])) {
            total += g.outers;
        }
    }
    let mut stats = vec![(0u64, 0u64, 0f64); groups.len()]; // executions, outers, secs
    let mut complete = true;
    let mut seen_keys: HashSet<String> = HashSet::new();
    let mut gi = 0;
    'outer: loop {
        if shared.stop.load(SeqCst) != 0 && !opts.keep_going {
            complete = false;
            break;
        }
        if t0.elapsed() > soft {
            complete = false;
            break;
        }
        let idx = shared.next.fetch_add(1, SeqCst);
        if idx >= total {
            break;
        }
        while gi + 1 < groups.len() && bases[gi + 1] <= idx {
            gi += 1;
        }
        let g = &groups[gi];
        let outer = idx - bases[gi];
        x.0.salt.set(idx);
        *x.0.cache.borrow_mut() = None;
        let g0 = Instant::now();
        let mut prefix: Vec<u32> = vec![];
        let sample = outer == 0 || outer == g.outers / 2;
        let mut last_sample: Vec<String> = vec![];
        let mut in_outer = 0u64;
        loop {
            let log_it = sample && in_outer < 3;
            let r = run_once(&x, g, outer, &prefix, log_it);
            stats[gi].0 += 1;
            in_outer += 1;
            if log_it && r.is_ok() {
                last_sample = x.0.log.borrow().clone();
            }
            let next = advance(&x);
            if let Err(f) = r {
                let choices: Vec<u32> = x.0.trail.borrow().iter().map(|p| p.choice).collect();
                let k = format!("{}/{}", g.name, f.key);
                let known = opts.known.iter().any(|(p, kk)| *p == opts.prop && *kk == k);
                if seen_keys.insert(k) {
                    // replay it once with the log on
                    let r2 = run_once(&x, g, outer, &choices, true);
                    let f2 = match r2 {
                        Err(f2) => f2,
                        Ok(()) => Fail { key: f.key.clone(), msg: format!("{} (did not recur on immediate replay)", f.msg) },
                    };
                    let _ = writeln!(out, "{}", violation_json(&opts.prop, known, g.name, outer, &choices, &f2, &x.0.log.borrow()));
                    let _ = out.flush();
                }
                if !known {
                    shared.stop.store(1, SeqCst);
                    if !opts.keep_going {
                        complete = false;
                        break 'outer;
                    } else {
                        break;
                    }
                }
            }
            match next {
                Some(p) => prefix = p,
                None => break,
            }
            if stats[gi].0 % 256 == 0 && (t0.elapsed() > soft || (shared.stop.load(SeqCst) != 0 && !opts.keep_going)) {
                complete = false;
                break 'outer;
            }
        }
        stats[gi].1 += 1;
        stats[gi].2 += g0.elapsed().as_secs_f64();
        if sample {
            let ls: Vec<String> = last_sample.iter().take(25).map(|s| json_str(s)).collect();
            let _ = writeln!(out, "{{\"type\":\"sample\",\"group\":{},\"outer\":{},\"trace\":[{}]}}", json_str(g.name), outer, ls.join(","));
        }
    }
    for (i, g) in groups.iter().enumerate() {
        if stats[i].0 > 0 {
            let _ = writeln!(
                out,
                "{{\"type\":\"group\",\"group\":{},\"executions\":{},\"scenarios\":{},\"secs\":{:.3},\"planned\":{},\"budget\":{}}}",
                json_str(g.name), stats[i].0, stats[i].1, stats[i].2, g.outers, g.budget
            );
        }
    }
    let _ = writeln!(
        out,
        "{{\"type\":\"summary\",\"complete\":{},\"transitions\":{},\"states\":{},\"total_scenarios\":{}}}",
        complete, x.0.transitions.get(), x.0.states.borrow().len(), total
    );
    0
}
