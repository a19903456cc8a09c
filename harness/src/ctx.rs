//! Exploration bookkeeping: cases, states, transitions, violations, evidence.
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

const SHARDS: usize = 64;
const MAX_VIOLATIONS: usize = 8;

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub small: bool,
    pub only: Option<String>,
    start: Instant,
    deadline: Instant,
    capped: AtomicBool,
    states: Vec<Mutex<HashSet<u64>>>,
    /// states that are distinct by construction and not worth remembering
    counted: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    outcomes: Mutex<BTreeMap<String, u64>>,
    parts: Mutex<BTreeMap<String, u64>>,
    extra: Mutex<BTreeMap<String, String>>,
    samples: Mutex<Vec<String>>,
    harness: Mutex<Vec<String>>,
    violations: Mutex<Vec<(String, String)>>,
    nviol: AtomicUsize,
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, small: bool, only: Option<String>) -> Ctx {
        let start = Instant::now();
        let cap = match tier {
            Tier::Quick => 240,
            Tier::Thorough => 3000,
        };
        Ctx {
            id: id.to_string(),
            tier,
            small,
            only,
            start,
            deadline: start + Duration::from_secs(cap),
            capped: AtomicBool::new(false),
            states: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
            counted: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            outcomes: Mutex::new(BTreeMap::new()),
            parts: Mutex::new(BTreeMap::new()),
            extra: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            harness: Default::default(),
            violations: Mutex::new(vec![]),
            nviol: AtomicUsize::new(0),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// Value by tier
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }

    pub fn stop(&self) -> bool {
        if self.nviol.load(Relaxed) >= MAX_VIOLATIONS {
            return true;
        }
        if Instant::now() > self.deadline {
            self.capped.store(true, Relaxed);
            return true;
        }
        false
    }

    pub fn state(&self, h: u64) {
        self.states[(h >> 58) as usize % SHARDS].lock().unwrap().insert(h);
    }

    /// `n` states that are distinct by construction
    pub fn distinct(&self, n: u64) {
        self.counted.fetch_add(n, Relaxed);
    }

    pub fn steps(&self, n: usize) {
        self.transitions.fetch_add(n as u64, Relaxed);
    }

    pub fn outcome(&self, s: &str) {
        let mut m = self.outcomes.lock().unwrap();
        match m.get_mut(s) {
            Some(c) => *c += 1,
            None => {
                m.insert(s.to_string(), 1);
            }
        }
    }

    pub fn part(&self, s: &str, n: u64) {
        *self.parts.lock().unwrap().entry(s.to_string()).or_insert(0) += n;
    }

    pub fn note(&self, k: &str, v: impl ToString) {
        self.extra.lock().unwrap().insert(k.to_string(), v.to_string());
    }

    pub fn sample(&self, f: impl FnOnce() -> String) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 6 {
            let mut t = f();
            if t.len() > 1500 {
                let mut n = 1500;
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                t.truncate(n);
                t.push_str("...");
            }
            s.push(t);
        }
    }

    pub fn violation(&self, key: String, msg: String) {
        if msg.contains("harness: ") {
            // the machinery could not do what it wanted to: says nothing about the property
            let mut h = self.harness.lock().unwrap();
            if h.len() < MAX_VIOLATIONS {
                h.push(format!("{key}: {msg}"));
            }
            return;
        }
        let n = self.nviol.fetch_add(1, Relaxed);
        if n < MAX_VIOLATIONS {
            self.violations.lock().unwrap().push((key, msg));
        }
    }

    /// Runs one case. `key` identifies it for replay; the closure returns Err(description) when the
    /// property is broken. A panic inside is a violation as well (harness code does not panic on
    /// conforming implementations).
    pub fn case(&self, key: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        if let Some(o) = &self.only {
            if *o != key() {
                return;
            }
        }
        self.traces.fetch_add(1, Relaxed);
        let name = key();
        // every other case, by its name, with logging in use
        crate::noise::set(H::new().s(&name).get() >> 20 & 1 == 1);
        let running = Running::enter(name);
        let r = catch_unwind(AssertUnwindSafe(f));
        crate::noise::set(false);
        drop(running);
        match r {
            Ok(Ok(())) => {
                if self.only.is_some() {
                    println!("REPLAY ok {}", key());
                }
            }
            Ok(Err(m)) => self.violation(key(), m),
            Err(p) => self.violation(key(), format!("panic: {}", panic_text(&*p))),
        }
    }

    /// Parallel loop over 0..n; stops early on too many violations.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
        let threads = threads.min(n.max(1));
        let block = (n / (threads * 64)).clamp(1, 4096);
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| loop {
                    let i = next.fetch_add(block, Relaxed);
                    if i >= n || self.stop() {
                        break;
                    }
                    for j in i..(i + block).min(n) {
                        f(j);
                    }
                });
            }
        });
    }

    pub fn finish(self, out: &str) -> i32 {
        let states: usize = self.states.iter().map(|s| s.lock().unwrap().len()).sum();
        let v = self.violations.into_inner().unwrap();
        let mut json = String::new();
        json.push_str("{\n");
        json.push_str(&format!(" \"states\": {},\n", states as u64 + self.counted.load(Relaxed)));
        json.push_str(&format!(" \"transitions\": {},\n", self.transitions.load(Relaxed)));
        json.push_str(&format!(" \"traces\": {},\n", self.traces.load(Relaxed)));
        json.push_str(&format!(" \"capped\": {},\n", self.capped.load(Relaxed)));
        json.push_str(&format!(" \"longest_case_ms\": {},\n", LONGEST.load(Relaxed)));
        json.push_str(&format!(" \"wall_s\": {:.2},\n", self.start.elapsed().as_secs_f64()));
        let kv = |m: &BTreeMap<String, u64>| {
            m.iter().map(|(k, v)| format!("{}: {}", q(k), v)).collect::<Vec<_>>().join(", ")
        };
        json.push_str(&format!(" \"outcomes\": {{{}}},\n", kv(&self.outcomes.into_inner().unwrap())));
        json.push_str(&format!(" \"parts\": {{{}}},\n", kv(&self.parts.into_inner().unwrap())));
        json.push_str(&format!(
            " \"extra\": {{{}}},\n",
            self.extra
                .into_inner()
                .unwrap()
                .iter()
                .map(|(k, v)| format!("{}: {}", q(k), q(v)))
                .collect::<Vec<_>>()
                .join(", ")
        ));
        json.push_str(&format!(
            " \"samples\": [{}],\n",
            self.samples.into_inner().unwrap().iter().map(|s| q(s)).collect::<Vec<_>>().join(", ")
        ));
        let h = self.harness.into_inner().unwrap();
        json.push_str(&format!(" \"harness\": [{}],\n", h.iter().map(|s| q(s)).collect::<Vec<_>>().join(", ")));
        json.push_str(&format!(
            " \"violations\": [{}]\n}}\n",
            v.iter()
                .map(|(k, m)| format!("{{\"key\": {}, \"message\": {}}}", q(k), q(m)))
                .collect::<Vec<_>>()
                .join(",\n  ")
        ));
        let mut f = std::fs::File::create(out).expect("result file");
        f.write_all(json.as_bytes()).expect("result file");
        if v.is_empty() {
            0
        } else {
            1
        }
    }
}

// ---- the cases being executed, for the watchdog and for crashes of the code under test ----

const SLOTS: usize = 128;
/// slot taken
static TAKEN: [AtomicBool; SLOTS] = [const { AtomicBool::new(false) }; SLOTS];
static KEYS: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];
static LENS: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];
static SINCE: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];

/// duration of the longest case
static LONGEST: AtomicU64 = AtomicU64::new(0);

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

struct Running(usize, #[allow(dead_code)] String);

impl Running {
    fn enter(key: String) -> Running {
        thread_local!(static HINT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
        let start = HINT.with(|h| h.get());
        for i in 0..SLOTS {
            let n = (start + i) % SLOTS;
            if !TAKEN[n].swap(true, Relaxed) {
                HINT.with(|h| h.set(n));
                KEYS[n].store(key.as_ptr() as usize, Relaxed);
                LENS[n].store(key.len(), Relaxed);
                SINCE[n].store(now_ms(), std::sync::atomic::Ordering::SeqCst);
                return Running(n, key);
            }
        }
        Running(SLOTS, key)
    }
}

impl Drop for Running {
    fn drop(&mut self) {
        if self.0 < SLOTS {
            let t = now_ms() - SINCE[self.0].load(Relaxed);
            LONGEST.fetch_max(t, Relaxed);
            SINCE[self.0].store(0, std::sync::atomic::Ordering::SeqCst);
            TAKEN[self.0].store(false, std::sync::atomic::Ordering::SeqCst);
        }
    }
}

/// Writes the keys of the running cases (all, or those older than `older` ms); async-signal safe.
fn dump_running(fd: i32, older: u64, now: u64) -> usize {
    let mut n = 0;
    for i in 0..SLOTS {
        let t = SINCE[i].load(std::sync::atomic::Ordering::SeqCst);
        if t == 0 || (older > 0 && now < t + older) {
            continue;
        }
        n += 1;
        unsafe {
            libc::write(fd, b"RUNNING ".as_ptr() as *const libc::c_void, 8);
            libc::write(fd, KEYS[i].load(Relaxed) as *const libc::c_void, LENS[i].load(Relaxed));
            libc::write(fd, b"\n".as_ptr() as *const libc::c_void, 1);
        }
    }
    n
}

extern "C" fn on_crash(sig: i32) {
    dump_running(1, 0, 0);
    unsafe {
        libc::signal(sig, libc::SIG_DFL);
        libc::raise(sig);
    }
}

/// A case that runs this long does not terminate: the longest ones take a few seconds.
const STUCK_MS: u64 = 120_000;

/// Exit code of a process in which a case did not terminate
pub const STUCK: i32 = 3;

/// Names the running cases when the code under test takes the whole process down or never returns.
pub fn watch(stuck_ms: Option<u64>) {
    now_ms();
    unsafe {
        for s in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_crash as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK | libc::SA_RESETHAND;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
        // running out of address space ends in an abort of the allocating case, not of the machine
        let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    let stuck_ms = stuck_ms.unwrap_or(STUCK_MS);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if dump_running(1, stuck_ms, now_ms()) > 0 {
            unsafe { libc::_exit(STUCK) }
        }
    });
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "(no text)".to_string()
    }
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// FNV-1a, for state fingerprints
#[derive(Clone)]
pub struct H(pub u64);
impl H {
    pub fn new() -> H {
        H(0xcbf29ce484222325)
    }
    pub fn b(&mut self, bs: &[u8]) -> &mut H {
        for b in bs {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
        self
    }
    pub fn u(&mut self, v: u64) -> &mut H {
        self.b(&v.to_le_bytes())
    }
    pub fn s(&mut self, s: &str) -> &mut H {
        self.b(s.as_bytes()).b(&[0xff])
    }
    pub fn get(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^= x >> 33;
        x
    }
}
