//! The exploration engine: enumerates cases in a fixed order, runs this worker's share of them, turns
//! oracle failures and unexpected panics into violations and keeps the coverage counters.
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Payload of an oracle failure.
pub struct Viol(pub String);
/// Payload used to report a listed kind of finding (see known_findings.json).
#[macro_export]
macro_rules! fail { ($($t:tt)*) => { std::panic::panic_any($crate::engine::Viol(format!($($t)*))) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { $crate::fail!($($t)*) } } }

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static TRACE: Cell<bool> = Cell::new(false);
}

/// Small deterministic hasher (FNV-1a with a final mix).
#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^ (x >> 32)
    }
    fn write(&mut self, b: &[u8]) {
        for &c in b {
            self.0 = (self.0 ^ c as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub fn hash_of<H: Hash + ?Sized>(h: &H) -> u64 {
    let mut s = Fnv::default();
    h.hash(&mut s);
    s.finish()
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Counters and reporting for one case.
pub struct Run {
    pub tier: Tier,
    pub evaluations: u64,
    pub transitions: u64,
    pub traces: u64,
    pub salt: u64,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    pub findings: Vec<(String, String)>,
    last_step: String,
}
impl Run {
    /// `n` comparisons of an observation of the real code with the oracle.
    pub fn eval(&mut self, n: u64) {
        self.evaluations += n;
        TICK.with(|t| {
            if let Some(t) = t.get() {
                t.fetch_add(1, Relaxed);
            }
        });
    }
    /// A distinct, non-trivial state / input (hash of its canonical form within this case).
    pub fn state(&mut self, h: u64) -> bool {
        self.states.insert(h)
    }
    /// A distinct observed outcome.
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < 1 << 16 {
            self.outcomes.insert(h);
        }
    }
    /// One operation applied to the real object and to the model.
    pub fn transition(&mut self) {
        self.transitions += 1;
    }
    /// One complete model history replayed on the implementation.
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn tracing(&self) -> bool {
        TRACE.with(|t| t.get())
    }
    /// Names the step about to be executed (only evaluated when replaying).
    pub fn step(&mut self, f: impl FnOnce() -> String) {
        if self.tracing() {
            let s = f();
            eprintln!("STEP {}", s);
            self.last_step = s;
        }
    }
    /// Reports a defect of a class that may be listed in known_findings.json.
    pub fn finding(&mut self, key: &str, what: String) {
        if !self.findings.iter().any(|(k, _)| k == key) {
            self.findings.push((key.into(), what));
        }
    }
}

thread_local! { static TICK: Cell<Option<&'static AtomicU64>> = Cell::new(None); }

#[derive(Default)]
struct SpaceStats {
    cases: u64,
    evaluations: u64,
    states: u64,
    transitions: u64,
    traces: u64,
    outcomes: u64,
}

pub struct Cx {
    pub tier: Tier,
    shard: u64,
    nshards: u64,
    only: Option<u64>,
    ord: u64,
    spaces: BTreeMap<String, SpaceStats>,
    outcomes: HashSet<u64>,
    violations: Vec<Value>,
    findings: BTreeMap<String, Value>,
    samples: BTreeMap<String, Vec<String>>,
    out: String,
    shm: Option<&'static [AtomicU64; 4]>,
    pub list: bool,
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

/// Runs `f`, which is expected to be refused by a panic. `Err` means it was refused.
pub fn refused<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            if e.is::<Viol>() {
                std::panic::resume_unwind(e)
            }
            Err(())
        }
    }
}

impl Cx {
    pub fn from_args() -> Cx {
        let mut cx = Cx {
            tier: Tier::Quick,
            shard: 0,
            nshards: 1,
            only: None,
            ord: 0,
            spaces: BTreeMap::new(),
            outcomes: HashSet::new(),
            violations: vec![],
            findings: BTreeMap::new(),
            samples: BTreeMap::new(),
            out: String::new(),
            shm: None,
            list: false,
        };
        let a: Vec<String> = std::env::args().collect();
        let mut i = 1;
        while i < a.len() {
            match a[i].as_str() {
                "--tier" => {
                    cx.tier = if a[i + 1] == "thorough" { Tier::Thorough } else { Tier::Quick };
                    i += 1
                }
                "--shard" => {
                    let (x, y) = a[i + 1].split_once('/').unwrap();
                    cx.shard = x.parse().unwrap();
                    cx.nshards = y.parse().unwrap();
                    i += 1
                }
                "--only" => {
                    cx.only = Some(a[i + 1].parse().unwrap());
                    i += 1
                }
                "--trace" => TRACE.with(|t| t.set(true)),
                "--list" => cx.list = true,
                "--out" => {
                    cx.out = a[i + 1].clone();
                    i += 1
                }
                "--prog" => {
                    cx.shm = map_progress(&a[i + 1]);
                    i += 1
                }
                x => panic!("unknown argument {}", x),
            }
            i += 1;
        }
        if let Some(s) = cx.shm {
            TICK.with(|t| t.set(Some(&s[1])));
        }
        std::panic::set_hook(Box::new(|info| {
            let s = info.to_string();
            LAST_PANIC.with(|l| *l.borrow_mut() = s);
        }));
        cx
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// quick / thorough choice of a bound
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    /// One case of the enumeration.
    pub fn case(&mut self, space: &str, desc: impl Fn() -> String, body: impl FnOnce(&mut Run)) {
        let ord = self.ord;
        self.ord += 1;
        match self.only {
            Some(o) if o != ord => return,
            None if ord % self.nshards != self.shard => return,
            _ => {}
        }
        if self.list {
            println!("{} {} {}", ord, space, desc());
            return;
        }
        if let Some(s) = self.shm {
            s[0].store(ord + 1, Relaxed);
        }
        let mut run = Run {
            tier: self.tier,
            evaluations: 0,
            transitions: 0,
            traces: 0,
            salt: ord,
            states: HashSet::new(),
            outcomes: HashSet::new(),
            findings: vec![],
            last_step: String::new(),
        };
        if run.tracing() {
            eprintln!("CASE {} {} {}", ord, space, desc());
        }
        let res = catch_unwind(AssertUnwindSafe(|| body(&mut run)));
        let mut msg = match res {
            Ok(()) => None,
            Err(e) => Some(match e.downcast::<Viol>() {
                Ok(v) => v.0,
                Err(_) => format!("unexpected panic: {}", last_panic()),
            }),
        };
        if crate::alloc::CORRUPT.swap(false, Relaxed) && msg.is_none() {
            msg = Some("memory outside of an allocation was overwritten".into());
        }
        if let Some(m) = msg {
            if self.violations.len() < 20 {
                self.violations.push(json!({"ord": ord, "space": space, "case": desc(), "message": m,
                    "last_step": run.last_step}));
            } else if self.only.is_none() {
                self.finish_now();
            }
        }
        for (k, what) in run.findings.drain(..) {
            self.findings
                .entry(k.clone())
                .or_insert_with(|| json!({"key": k, "ord": ord, "case": desc(), "message": what, "count": 0}));
            let e = self.findings.get_mut(&k).unwrap();
            e["count"] = json!(e["count"].as_u64().unwrap() + 1);
        }
        let s = self.spaces.entry(space.to_string()).or_default();
        s.cases += 1;
        s.evaluations += run.evaluations;
        s.states += run.states.len() as u64;
        s.transitions += run.transitions;
        s.traces += run.traces;
        for o in run.outcomes {
            if self.outcomes.len() < 1 << 20 && self.outcomes.insert(o) {
                s.outcomes += 1;
            }
        }
        let n = s.cases;
        let keep = self.samples.entry(space.to_string()).or_default();
        if n.is_power_of_two() && n >= 4 && keep.len() < 4 {
            keep.push(desc());
        }
    }
    fn finish_now(&mut self) -> ! {
        self.write(true);
        std::process::exit(0)
    }
    fn write(&self, truncated: bool) {
        let spaces: BTreeMap<_, _> = self
            .spaces
            .iter()
            .map(|(k, s)| {
                (
                    k.clone(),
                    json!({"cases": s.cases, "evaluations": s.evaluations, "states": s.states,
                    "transitions": s.transitions, "traces": s.traces, "outcomes": s.outcomes}),
                )
            })
            .collect();
        let v = json!({"spaces": spaces, "violations": self.violations,
            "findings": self.findings.values().collect::<Vec<_>>(),
            "samples": self.samples, "total_cases": self.ord, "truncated": truncated});
        if self.out.is_empty() {
            println!("{}", serde_json::to_string_pretty(&v).unwrap());
        } else {
            let mut f = std::fs::File::create(&self.out).unwrap();
            f.write_all(v.to_string().as_bytes()).unwrap();
        }
    }
    pub fn finish(self) {
        if !self.list {
            self.write(false);
        }
    }
}

fn map_progress(path: &str) -> Option<&'static [AtomicU64; 4]> {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).ok()?;
    f.set_len(32).ok()?;
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            32,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        if p == libc::MAP_FAILED {
            return None;
        }
        Some(&*(p as *const [AtomicU64; 4]))
    }
}
