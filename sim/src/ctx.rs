//! One simulated run: the choice source, the event log, counters and violations.
use crate::prng::{hash_str, mix, Prng};
use crate::sys;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Shared memory between a run (child process) and its supervisor: survives the child's death.
#[repr(C)]
pub struct Shm {
    pub in_sut: u64,
    pub len: u64,
    pub data: [u64; SHM_WORDS],
}
pub const SHM_WORDS: usize = 1 << 18;
pub const STEP_MARK: u64 = u64::MAX;

/// Every decision of a run is drawn here: generated from the seed, or read back from a recording.
pub struct Src {
    rng: Option<Prng>,
    pub steps: Vec<Vec<u64>>,
    cur: usize,
    pos: usize,
    budget: usize,
    started: bool,
    shm: *mut Shm,
}

impl Src {
    pub fn generate(seed: u64, shm: *mut Shm) -> Self {
        Src { rng: Some(Prng::new(seed)), steps: vec![], cur: 0, pos: 0, budget: 1, started: false, shm }
    }
    pub fn replay(steps: Vec<Vec<u64>>, shm: *mut Shm) -> Self {
        Src { rng: None, steps, cur: 0, pos: 0, budget: usize::MAX, started: false, shm }
    }
    fn rec(&mut self, v: u64) {
        unsafe {
            if let Some(s) = self.shm.as_mut() {
                if (s.len as usize) < SHM_WORDS {
                    s.data[s.len as usize] = v;
                    s.len += 1;
                }
            }
        }
    }
    /// Begins the next step; false when the run is over.
    pub fn step(&mut self) -> bool {
        if self.started {
            self.cur += 1;
        }
        self.started = true;
        self.pos = 0;
        if self.rng.is_some() {
            if self.cur >= self.budget {
                return false;
            }
            self.steps.push(vec![]);
            self.rec(STEP_MARK);
            true
        } else {
            self.cur < self.steps.len()
        }
    }
    pub fn set_budget(&mut self, n: usize) {
        self.budget = n;
    }
    pub fn index(&self) -> usize {
        self.cur
    }
    /// A number below n.
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        if let Some(r) = &mut self.rng {
            let v = r.below(n);
            self.steps[self.cur].push(v);
            self.rec(v);
            v
        } else {
            let v = self.steps.get(self.cur).and_then(|s| s.get(self.pos)).copied().unwrap_or(0);
            self.pos += 1;
            if v < n {
                v
            } else {
                v % n
            }
        }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// True with probability num/den; false is the simpler choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num.min(den)
    }
    /// Index by weight (zero weights never chosen unless all zero).
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.draw(t);
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        0
    }
    /// Chooses a kind of step by weight; `forced` overrides the choice when a run is generated.
    pub fn kind(&mut self, w: &[u32], forced: Option<usize>) -> usize {
        if self.rng.is_some() {
            let k = match forced {
                Some(k) => k,
                None => {
                    let t: u64 = w.iter().map(|x| *x as u64).sum();
                    let mut v = self.rng.as_mut().unwrap().below(t);
                    let mut k = 0;
                    for (i, x) in w.iter().enumerate() {
                        if v < *x as u64 {
                            k = i;
                            break;
                        }
                        v -= *x as u64;
                    }
                    k
                }
            };
            self.steps[self.cur].push(k as u64);
            self.rec(k as u64);
            k
        } else {
            self.draw(u64::MAX) as usize % w.len()
        }
    }
    pub fn last(&self) -> bool {
        self.rng.is_some() && self.cur + 1 >= self.budget
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.idx(v.len());
        &v[i]
    }
    pub fn seed(&mut self) -> u64 {
        self.draw(1 << 32)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub tags: Vec<String>,
    pub class: String,
    pub msg: String,
    pub step: usize,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub stats: BTreeMap<String, u64>,
    pub sigs: BTreeSet<u64>,
    pub steps: Vec<Vec<u64>>,
    pub trace: Vec<String>,
    pub trace_hash: u64,
    pub sim_ns: u64,
    pub harness_error: Option<String>,
}

pub struct Ctx {
    pub src: Src,
    pub focus: String,
    pub thorough: bool,
    pub out: Outcome,
    keep_trace: bool,
    shm: *mut Shm,
    /// Tags meant for a crash in the call that is under way.
    pub stop: bool,
}

pub const PROPS: [&str; 21] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21",
];
pub fn mask(tags: &[&str]) -> u64 {
    tags.iter().map(|t| 1u64 << PROPS.iter().position(|p| p == t).unwrap()).sum()
}
pub fn unmask(m: u64) -> Vec<String> {
    PROPS.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, p)| p.to_string()).collect()
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = Default::default();
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

impl Ctx {
    pub fn new(src: Src, focus: &str, thorough: bool, keep_trace: bool, shm: *mut Shm) -> Self {
        Ctx { src, focus: focus.into(), thorough, out: Outcome::default(), keep_trace, shm, stop: false }
    }
    pub fn stat(&mut self, k: &str) {
        *self.out.stats.entry(k.into()).or_insert(0) += 1;
    }
    pub fn stat_n(&mut self, k: &str, n: u64) {
        *self.out.stats.entry(k.into()).or_insert(0) += n;
    }
    pub fn log(&mut self, s: String) {
        let s = format!("[{}] {}", self.src.index(), s);
        self.out.trace_hash = mix(self.out.trace_hash.rotate_left(5) ^ hash_str(&s));
        if self.keep_trace {
            self.out.trace.push(s);
        }
    }
    pub fn sig(&mut self, parts: &[&str]) {
        let h = hash_str(&parts.join("|"));
        self.out.sigs.insert(h);
    }
    pub fn violate(&mut self, tags: &[&str], class: &str, msg: String) {
        self.log(format!("VIOLATION {tags:?} {class}: {msg}"));
        let mut t: Vec<String> = tags.iter().map(|s| s.to_string()).collect();
        t.sort();
        t.dedup();
        if t.contains(&self.focus) {
            self.stop = true;
        }
        self.out.violations.push(Violation { tags: t, class: class.into(), msg, step: self.src.index() });
    }
    /// Marks that a crash of the process from here on is one of the code under test.
    pub fn enter_sut(&mut self, tags: &[&str]) {
        unsafe {
            if let Some(s) = self.shm.as_mut() {
                s.in_sut = mask(tags);
            }
        }
    }
    pub fn leave_sut(&mut self) {
        self.enter_sut(&[]);
    }
    /// Calls the code under test. A panic is a violation of `tags`.
    pub fn sut<T>(&mut self, tags: &[&str], name: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.sut_metered(tags, name, f).map(|x| x.0)
    }
    pub fn sut_metered<T>(&mut self, tags: &[&str], name: &str, f: impl FnOnce() -> T) -> Option<(T, sys::Usage)> {
        unsafe {
            if let Some(s) = self.shm.as_mut() {
                s.in_sut = mask(tags);
            }
        }
        let r = sys::meter(|| catch_unwind(AssertUnwindSafe(f)));
        unsafe {
            if let Some(s) = self.shm.as_mut() {
                s.in_sut = 0;
            }
        }
        match r {
            (Ok(v), u) => Some((v, u)),
            (Err(_), _) => {
                let m = last_panic();
                self.violate(tags, &format!("panic:{name}"), format!("{name} panicked: {m}"));
                None
            }
        }
    }
}
