//! Forks one child process per run, supervises it, aggregates, minimises.
use crate::ctx::*;
use crate::prng::{hash_str, mix};
use crate::sys;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::time::Instant;

pub type Engine = fn(&mut Ctx, profile: &str);

#[derive(Clone)]
pub enum Mode {
    Generate,
    Replay(Vec<Vec<u64>>),
}

#[derive(Clone)]
pub struct Job {
    pub engine: &'static str,
    pub profile: String,
    pub focus: String,
    pub thorough: bool,
}

pub const CPU_LIMIT_S: u64 = 60;
const AS_LIMIT: u64 = 6 << 30;
const STACK: usize = 2 << 20;

pub fn run_seed(seed: u64, job: &Job, run: u64) -> u64 {
    mix(seed ^ mix(hash_str(job.engine) ^ hash_str(&job.profile).rotate_left(17) ^ mix(run)))
}

pub fn new_shm() -> *mut Shm {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut Shm
    }
}

/// Runs one simulation in a fresh child process.
pub fn execute(job: &Job, rseed: u64, mode: Mode, keep_trace: bool, shm: *mut Shm) -> Outcome {
    unsafe {
        (*shm).in_sut = 0;
        (*shm).len = 0;
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        std::io::stdout().flush().ok();
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            let lim = libc::rlimit { rlim_cur: CPU_LIMIT_S, rlim_max: CPU_LIMIT_S + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let lim = libc::rlimit { rlim_cur: AS_LIMIT, rlim_max: AS_LIMIT };
            if !crate::js::wanted(&job.profile) {
                // (WebAssembly engines reserve more address space than they use)
                libc::setrlimit(libc::RLIMIT_AS, &lim);
            }
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            // crash messages of the code under test are expected; keep the console readable
            if std::env::var_os("SIM_STDERR").is_none() {
                let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
                libc::dup2(null, 2);
            }
            sys::seed_os_randomness(rseed ^ 0x5eed);
            let job = job.clone();
            let shm_addr = shm as usize;
            let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
                let shm = shm_addr as *mut Shm;
                let src = match mode {
                    Mode::Generate => Src::generate(rseed, shm),
                    Mode::Replay(s) => Src::replay(s, shm),
                };
                let mut ctx = Ctx::new(src, &job.focus, job.thorough, keep_trace, shm);
                let e = crate::engine(job.engine);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e(&mut ctx, &job.profile)));
                crate::js::end();
                if r.is_err() {
                    ctx.out.harness_error = Some(format!("harness panic: {}", last_panic()));
                }
                ctx.out.steps = std::mem::take(&mut ctx.src.steps);
                ctx.out
            });
            let out = match h.unwrap().join() {
                Ok(o) => o,
                Err(_) => Outcome { harness_error: Some("run thread died".into()), ..Default::default() },
            };
            let s = serde_json::to_vec(&out).unwrap();
            let mut f = std::fs::File::from_raw_fd(fds[1]);
            f.write_all(&s).ok();
            f.flush().ok();
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut buf = vec![];
        f.read_to_end(&mut buf).ok();
        drop(f);
        let mut st = 0i32;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            if let Ok(o) = serde_json::from_slice::<Outcome>(&buf) {
                return o;
            }
        }
        // the child died: recover the decisions it had made from shared memory
        let n = (*shm).len as usize;
        let mut steps: Vec<Vec<u64>> = vec![];
        for w in &(&(*shm).data)[..n] {
            if *w == STEP_MARK {
                steps.push(vec![])
            } else if let Some(s) = steps.last_mut() {
                s.push(*w)
            }
        }
        let mut out = Outcome { steps, ..Default::default() };
        let tags = unmask((*shm).in_sut);
        let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { -libc::WEXITSTATUS(st) };
        let what = match sig {
            libc::SIGXCPU | libc::SIGKILL => "hang",
            libc::SIGSEGV => "stack-overflow",
            libc::SIGABRT => "abort",
            _ => "died",
        };
        if tags.is_empty() {
            out.harness_error = Some(format!("run died outside the code under test: {what} ({sig})"));
        } else {
            out.violations.push(Violation {
                tags,
                class: format!("crash:{what}"),
                msg: format!("the process running the code under test ended: {what} (signal {sig})"),
                step: out.steps.len().saturating_sub(1),
            });
        }
        out
    }
}

#[derive(Default, serde::Serialize, serde::Deserialize)]
pub struct Agg {
    pub runs: u64,
    pub draws: u64,
    pub stats: BTreeMap<String, u64>,
    pub sigs: BTreeSet<u64>,
    pub sim_ns: u64,
    /// run index, outcome of the first focus violation of each worker
    pub found: Option<(u64, Outcome)>,
    pub others: BTreeMap<String, u64>,
    pub hash: u64,
    pub errors: Vec<String>,
    pub capped: bool,
    pub known: BTreeMap<String, u64>,
    /// event-log hashes of the runs that reached a verdict
    pub nontrivial: BTreeSet<u64>,
}

impl Agg {
    pub fn merge(&mut self, o: Agg) {
        self.runs += o.runs;
        self.draws += o.draws;
        for (k, v) in o.stats {
            *self.stats.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.others {
            *self.others.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        self.sigs.extend(o.sigs);
        self.nontrivial.extend(o.nontrivial);
        self.sim_ns = self.sim_ns.saturating_add(o.sim_ns);
        self.hash = self.hash.wrapping_add(o.hash);
        self.errors.extend(o.errors);
        self.capped |= o.capped;
        match (&self.found, &o.found) {
            (_, None) => {}
            (None, Some(_)) => self.found = o.found,
            (Some(a), Some(b)) => {
                if b.0 < a.0 {
                    self.found = o.found
                }
            }
        }
    }
}

pub fn is_known(known: &[(String, String)], focus: &str, v: &Violation) -> bool {
    known.iter().any(|(p, c)| p == focus && *c == v.class)
}

/// Runs `runs` simulations on `workers` processes.
pub fn sweep(job: &Job, seed: u64, runs: u64, workers: u64, cap_s: f64, known: &[(String, String)]) -> Agg {
    let t0 = Instant::now();
    let mut kids = vec![];
    for w in 0..workers {
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fds[0]);
                let shm = new_shm();
                let mut a = Agg::default();
                let mut run = w;
                while run < runs {
                    if t0.elapsed().as_secs_f64() > cap_s {
                        a.capped = true;
                        break;
                    }
                    let rs = run_seed(seed, job, run);
                    let o = execute(job, rs, Mode::Generate, false, shm);
                    a.runs += 1;
                    a.draws += o.steps.iter().map(|s| s.len() as u64).sum::<u64>();
                    for (k, v) in &o.stats {
                        *a.stats.entry(k.clone()).or_insert(0) += v;
                    }
                    a.sigs.extend(o.sigs.iter());
                    if o.stats.keys().any(|k| k.starts_with("check.")) {
                        a.nontrivial.insert(o.trace_hash);
                    }
                    a.sim_ns = a.sim_ns.saturating_add(o.sim_ns);
                    a.hash = a.hash.wrapping_add(mix(o.trace_hash ^ mix(run)));
                    if let Some(e) = &o.harness_error {
                        a.errors.push(format!("run {run}: {e}"));
                    }
                    let mut hit = false;
                    for v in &o.violations {
                        if v.tags.contains(&job.focus) {
                            if is_known(known, &job.focus, v) {
                                *a.known.entry(v.class.clone()).or_insert(0) += 1;
                            } else {
                                hit = true;
                            }
                        } else {
                            *a.others.entry(format!("{} {}", v.tags.join("+"), v.class)).or_insert(0) += 1;
                        }
                    }
                    if hit {
                        a.found = Some((run, o));
                        break;
                    }
                    run += workers;
                }
                let s = serde_json::to_vec(&a).unwrap();
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                f.write_all(&s).ok();
                f.flush().ok();
                libc::_exit(0);
            }
            libc::close(fds[1]);
            kids.push((pid, std::fs::File::from_raw_fd(fds[0])));
        }
    }
    let mut agg = Agg::default();
    for (pid, mut f) in kids {
        let mut b = vec![];
        f.read_to_end(&mut b).ok();
        let mut st = 0;
        unsafe {
            libc::waitpid(pid, &mut st, 0);
        }
        match serde_json::from_slice::<Agg>(&b) {
            Ok(a) => agg.merge(a),
            Err(e) => agg.errors.push(format!("worker lost: {e} status {st}")),
        }
    }
    agg
}

/// Shrinks a failing decision sequence while the same violation class persists.
pub fn minimise(job: &Job, rseed: u64, steps: Vec<Vec<u64>>, class: &str, budget: usize, secs: f64) -> (Vec<Vec<u64>>, usize) {
    let shm = new_shm();
    let t0 = Instant::now();
    let mut tries = 0;
    let mut best = steps;
    let fails = |cand: &Vec<Vec<u64>>, tries: &mut usize| -> bool {
        *tries += 1;
        let o = execute(job, rseed, Mode::Replay(cand.clone()), false, shm);
        o.violations.iter().any(|v| v.class == class && v.tags.contains(&job.focus))
    };
    let over = |tries: usize| tries >= budget || t0.elapsed().as_secs_f64() > secs;
    // drop everything after the failure first, then chunks of steps (step 0 is the configuration)
    let mut chunk = (best.len() / 2).max(1);
    loop {
        let mut i = best.len();
        let mut progress = false;
        while i > 1 {
            if over(tries) {
                break;
            }
            let lo = i.saturating_sub(chunk).max(1);
            let mut c = best.clone();
            c.drain(lo..i);
            if fails(&c, &mut tries) {
                best = c;
                progress = true;
            }
            i = lo.min(best.len());
        }
        if over(tries) || (chunk == 1 && !progress) {
            break;
        }
        chunk = (chunk / 2).max(1);
    }
    // then make every remaining choice as simple as possible
    for s in 0..best.len() {
        let mut c = best.clone();
        c[s] = vec![];
        if !over(tries) && fails(&c, &mut tries) {
            best = c;
            continue;
        }
        for k in (0..best[s].len()).rev() {
            if over(tries) {
                break;
            }
            if best[s][k] == 0 {
                continue;
            }
            for v in [0, 1, best[s][k] / 2] {
                if v >= best[s][k] {
                    continue;
                }
                let mut c = best.clone();
                c[s][k] = v;
                if fails(&c, &mut tries) {
                    best = c;
                    break;
                }
            }
        }
        while best[s].last() == Some(&0) {
            best[s].pop();
        }
    }
    (best, tries)
}
