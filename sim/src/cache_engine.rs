//! Many verifier threads sharing the signature cache. The threads are real, but only the one that
//! holds the token runs; the seed decides who gets it at every yield point (C09).
use crate::ctx::{last_panic, Ctx};
use crate::ic::{self, keys, Ledger, K_EVIL, K_EVIL_ROOT, K_ROOT, K_SUBNET};
use crate::prng::hash_str;
use crate::refimpl::verify::{check_cert, Env};
use ic_cbor::CertificateToCbor;
use ic_certificate_verification::sim::{reset_cache, set_scheduler, Point};
use ic_certificate_verification::VerifyCertificate;
use ic_certification::Certificate;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

const S: u64 = 1_000_000_000;
const NOW: u64 = 1_700_000_000 * S;

/// One thing to verify: a certificate and the root key it is verified against.
struct Item {
    what: String,
    cert: Certificate,
    root: Vec<u8>,
    canister: Vec<u8>,
    ok: bool,
}

// ---- token passing ----
#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Ready(Option<Point>),
    /// waits for a lock; may look again once another thread has moved
    Blocked { retry: bool },
    Running,
    /// sleeps with the token: waits for a lock the scheduler does not see
    Foreign,
    Done,
}
struct Shared {
    turn: Option<usize>,
    st: Vec<St>,
    /// results in the order in which they were reached
    done: Vec<(usize, usize, Result<bool, String>, String)>,
    /// cryptographic verifications begun
    crypto: Vec<(usize, usize)>,
    at: Vec<usize>,
    tid: Vec<i32>,
}
static SHARED: OnceLock<(Mutex<Shared>, Condvar)> = OnceLock::new();
thread_local! {
    static TID: Cell<Option<usize>> = const { Cell::new(None) };
}

fn hook(p: Point) {
    pause(if p == Point::Blocked { St::Blocked { retry: false } } else { St::Ready(Some(p)) }, p == Point::Verify);
}
fn pause(s: St, crypto: bool) {
    let Some(id) = TID.with(|t| t.get()) else { return };
    let (m, cv) = SHARED.get().unwrap();
    let mut g = m.lock().unwrap();
    if crypto {
        let op = g.at[id];
        g.crypto.push((id, op));
    }
    g.st[id] = s;
    if g.turn == Some(id) {
        g.turn = None;
    }
    cv.notify_all();
    while g.turn != Some(id) {
        g = cv.wait(g).unwrap();
    }
    g.st[id] = St::Running;
}

/// Does this thread sleep in the kernel?
fn asleep(tid: i32) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    s.rsplit(')').next().is_some_and(|r| r.trim_start().starts_with('S'))
}

fn verify(i: &Item) -> Result<bool, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        i.cert.verify(&i.canister, &i.root, &(NOW as u128), &(300 * S as u128))
    }));
    match r {
        Ok(Ok(())) => Ok(true),
        Ok(Err(e)) => Err(format!("{e}")),
        Err(_) => Err(format!("PANIC {}", last_panic())),
    }
}

enum End {
    Fine,
    Deadlock(String),
    Endless(String),
}

/// Runs the threads to their ends, one at a time, in an order drawn from the seed.
fn phase(ctx: &mut Ctx, jobs: Vec<Vec<Arc<Item>>>) -> (End, Vec<(usize, usize, Result<bool, String>, String)>, Vec<(usize, usize)>) {
    let n = jobs.len();
    let ops: usize = jobs.iter().map(|j| j.len()).sum();
    let (m, cv) = SHARED.get_or_init(|| {
        let s = Shared { turn: None, st: vec![], done: vec![], crypto: vec![], at: vec![], tid: vec![] };
        (Mutex::new(s), Condvar::new())
    });
    *m.lock().unwrap() = Shared { turn: None, st: vec![St::Running; n], done: vec![], crypto: vec![], at: vec![0; n], tid: vec![0; n] };
    for (id, job) in jobs.into_iter().enumerate() {
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                TID.with(|t| t.set(Some(id)));
                SHARED.get().unwrap().0.lock().unwrap().tid[id] = unsafe { libc::gettid() };
                pause(St::Ready(None), false);
                for (op, i) in job.iter().enumerate() {
                    let (m, _) = SHARED.get().unwrap();
                    m.lock().unwrap().at[id] = op;
                    let r = verify(i);
                    m.lock().unwrap().done.push((id, op, r, i.what.clone()));
                    pause(St::Ready(None), false);
                }
                let (m, cv) = SHARED.get().unwrap();
                let mut g = m.lock().unwrap();
                g.st[id] = St::Done;
                if g.turn == Some(id) {
                    g.turn = None;
                }
                cv.notify_all();
            })
            .unwrap();
    }
    // how the schedule is drawn: anything, long turns, or by priority with a few changes
    let mode = ctx.src.draw(3);
    let mut prio: Vec<u64> = (0..n).map(|_| if mode == 2 { ctx.src.draw(1000) } else { 0 }).collect();
    let mut last: Option<usize> = None;
    let mut steps = 0usize;
    let mut shape = String::new();
    let limit = 40 * ops + 40 * n;
    let mut end = End::Fine;
    let mut g = m.lock().unwrap();
    loop {
        let mut naps = 0;
        // wait for the running thread to give the token back (and for all to have started)
        while g.turn.is_some() || (steps == 0 && g.st.iter().any(|s| *s == St::Running)) {
            let (g2, late) = cv.wait_timeout(g, Duration::from_millis(4)).unwrap();
            g = g2;
            if let (Some(id), true) = (g.turn, late.timed_out()) {
                naps = if asleep(g.tid[id]) { naps + 1 } else { 0 };
                if naps >= 5 {
                    g.st[id] = St::Foreign;
                    g.turn = None;
                }
            }
        }
        // threads that wait for a lock of the code's own go on by themselves when it is released:
        // let them come to rest before anything else runs
        let mut naps = 0;
        while naps < 3 {
            let fs: Vec<i32> = (0..n).filter(|i| g.st[*i] == St::Foreign).map(|i| g.tid[i]).collect();
            if fs.is_empty() {
                break;
            }
            naps = if fs.iter().all(|t| asleep(*t)) { naps + 1 } else { 0 };
            let (g2, _) = cv.wait_timeout(g, Duration::from_millis(1)).unwrap();
            g = g2;
        }
        if g.st.iter().all(|s| *s == St::Done) {
            break;
        }
        let can: Vec<usize> = (0..n)
            .filter(|i| matches!(g.st[*i], St::Ready(_) | St::Blocked { retry: true }))
            .collect();
        if can.is_empty() {
            // a thread that waits for something foreign may still come back
            if g.st.iter().any(|s| *s == St::Foreign) {
                let t = Instant::now();
                while t.elapsed() < Duration::from_secs(8) && !g.st.iter().any(|s| matches!(s, St::Ready(_))) {
                    let (g2, _) = cv.wait_timeout(g, Duration::from_millis(200)).unwrap();
                    g = g2;
                }
                if g.st.iter().any(|s| matches!(s, St::Ready(_))) || g.st.iter().all(|s| *s == St::Done) {
                    continue;
                }
            }
            end = End::Deadlock(format!("{:?}", g.st));
            break;
        }
        steps += 1;
        if steps > limit {
            end = End::Endless(format!("{:?}", g.st));
            break;
        }
        let i = if can.len() == 1 {
            can[0]
        } else {
            match mode {
                1 if last.is_some_and(|l| can.contains(&l)) && !ctx.src.chance(1, 4) => last.unwrap(),
                2 => {
                    if ctx.src.chance(1, 12) {
                        let j = ctx.src.idx(n);
                        prio[j] = ctx.src.draw(1000);
                        ctx.stat("fault.thread_stalled");
                    }
                    *can.iter().max_by_key(|i| (prio[**i], **i)).unwrap()
                }
                _ => *ctx.src.pick(&can),
            }
        };
        if last.is_some() && last != Some(i) {
            ctx.stat("probe.context_switch");
        }
        shape.push_str(&format!("{i}{:?};", g.st[i]));
        last = Some(i);
        for (j, s) in g.st.iter_mut().enumerate() {
            if j != i {
                if let St::Blocked { retry } = s {
                    *retry = true;
                }
            }
        }
        if matches!(g.st[i], St::Blocked { .. }) {
            ctx.stat("probe.waited_for_lock");
        }
        g.turn = Some(i);
        cv.notify_all();
    }
    ctx.stat_n("probe.schedule_decisions", steps as u64);
    ctx.log(format!("schedule {n} threads {ops} verifications {steps} steps {:016x}", hash_str(&shape)));
    ctx.sig(&["schedule", &shape]);
    (end, g.done.clone(), g.crypto.clone())
}

// ---- what is verified ----
struct World {
    ledger: Ledger,
    id: Vec<u8>,
    items: Vec<Arc<Item>>,
    first: BTreeMap<String, Result<bool, String>>,
    recent: Vec<usize>,
}

static SIGNED: OnceLock<Vec<(usize, u64, Vec<u8>)>> = OnceLock::new();

fn tree(n: u64, id: &[u8]) -> crate::refimpl::rtree::T {
    let st = ic::canister_state(NOW + n, &[(id.to_vec(), crate::refimpl::hashes::sha(&n.to_le_bytes()).to_vec())], false);
    st.reveal(&[ic::time_path(), ic::data_path(id)])
}

/// Makes a certificate, valid or subtly not, and finds out from the ledger which.
fn make(ctx: &mut Ctx, w: &mut World) {
    let key = *ctx.src.pick(&[K_ROOT, K_EVIL_ROOT, K_SUBNET, K_EVIL]);
    let n = ctx.src.draw(3);
    let t = tree(n, &w.id);
    let mut root = keys()[key].der();
    let mut what = format!("key {key} tree {n}");
    let mut cert = if ctx.src.chance(1, 3) {
        // through a delegation
        let sub = *ctx.src.pick(&[K_SUBNET, K_EVIL]);
        let net = ic::Subnet { id: ic::subnet_id(sub as u64), key: sub, ranges: vec![(ic::canister_id(0), ic::canister_id(99))], root: false };
        let ds = ic::subnet_state(NOW, &[net.clone()]).reveal(&[
            vec![b"subnet".to_vec(), net.id.clone(), b"canister_ranges".to_vec()],
            vec![b"subnet".to_vec(), net.id.clone(), b"public_key".to_vec()],
            ic::time_path(),
        ]);
        let mut d = ic::seal(ctx, &w.ledger, key, ds, None);
        if ctx.src.chance(1, 4) {
            let other = *ctx.src.pick(&[K_ROOT, K_EVIL_ROOT, K_SUBNET]);
            d.sig = w.ledger.sign(ctx, other, &d.tree.digest());
            what += &format!(" delegation signed by {other}");
        }
        what += &format!(" via subnet {sub}");
        let signer = if ctx.src.chance(1, 4) { key } else { sub };
        what += &format!(" signed by {signer}");
        ic::seal(ctx, &w.ledger, signer, t, Some((net.id, d.encode())))
    } else {
        ic::seal(ctx, &w.ledger, key, t, None)
    };
    match ctx.src.draw(9) {
        0..=2 => {}
        3 => {
            let other = *ctx.src.pick(&[K_ROOT, K_EVIL_ROOT, K_SUBNET, K_EVIL]);
            root = keys()[other].der();
            what += &format!(" against key {other}");
        }
        4 => {
            let other = *ctx.src.pick(&[K_ROOT, K_EVIL_ROOT, K_SUBNET, K_EVIL]);
            cert.sig = w.ledger.sign(ctx, other, &cert.tree.digest());
            what += &format!(" with the signature of key {other}");
        }
        5 => {
            let m = ctx.src.draw(3);
            cert.sig = w.ledger.sign(ctx, key, &tree(m, &w.id).digest());
            what += &format!(" with the signature over tree {m}");
        }
        6 => {
            let i = ctx.src.idx(48);
            let b = ctx.src.draw(8);
            cert.sig[i] ^= 1 << b;
            what += &format!(" with bit {b} of byte {i} of the signature flipped");
        }
        7 => {
            // the negation of the curve point
            cert.sig[0] ^= 0x20;
            what += " with a negated signature";
        }
        _ => {
            match ctx.src.draw(4) {
                0 => cert.sig = vec![],
                1 => cert.sig.truncate(47),
                2 => cert.sig.extend_from_slice(b"\x0Dic-state-root"),
                _ => {
                    cert.sig = vec![0; 48];
                    cert.sig[0] = 0xc0;
                }
            }
            what += &format!(" with a signature of {} bytes {:02x?}", cert.sig.len(), cert.sig.first());
        }
    }
    let led = &w.ledger;
    let env = Env {
        root_key: &root,
        now: NOW as u128,
        offset: 300 * S as u128,
        canister: &w.id,
        min_version: 2,
        bls_ok: &|k, s, h| led.ok(k, s, h),
    };
    let mut why = vec![];
    check_cert(&cert, &env, &mut why);
    let Ok(real) = Certificate::from_cbor(&cert.encode()) else { return };
    what += &format!(" #{:08x}", crate::prng::mix(hash_str(&format!("{:?}{root:?}", cert.encode()))) as u32);
    ctx.stat(if why.is_empty() { "input.valid" } else { "input.invalid" });
    w.items.push(Arc::new(Item { what, cert: real, root, canister: w.id.clone(), ok: why.is_empty() }));
}

pub fn run(ctx: &mut Ctx, _profile: &str) {
    if !ctx.src.step() {
        return;
    }
    let n = 8 + ctx.src.draw(if ctx.thorough { 24 } else { 10 });
    ctx.src.set_budget(n as usize + 1);
    let cap = *ctx.src.pick(&[1usize, 2, 3, 5, 8, 100_000]);
    set_scheduler(hook);
    reset_cache(cap);
    let mut w = World { ledger: Ledger::default(), id: ic::canister_id(7), items: vec![], first: BTreeMap::new(), recent: vec![] };
    w.ledger.preload(presigned_roots());
    for _ in 0..3 + ctx.src.draw(6) {
        make(ctx, &mut w);
    }
    ctx.log(format!("cache of {cap}"));
    while !ctx.stop && ctx.src.step() {
        if ctx.src.chance(1, 6) {
            make(ctx, &mut w);
            continue;
        }
        if w.items.is_empty() {
            make(ctx, &mut w);
            continue;
        }
        let threads = 1 + ctx.src.idx(4);
        // few different certificates, so that threads meet on the same ones
        let few: Vec<usize> = (0..1 + ctx.src.idx(4))
            .map(|_| {
                if !w.recent.is_empty() && ctx.src.chance(1, 2) {
                    *ctx.src.pick(&w.recent)
                } else {
                    ctx.src.idx(w.items.len())
                }
            })
            .collect();
        let mut jobs: Vec<Vec<Arc<Item>>> = (0..threads)
            .map(|_| (0..1 + ctx.src.idx(3)).map(|_| w.items[*ctx.src.pick(&few)].clone()).collect())
            .collect();
        if ctx.src.chance(1, 1500) {
            // a busy gateway: many different certificates, good and bad, before everything goes on
            let (n, bad) = (80 + ctx.src.draw(240), 2 + ctx.src.draw(3));
            for j in 0..n {
                let t = tree(1000 + j, &w.id);
                let mut cert = ic::seal(ctx, &w.ledger, K_ROOT, t, None);
                let ok = j % bad != 0;
                if !ok {
                    cert.sig[47] ^= 1;
                }
                let Ok(real) = Certificate::from_cbor(&cert.encode()) else { continue };
                let what = format!("certificate {j} of many, {}", if ok { "valid" } else { "with a damaged signature" });
                let k = j as usize % threads;
                jobs[k].push(Arc::new(Item { what, cert: real, root: keys()[K_ROOT].der(), canister: w.id.clone(), ok }));
            }
            ctx.stat("fault.flood_of_certificates");
        }
        w.recent.extend(few);
        let drop = w.recent.len().saturating_sub(6);
        w.recent.drain(..drop);
        ctx.enter_sut(&["C09"]);
        let (end, done, crypto) = phase(ctx, jobs.clone());
        ctx.leave_sut();
        ctx.stat_n("op.threads", threads as u64);
        for (id, op, r, what) in &done {
            let i = &jobs[*id][*op];
            ctx.stat("check.verification");
            let hit = !crypto.contains(&(*id, *op));
            ctx.stat(match (hit, r.is_ok()) {
                (true, true) => "verify.accepted_from_cache",
                (false, true) => "verify.accepted",
                (true, false) => "verify.rejected_without_crypto",
                (false, false) => "verify.rejected",
            });
            ctx.log(format!("thread {id}: {what} -> {}", if r.is_ok() { "accepted" } else { "rejected" }));
            ctx.sig(&["op", &cap.to_string(), if hit { "hit" } else { "crypto" }, if i.ok { "valid" } else { "invalid" }, &threads.to_string()]);
            if let Err(e) = r {
                if e.starts_with("PANIC") {
                    ctx.violate(&["C09"], "panic:verify", format!("verifying {what}: {e}"));
                    return;
                }
            }
            if r.is_ok() != i.ok {
                let class = if i.ok { "valid-rejected" } else { "invalid-accepted" };
                ctx.violate(&["C09"], class, format!("{what} (cache of {cap}, {} verified before by {threads} threads): {r:?}", if hit { "nothing" } else { "it was" }));
                return;
            }
            match w.first.get(what) {
                Some(f) if f != r => {
                    let f = f.clone();
                    ctx.violate(&["C09"], "outcome-changed", format!("{what}: {f:?} first, {r:?} now"));
                    return;
                }
                Some(_) => {}
                None => {
                    w.first.insert(what.clone(), r.clone());
                }
            }
        }
        match end {
            End::Fine => {}
            End::Deadlock(s) => ctx.violate(&["C09"], "deadlock", format!("no thread can go on: {s}")),
            End::Endless(s) => ctx.violate(&["C09"], "no-progress", format!("the verifications did not end: {s}")),
        }
    }
}

/// Signatures used by every run, made once before any fork.
pub fn presign() {
    SIGNED.get_or_init(|| {
        let id = ic::canister_id(7);
        let mut v = vec![];
        for key in [K_ROOT, K_EVIL_ROOT, K_SUBNET, K_EVIL] {
            for n in 0..3 {
                v.push((key, n, ic::sign_raw(key, &tree(n, &id).digest())));
            }
        }
        v
    });
}
pub fn presigned_roots() -> Vec<(usize, crate::refimpl::hashes::H, Vec<u8>)> {
    let id = ic::canister_id(7);
    SIGNED.get().map(|v| v.iter().map(|(k, n, s)| (*k, tree(*n, &id).digest(), s.clone())).collect()).unwrap_or_default()
}
