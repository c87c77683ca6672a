//! Messages as large as a network lets through: requests far below every certified path, responses with very many headers,
//! expressions naming very many of them, long query strings, wide trees, delegations with very many ranges, headers with
//! very many fields. The canister must be able to answer, the gateway must accept what is honest, and what either spends
//! must stay in proportion to what it was given (C02, C10).
use crate::ctx::Ctx;
use crate::js;
use crate::ic::{self, keys, Ledger, Subnet, K_ROOT};
use crate::refimpl::canister::{full_tree, Entry};
use crate::refimpl::cbor::{self, Val};
use crate::refimpl::cel::{Cel, RespCert};
use crate::refimpl::verify::{Evidence, Req, Resp};
use crate::sys;
use crate::world::{add_header_real, path_str, real_cel_string, real_entry, real_req, real_resp};
use base64::{engine::general_purpose::STANDARD, Engine as _};
use ic_http_certification::HttpCertificationTree;
use ic_response_verification::{types::VerificationInfo, verify_request_response_pair, ResponseVerificationError};

type Verdict = Result<VerificationInfo, ResponseVerificationError>;

const NOW: u64 = 1_700_000_000_000_000_000;
const KINDS: [&str; 8] = ["deep-request", "response-headers", "request-headers", "query", "wide-tree", "ranges", "header-fields", "deep-expr-path"];

fn size_of(q: &Req, r: &Resp) -> usize {
    let h = |h: &[(String, String)]| h.iter().map(|h| h.0.len() + h.1.len() + 16).sum::<usize>();
    q.url.len() + h(&q.headers) + q.body.len() + h(&r.headers) + r.body.len()
}

/// What one call may spend on an input of this size: generous for anything linear, far too little for its square.
fn bounded(ctx: &mut Ctx, what: &str, kind: &str, size: usize, u: &sys::Usage, cpu_ms: u64) {
    let s = size as u64;
    if u.peak > (64 << 20) + 400 * s {
        ctx.violate(&["C10"], "memory", format!("{what} ({kind}) of {size} bytes took {} bytes of memory", u.peak));
    } else if u.total > (256 << 20) + 4000 * s {
        ctx.violate(&["C10"], "work", format!("{what} ({kind}) of {size} bytes allocated {} bytes in total", u.total));
    } else if cpu_ms > 4000 + s / 100 {
        // the time itself is not part of the message, it differs from machine to machine
        ctx.violate(&["C10"], "time", format!("{what} ({kind}) of {size} bytes took more than {} ms of processor time", 4000 + s / 100));
    }
}

fn cpu_ms() -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
    }
}

fn names(ctx: &mut Ctx, n: usize, stem: &str) -> Vec<String> {
    let odd = ctx.src.chance(1, 2);
    (0..n).map(|i| if odd && i % 2 == 0 { format!("{}{i}", stem.to_uppercase()) } else { format!("{stem}{i}") }).collect()
}

fn entry(segs: &[String], wild: bool, cel: Cel, req: Option<Req>, mut resp: Resp) -> Entry {
    let cel_str = real_cel_string(&cel);
    resp.headers.push(("IC-CertificateExpression".into(), cel_str.clone()));
    Entry { segs: segs.to_vec(), wild, cel, cel_str, req, resp }
}

fn plain(body: &str) -> Resp {
    Resp { status: 200, headers: vec![("content-type".into(), "text/plain".into())], body: body.as_bytes().to_vec() }
}

/// The same message through a JavaScript gateway.
fn compare(ctx: &mut Ctx, profile: &str, req: &Req, resp: &Resp, id: &[u8], key: &[u8], min: u8, r: &Verdict) {
    if js::wanted(profile) {
        let a = js::Asked { req, resp, status: resp.status as f64, canister: id, now: NOW as u128, offset: 300_000_000_000, key, min };
        js::compare(ctx, &a, r);
    }
}

pub fn run(ctx: &mut Ctx, profile: &str) {
    if !ctx.src.step() {
        return;
    }
    let n = 1 + ctx.src.draw(3);
    ctx.src.set_budget(n as usize + 1);
    // entries of earlier exchanges stay in the tree
    let mut tree = HttpCertificationTree::default();
    let mut live: Vec<Entry> = vec![];
    while !ctx.stop && ctx.src.step() {
        if profile == "C11" || ctx.src.chance(1, 12) {
            legacy(ctx, profile);
        } else {
            exchange(ctx, profile, &mut tree, &mut live);
        }
    }
}

/// A compressed body of `mb` megabytes of the same byte, and the digest of those. One megabyte is compressed on its own
/// and repeated, which is what makes a small message of a large body cheap for its sender.
fn swollen(mb: usize, byte: u8, gz: bool) -> (Vec<u8>, Vec<u8>) {
    use flate2::{Compress, Compression, Crc, FlushCompress};
    use sha2::Digest as _;
    let block = vec![byte; 1 << 20];
    let mut c = Compress::new(Compression::best(), false);
    let mut one = Vec::with_capacity(1 << 16);
    c.compress_vec(&block, &mut one, FlushCompress::Full).unwrap();
    let mut last = Vec::with_capacity(64);
    Compress::new(Compression::best(), false).compress_vec(&[], &mut last, FlushCompress::Finish).unwrap();
    let (mut crc, mut sha) = (Crc::new(), sha2::Sha256::new());
    let mut out = if gz { vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255] } else { vec![] };
    for _ in 0..mb {
        out.extend_from_slice(&one);
        sha.update(&block);
        if gz {
            crc.update(&block);
        }
    }
    out.extend_from_slice(&last);
    if gz {
        out.extend_from_slice(&crc.sum().to_le_bytes());
        out.extend_from_slice(&((mb << 20) as u32).to_le_bytes());
    }
    (out, sha.finalize().to_vec())
}

/// A version 1 response with a small body that stands for a very large one.
fn legacy(ctx: &mut Ctx, profile: &str) {
    use crate::refimpl::rtree::from_paths;
    let mut mb = *ctx.src.pick(&[1usize, 7, 7, 40, 40, 150, 300, 600]);
    if js::wanted(profile) {
        mb = mb.min(40);
    }
    let gz = ctx.src.chance(1, 2);
    let byte = ctx.src.draw(3) as u8 * 100;
    let (body, decoded) = swollen(mb, byte, gz);
    let raw = crate::refimpl::hashes::sha(&body).to_vec();
    // what the canister certified: the body before or after encoding, or another one
    let what = ctx.src.weighted(&[4, 2, 3]);
    let leaf = [decoded, raw, crate::refimpl::hashes::sha(b"other").to_vec()][what].clone();
    let at = if ctx.src.chance(1, 2) { "/big.bin" } else { "/index.html" };
    let tree = from_paths(&[(vec![b"http_assets".to_vec(), at.as_bytes().to_vec()], leaf)]);
    let id = ic::canister_id(7);
    let cert = ic::seal(ctx, &Ledger::default(), K_ROOT, ic::canister_state(NOW, &[(id.clone(), tree.digest().to_vec())], false), None);
    let ev = Evidence { cert, tree, version: 1, expr_path: None };
    let req = Req { method: "GET".into(), url: "/big.bin".into(), headers: vec![], body: vec![] };
    let resp = Resp {
        status: 200,
        headers: vec![("Content-Encoding".into(), if gz { "gzip" } else { "deflate" }.into()), ("IC-Certificate".into(), ev.print())],
        body,
    };
    let size = size_of(&req, &resp);
    let key = keys()[K_ROOT].der();
    let (q, p) = (real_req(&req), real_resp(&resp));
    let (id2, key2) = (id.clone(), key.clone());
    let t0 = cpu_ms();
    let Some((r, u)) = ctx.sut_metered(&["C11", "C10"], "verify", move || {
        verify_request_response_pair(q, p, &id2, NOW as u128, 300_000_000_000, &key2, 1)
    }) else {
        return;
    };
    let cpu = cpu_ms() - t0;
    compare(ctx, profile, &req, &resp, &id, &key, 1, &r);
    let r = r.map_err(|e| format!("{e:?}").chars().take(200).collect::<String>());
    ctx.stat("load.legacy-body");
    ctx.stat(if r.is_ok() { "verify.accepted" } else { "verify.rejected" });
    // the decoder itself needs time in proportion to what it decodes
    bounded(ctx, "verifying", "legacy body", size, &u, cpu.saturating_sub(10 * mb as u64));
    match (&r, what) {
        (Err(e), 0 | 1) => ctx.violate(&["C11"], "honest-rejected", format!("a certified version 1 body of {size} bytes, {mb} MB decoded, was rejected: {e}")),
        (Ok(_), 2) => ctx.violate(&["C11", "C01"], "not-certified", format!("a version 1 body of {size} bytes that nobody certified was accepted")),
        (Ok(i), _) if i.response.as_ref().map(|r| (&r.body, r.headers.len(), r.status_code)) != Some((&resp.body, 0, None)) => {
            ctx.violate(&["C11"], "content", "something else than the body as received was returned as verified".into())
        }
        _ => {}
    }
    ctx.log(format!("legacy {mb} MB, certified {what}: {}", r.is_ok()));
    ctx.sig(&["legacy", &mb.to_string(), if gz { "gzip" } else { "deflate" }, &what.to_string(), at]);
}

fn exchange(ctx: &mut Ctx, profile: &str, tree: &mut HttpCertificationTree, live: &mut Vec<Entry>) {
    let k = ctx.src.idx(KINDS.len());
    let kind = KINDS[k];
    let n = match kind {
        "deep-request" | "deep-expr-path" => *ctx.src.pick(&[40usize, 400, 4000, 30_000]),
        "wide-tree" => *ctx.src.pick(&[100usize, 1000, 4000]),
        "ranges" => *ctx.src.pick(&[100usize, 3000, 30_000]),
        _ => *ctx.src.pick(&[50usize, 1000, 8000, 30_000]),
    };
    let seg_kind = ctx.src.draw(3);
    let deep: Vec<String> = (0..n.min(30_000))
        .map(|i| match seg_kind {
            0 => "a".to_string(),
            1 => ((b'a' + (i % 26) as u8) as char).to_string(),
            _ => if i < 8000 { format!("s{i}") } else { "z".to_string() },
        })
        .collect();
    let deep: Vec<String> = deep.into_iter().scan(0, |l, s| { *l += s.len() + 1; Some((*l, s)) }).take_while(|x| x.0 < 64_000).map(|x| x.1).collect();
    let uniq = live.len().to_string();
    let mut base = vec![format!("l{uniq}")];
    let mut req = Req { method: "GET".into(), url: path_str(&base), headers: vec![], body: vec![] };
    let include = ctx.src.chance(1, 2);
    let rc = |v: Vec<String>| if include { RespCert::Include(v) } else { RespCert::Exclude(v) };
    let mut es: Vec<Entry> = vec![];
    match kind {
        "deep-request" | "deep-expr-path" => {
            let dir = ctx.src.chance(1, 3);
            let full = ctx.src.chance(1, 3);
            let mut ds: Vec<usize> = (0..1 + ctx.src.draw(3)).map(|_| *ctx.src.pick(&[0usize, 1, 2, 7, 30])).collect();
            ds.sort();
            ds.dedup();
            for d in ds {
                let mut p: Vec<String> = base.iter().chain(&deep).take(d + 1).cloned().collect();
                if ctx.src.chance(1, 4) {
                    p.push("".into());
                }
                es.push(if full {
                    entry(&p, true, Cel::Response(rc(vec![])), None, plain(&uniq))
                } else {
                    entry(&p, true, Cel::Skip, None, plain(&uniq))
                });
            }
            base.extend(deep.iter().cloned());
            if dir {
                base.push("".into());
            }
            req.url = path_str(&base);
        }
        "response-headers" => {
            let mut r = plain(&uniq);
            r.headers.extend(names(ctx, n, "h").into_iter().enumerate().map(|(i, h)| (h, i.to_string())));
            let shift = ctx.src.draw(3) as usize * n / 2;
            let v: Vec<String> = names(ctx, n + shift, "h").split_off(shift);
            es.push(entry(&base, false, Cel::Response(rc(v)), None, r));
        }
        "request-headers" | "query" => {
            let shift = ctx.src.draw(3) as usize * n / 2;
            let v: Vec<String> = names(ctx, n + shift, "h").split_off(shift);
            let (mut hs, mut qs) = (vec![], vec![]);
            if kind == "query" {
                let mut q = String::new();
                for (i, x) in names(ctx, n, "h").iter().enumerate() {
                    let add = format!("{}{x}={i}", if i > 0 { "&" } else { "" });
                    if q.len() + add.len() > 60_000 {
                        break;
                    }
                    q += &add;
                }
                req.url = format!("{}?{q}", req.url);
                qs = v;
            } else {
                req.headers = names(ctx, n, "h").into_iter().enumerate().map(|(i, h)| (h, i.to_string())).collect();
                hs = v;
            }
            es.push(entry(&base, false, Cel::Full { headers: hs, query: qs, resp: rc(vec![]) }, Some(req.clone()), plain(&uniq)));
        }
        "wide-tree" => {
            for i in 0..n.min(1500) {
                let p = vec![base[0].clone(), format!("w{}", i.wrapping_mul(7919) % n)];
                es.push(entry(&p, false, Cel::Skip, None, plain("")));
            }
            es.push(entry(&base, true, Cel::Response(rc(vec![])), None, plain(&uniq)));
            req.url = path_str(&[base[0].clone(), "nobody".into()]);
        }
        _ => {
            es.push(entry(&base, ctx.src.chance(1, 2), Cel::Response(rc(vec![])), None, plain(&uniq)));
        }
    }
    // the canister answers with the best of its entries
    let e = match kind {
        "deep-request" | "deep-expr-path" => es.iter().max_by_key(|e| (e.segs.len(), e.segs.last().map(|s| !s.is_empty()))).unwrap().clone(),
        _ => es.last().unwrap().clone(),
    };
    ctx.stat(&format!("load.{kind}"));
    let size0 = size_of(&req, &e.resp) + es.iter().map(|e| e.cel_str.len() + 100).sum::<usize>();
    let (mut t2, es2) = (tree.clone(), es.clone());
    let t0 = cpu_ms();
    let Some((t2, u)) = ctx.sut_metered(&["C02", "C10"], "certify", move || {
        for e in &es2 {
            t2.insert(&real_entry(e));
        }
        t2
    }) else {
        return;
    };
    bounded(ctx, "certifying", kind, size0, &u, cpu_ms() - t0);
    *tree = t2;
    live.extend(es);

    let id = ic::canister_id(7);
    let ledger = Ledger::default();
    let state = ic::canister_state(NOW, &[(id.clone(), tree.root_hash().to_vec())], false);
    let delegated = kind == "ranges";
    let cert = if delegated {
        let mine = ctx.src.idx(n);
        let ranges = (0..n).map(|i| if i == mine { (id.clone(), id.clone()) } else { (ic::canister_id(100 + 10 * i as u64), ic::canister_id(105 + 10 * i as u64)) }).collect();
        let s = Subnet { id: ic::subnet_id(1), key: 1, ranges, root: false };
        let st = ic::subnet_state(NOW, &[s]);
        let d = ic::seal(ctx, &ledger, K_ROOT, st, None).encode();
        ic::seal(ctx, &ledger, 1, state, Some((ic::subnet_id(1), d)))
    } else {
        ic::seal(ctx, &ledger, K_ROOT, state, None)
    };
    let cb = cert.encode();
    let size1 = size0 + cb.len() + live.len() * 8;
    let (t3, e2, q2, cb2) = (tree.clone(), e.clone(), req.clone(), cb.clone());
    let t0 = cpu_ms();
    let Some((r, u)) = ctx.sut_metered(&["C02", "C10"], "serve", move || add_header_real(&t3, &e2, &q2, &cb2)) else { return };
    bounded(ctx, "answering", kind, size1, &u, cpu_ms() - t0);
    let mut resp = match r {
        Ok(r) => r,
        Err(err) => {
            ctx.violate(&["C02"], "cannot-serve", format!("no evidence for a certified response ({kind}): {err}"));
            return;
        }
    };
    // a reference canister prunes nothing
    if kind == "wide-tree" && ctx.src.chance(1, 2) {
        let full = full_tree(live);
        let state = ic::canister_state(NOW, &[(id.clone(), full.digest().to_vec())], false);
        let cert = ic::seal(ctx, &ledger, K_ROOT, state, None);
        let ev = Evidence { cert, tree: full, version: 2, expr_path: Some(e.expr_path()) };
        for h in resp.headers.iter_mut().filter(|h| h.0.eq_ignore_ascii_case("IC-Certificate")) {
            h.1 = ev.print();
        }
    }
    // what the network makes of it
    let mut honest = true;
    if let Some(h) = resp.headers.iter_mut().find(|h| h.0.eq_ignore_ascii_case("IC-Certificate")) {
        if kind == "header-fields" {
            let f = *ctx.src.pick(&["x=:AAAA:", "version=2", "expr_path=:AAAA:", "=", "", "tree", "certificate=::"]);
            let junk = vec![f; n].join(",");
            h.1 = if ctx.src.chance(1, 2) { format!("{}, {junk}", h.1) } else { format!("{junk}, {}", h.1) };
            honest = false;
        }
        if kind == "deep-expr-path" {
            let mut p = vec!["http_expr".to_string()];
            p.extend(base.iter().cloned());
            if ctx.src.chance(1, 2) {
                p.truncate(p.len() / 2 + 1);
            }
            p.push(ctx.src.pick(&["<*>", "<$>", "", "x"]).to_string());
            let b = cbor::self_described(&Val::A(p.into_iter().map(Val::T).collect()));
            let fields: Vec<String> = h.1.split(", ").map(|f| if f.starts_with("expr_path=") { format!("expr_path=:{}:", STANDARD.encode(&b)) } else { f.to_string() }).collect();
            h.1 = fields.join(", ");
            honest = false;
        }
    }
    let size = size_of(&req, &resp);
    let key = keys()[K_ROOT].der();
    let (q, p) = (req.clone(), resp.clone());
    let (id2, key2) = (id.clone(), key.clone());
    let t0 = cpu_ms();
    let Some((r, u)) = ctx.sut_metered(&["C02", "C10"], "verify", move || {
        verify_request_response_pair(real_req(&q), real_resp(&p), &id2, NOW as u128, 300_000_000_000, &key2, 2)
    }) else {
        return;
    };
    let cpu = cpu_ms() - t0;
    compare(ctx, profile, &req, &resp, &id, &key, 2, &r);
    let r = r.map_err(|e| format!("{e:?}").chars().take(200).collect::<String>());
    bounded(ctx, "verifying", kind, size, &u, cpu);
    let verdict = match &r {
        Ok(_) => "ok".to_string(),
        Err(e) => e.chars().take_while(|c| c.is_ascii_alphanumeric()).collect(),
    };
    ctx.stat(if r.is_ok() { "verify.accepted" } else { "verify.rejected" });
    if honest {
        if let Err(e) = &r {
            ctx.violate(&["C02"], "honest-rejected", format!("an honest response to a {kind} message of {size} bytes was rejected: {e}"));
        }
    }
    ctx.log(format!("{kind} {n}: {size} bytes -> {verdict}"));
    ctx.sig(&["load", kind, &n.to_string(), &verdict, if honest { "honest" } else { "odd" }]);
}
