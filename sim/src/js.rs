//! JavaScript gateways: the verifier's WebAssembly build behind its JavaScript binding, run by node
//! in a child process of its own for each run, next to the native verifier (C21).
use crate::ctx::*;
use crate::refimpl::verify::{Hdrs, Req, Resp};
use base64::{engine::general_purpose::STANDARD, Engine as _};
use ic_response_verification::{types::VerificationInfo, ResponseVerificationError};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Node {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}

pub fn wanted(profile: &str) -> bool {
    profile == "C21"
}

fn start() -> Node {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let mut child = Command::new("node")
        .args(["--single-threaded", &format!("{dir}/jsgw/driver.cjs"), &format!("{dir}/sim/target/js/pkg/jsgw.js")])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .expect("node does not start");
    let to = child.stdin.take().unwrap();
    let mut from = BufReader::new(child.stdout.take().unwrap());
    let mut hello = String::new();
    from.read_line(&mut hello).expect("node does not answer");
    let v: Value = serde_json::from_str(&hello).expect("the JavaScript gateway does not load");
    assert!(v["min"].is_number() && v["max"].is_number());
    Node { child, to, from }
}

pub struct Asked<'a> {
    pub req: &'a Req,
    pub resp: &'a Resp,
    /// what the host object says, possibly no valid status code
    pub status: f64,
    pub canister: &'a [u8],
    pub now: u128,
    pub offset: u128,
    pub key: &'a [u8],
    pub min: u8,
}

/// The JavaScript gateway's answer; None if it died.
pub fn ask(a: &Asked) -> Option<Value> {
    let b64 = |b: &[u8]| STANDARD.encode(b);
    let m = json!({
        "method": a.req.method, "url": a.req.url, "req_headers": a.req.headers, "req_body": b64(&a.req.body),
        "status": a.status, "resp_headers": a.resp.headers, "resp_body": b64(&a.resp.body),
        "list": a.resp.body.len() % 4 == 3,
        "canister": b64(a.canister), "now": a.now.to_string(), "offset": a.offset.to_string(), "key": b64(a.key), "min": a.min,
    });
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let node = n.get_or_insert_with(start);
        let mut line = serde_json::to_vec(&m).unwrap();
        line.push(b'\n');
        let mut back = String::new();
        let fine = node.to.write_all(&line).is_ok() && node.to.flush().is_ok() && node.from.read_line(&mut back).is_ok_and(|n| n > 0);
        if !fine {
            node.child.kill().ok();
            node.child.wait().ok();
            *n = None;
            return None;
        }
        serde_json::from_str(&back).ok()
    })
}

/// Ends the gateway of this run.
pub fn end() {
    NODE.with(|n| {
        if let Some(mut n) = n.borrow_mut().take() {
            n.child.kill().ok();
            n.child.wait().ok();
        }
    })
}

fn by_name(h: &[(String, String)]) -> Hdrs {
    let mut v = h.to_vec();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}

/// Hands a JavaScript gateway what the native verifier judged: the verdicts have to agree.
pub fn compare(ctx: &mut Ctx, a: &Asked, native: &Result<VerificationInfo, ResponseVerificationError>) {
    const TAG: &[&str] = &["C21"];
    if a.now > u64::MAX as u128 || a.offset > u64::MAX as u128 || ctx.stop {
        return; // the binding takes 64 bit times
    }
    let desc = format!("{} {} -> {}", a.req.method, a.req.url, a.resp.status);
    let r = ask(a);
    ctx.stat("check.js_verdict");
    let Some(r) = r else {
        return ctx.violate(TAG, "js-died", format!("the JavaScript gateway died verifying {desc}; native verdict {}", short_verdict(native)));
    };
    if let Some(t) = r["trap"].as_str() {
        let t = t.lines().next().unwrap_or("").to_string();
        return ctx.violate(TAG, "js-trap", format!("the JavaScript gateway crashed ({t}) verifying {desc}; native verdict {}", short_verdict(native)));
    }
    match (native, r["ok"].is_object()) {
        (Err(e), false) => {
            let want = variant(e);
            if r["err"] != want.as_str() {
                ctx.violate(TAG, "js-error", format!("the JavaScript gateway reports {} for {want} verifying {desc}", r["err"]));
            }
            ctx.stat("js.rejected");
        }
        (Err(e), true) => ctx.violate(TAG, "js-accepts", format!("the JavaScript gateway accepts what the native one rejects as {}: {desc}", variant(e))),
        (Ok(_), false) => ctx.violate(TAG, "js-rejects", format!("the JavaScript gateway rejects ({} {}) what the native one accepts: {desc}", r["err"], r["message"])),
        (Ok(i), true) => {
            ctx.stat("js.accepted");
            let o = &r["ok"];
            if o["version"] != json!(i.verification_version) {
                ctx.violate(TAG, "js-version", format!("verified as version {}, JavaScript says {}: {desc}", i.verification_version, o["version"]));
            }
            let same = match &i.response {
                None => o["response"].is_null(),
                Some(p) => {
                    let q = &o["response"];
                    let h: Option<Hdrs> = serde_json::from_value(q["headers"].clone()).ok();
                    q["status"] == json!(p.status_code)
                        && q["bytes"] == json!(true)
                        && q["body"].as_str().and_then(|s| STANDARD.decode(s).ok()).as_deref() == Some(&p.body[..])
                        && h.is_some_and(|h| by_name(&h) == by_name(&p.headers))
                }
            };
            if !same {
                let t: String = format!("the verified response differs for {desc}: native {:?}, JavaScript {}", i.response, o["response"]).chars().take(1500).collect();
                ctx.violate(TAG, "js-response", t);
            }
        }
    }
}

/// A response object no native gateway could have built: an error, not a crash.
pub fn odd(ctx: &mut Ctx, a: &Asked) {
    const TAG: &[&str] = &["C21"];
    let desc = format!("method {:?}, status {}", a.req.method, a.status);
    ctx.stat("check.js_odd_object");
    match ask(a) {
        None => ctx.violate(TAG, "js-died", format!("the JavaScript gateway died given {desc}")),
        Some(r) if r["trap"].is_string() => ctx.violate(TAG, "js-odd-trap", format!("the JavaScript gateway crashed given {desc}")),
        Some(r) if r["ok"].is_object() => ctx.violate(TAG, "js-odd-accepted", format!("the JavaScript gateway accepts {desc}")),
        Some(r) => ctx.log(format!("odd object {desc} -> {}", r["err"])),
    }
}

fn variant(e: &ResponseVerificationError) -> String {
    format!("{e:?}").chars().take_while(|c| c.is_ascii_alphanumeric()).collect()
}

fn short_verdict(r: &Result<VerificationInfo, ResponseVerificationError>) -> String {
    match r {
        Ok(_) => "accepted".into(),
        Err(e) => variant(e),
    }
}
