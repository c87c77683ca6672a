//! What the network and byzantine replicas do to messages.
use crate::ctx::Ctx;
use crate::http_engine::*;
use crate::ic::{self, *};
use crate::refimpl::canister::{full_tree, Entry};
use crate::refimpl::cbor::{self, Val};
use crate::refimpl::cel::{self, Cel, RespCert};
use crate::refimpl::rtree::{balanced, fork, lab, T};
use crate::refimpl::verify::*;
use crate::world::*;
use base64::{engine::general_purpose::STANDARD, Engine};
use std::rc::Rc;

pub fn ev_of(m: &Msg) -> Option<Evidence> {
    Evidence::parse(header(&m.resp.headers, "ic-certificate")?)
}

/// Replaces the certificate header(s), keeping the position of the first.
pub fn set_header(r: &mut Resp, name: &str, val: String) {
    let at = r.headers.iter().position(|h| h.0.eq_ignore_ascii_case(name));
    r.headers.retain(|h| !h.0.eq_ignore_ascii_case(name));
    let at = at.unwrap_or(r.headers.len()).min(r.headers.len());
    r.headers.insert(at, (name.to_string(), val));
}
pub fn set_ev(m: &mut Msg, ev: &Evidence) {
    let v1_bare = header(&m.resp.headers, "ic-certificate").map(|h| !h.contains("version")).unwrap_or(false);
    let mut s = ev.print();
    if v1_bare && ev.version == 1 {
        s = s.replace(", version=1", "");
    }
    set_header(&mut m.resp, "IC-Certificate", s);
}

fn cel_of(m: &Msg) -> Option<Cel> {
    cel::parse(header(&m.resp.headers, "ic-certificateexpression")?)
}
fn resp_cert(c: &Cel) -> Option<&RespCert> {
    match c {
        Cel::Skip => None,
        Cel::Response(r) | Cel::Full { resp: r, .. } => Some(r),
    }
}

/// Changes the properties declare harmless: the verdict must not change.
pub fn benign(ctx: &mut Ctx, w: &mut World, m: &mut Msg) {
    let cel = m.entry.as_ref().map(|e| e.cel.clone());
    let name: &'static str = match ctx.src.draw(11) {
        0 => {
            let n = m.resp.headers.len();
            if n > 1 {
                let k = ctx.src.idx(n);
                // the certificate headers are unique, so any order is equivalent, except for
                // repeated headers whose relative order is kept by a rotation of the whole list
                m.resp.headers.rotate_left(k);
            }
            "b-resp-order"
        }
        1 => {
            let f = ctx.src.seed();
            for (i, h) in m.resp.headers.iter_mut().enumerate() {
                h.0 = flip_case(&h.0, f.rotate_left(i as u32 * 7));
            }
            "b-resp-case"
        }
        2 => {
            let name = match &cel {
                None => "X-Added".to_string(),
                Some(c) => match resp_cert(c) {
                    None => "X-Added".into(),
                    Some(RespCert::Include(l)) => match other_name(ctx, l, "X-Added-By-Network") {
                        Some(n) => n,
                        None => return,
                    },
                    Some(RespCert::Exclude(l)) => match l.first() {
                        Some(x) => flip_case(x, ctx.src.seed()),
                        None => return,
                    },
                },
            };
            if name.eq_ignore_ascii_case("content-encoding") && m.entry.is_none() {
                return;
            }
            let at = ctx.src.idx(m.resp.headers.len() + 1);
            m.resp.headers.insert(at, (name, "injected".into()));
            "b-resp-uncertified-added"
        }
        3 => {
            // strip or change an uncertified header
            let Some(c) = &cel else { return };
            let cov = |k: &str| match resp_cert(c) {
                None => false,
                Some(rc) => rc.covers(k),
            };
            let idx: Vec<usize> = (0..m.resp.headers.len())
                .filter(|i| {
                    let k = &m.resp.headers[*i].0;
                    !k.to_ascii_lowercase().starts_with("ic-certificate") && !cov(k)
                })
                .collect();
            if idx.is_empty() {
                return;
            }
            let i = *ctx.src.pick(&idx);
            if ctx.src.chance(1, 2) {
                m.resp.headers.remove(i);
            } else {
                m.resp.headers[i].1 = "altered".into();
            }
            "b-resp-uncertified-changed"
        }
        4 => {
            let f = ctx.src.seed();
            for (i, h) in m.req.headers.iter_mut().enumerate() {
                h.0 = flip_case(&h.0, f.rotate_left(i as u32 * 5));
            }
            if m.req.headers.len() > 1 {
                let k = ctx.src.idx(m.req.headers.len());
                m.req.headers.rotate_left(k);
            }
            "b-req-case-order"
        }
        5 => {
            let name = match &cel {
                Some(Cel::Full { headers, .. }) => other_name(ctx, headers, "X-Net"),
                _ => Some("X-Net".to_string()),
            };
            let Some(name) = name else { return };
            m.req.headers.insert(0, (name, "y".into()));
            "b-req-uncertified-header"
        }
        6 => {
            if !matches!(cel, None | Some(Cel::Response(_)) | Some(Cel::Skip)) {
                return;
            }
            m.req.body.extend_from_slice(b"+");
            m.req.method = ctx.src.pick(&["GET", "POST", "OPTIONS"]).to_string();
            let q = gen_query(ctx);
            let base = m.req.url.split('?').next().unwrap().to_string();
            m.req.url = base + &q.map(|q| format!("?{q}")).unwrap_or_default();
            "b-req-uncertified-request"
        }
        7 => {
            // the path may be percent-encoded differently
            let Some(segs) = req_segs(&m.req) else { return };
            if m.req.url.contains("//") && !m.req.url.starts_with("http") {
                return;
            }
            let q = m.req.url.split_once('?').map(|x| x.1.to_string());
            let p = path_str(&segs.iter().map(|s| enc_seg(s, ctx.src.seed())).collect::<Vec<_>>());
            let p = if p.is_empty() { "/".to_string() } else { p };
            m.req.url = p + &q.map(|q| format!("?{q}")).unwrap_or_default();
            "b-req-path-encoding"
        }
        8 => {
            let Some(i) = m.resp.headers.iter().position(|h| h.0.eq_ignore_ascii_case("ic-certificate")) else { return };
            let v = m.resp.headers[i].1.clone();
            let mut f: Vec<&str> = v.split(", ").collect();
            let k = ctx.src.idx(f.len());
            f.rotate_left(k);
            m.resp.headers[i].1 = f.join(*ctx.src.pick(&[", ", ","]));
            "b-field-order"
        }
        9 => {
            // an unknown field is ignored
            let Some(i) = m.resp.headers.iter().position(|h| h.0.eq_ignore_ascii_case("ic-certificate")) else { return };
            let v = m.resp.headers[i].1.clone();
            m.resp.headers[i].1 = format!("{v}, extra=:AAAA:");
            "b-field-unknown"
        }
        _ => {
            // a replica may reveal more or less of the trees, as long as the proof stands
            let Some(mut ev) = ev_of(m) else { return };
            let Some(full) = w.full(ctx, m.snap) else { return };
            if full.digest() != ev.tree.digest() {
                return;
            }
            let segs = req_segs(&m.req).unwrap_or_default();
            match (ctx.src.draw(3), &m.entry) {
                (0, _) => ev.tree = T::merge(&full, &ev.tree),
                (1, Some(e)) => ev.tree = T::merge(&full, &ev.tree).prove(&needed(e, &segs), false),
                (2, Some(_)) => {
                    let c = w.cert(ctx, m.snap, false);
                    ev.cert = c;
                }
                _ => return,
            }
            set_ev(m, &ev);
            "b-resp-reveal"
        }
    };
    ctx.stat(&format!("noise.{name}"));
    m.muts.push(name);
}

fn note(ctx: &mut Ctx, m: &mut Msg, name: &'static str) {
    ctx.stat(&format!("attack.{name}"));
    m.benign = false;
    m.muts.push(name);
}

const GROUPS: [&str; 9] = ["resp", "cel", "path", "tree", "cert", "forge", "version", "req", "splice"];

pub fn tamper(ctx: &mut Ctx, w: &mut World, m: &mut Msg) {
    let wt: [u32; 9] = match w.profile.as_str() {
        //        resp cel path tree cert forge ver req splice
        "C01" => [14, 8, 8, 8, 8, 8, 2, 10, 20],
        "C03" => [2, 2, 18, 22, 2, 2, 1, 12, 40],
        "C04" => [4, 4, 4, 4, 2, 2, 1, 50, 20],
        "C05" => [50, 10, 4, 4, 2, 2, 1, 4, 20],
        "C06" => [10, 40, 10, 8, 2, 4, 2, 6, 20],
        "C08" => [2, 1, 1, 4, 30, 50, 1, 1, 12],
        "C11" => [40, 1, 2, 10, 6, 4, 6, 16, 16],
        "C12" => [6, 2, 2, 4, 4, 2, 60, 4, 10],
        _ => [12, 8, 8, 10, 10, 10, 6, 10, 14],
    };
    match GROUPS[ctx.src.weighted(&wt)] {
        "resp" => t_resp(ctx, w, m),
        "cel" => t_cel(ctx, w, m),
        "path" => t_path(ctx, w, m),
        "tree" => t_tree(ctx, w, m),
        "cert" => t_cert(ctx, w, m),
        "forge" => t_forge(ctx, w, m),
        "version" => t_version(ctx, w, m),
        "req" => t_req(ctx, w, m),
        _ => t_splice(ctx, w, m),
    }
}

fn t_resp(ctx: &mut Ctx, w: &mut World, m: &mut Msg) {
    let names: Vec<usize> = (0..m.resp.headers.len())
        .filter(|i| !m.resp.headers[*i].0.to_ascii_lowercase().starts_with("ic-certificate"))
        .collect();
    match ctx.src.draw(13) {
        0 => {
            m.resp.status = *ctx.src.pick(&[200u16, 201, 404, 206, 500, 302]);
            note(ctx, m, "status");
        }
        1 => {
            if m.resp.body.is_empty() {
                m.resp.body = b"x".to_vec();
            } else {
                let i = ctx.src.idx(m.resp.body.len());
                let v = m.resp.body[i] ^ (1 << ctx.src.draw(8));
                m.resp.body[i] = v;
            }
            note(ctx, m, "body-flip");
        }
        2 => {
            let n = ctx.src.idx(m.resp.body.len() + 1);
            m.resp.body.truncate(n);
            note(ctx, m, "body-truncated");
        }
        3 => {
            m.resp.body.push(0);
            note(ctx, m, "body-extended");
        }
        4 => {
            // body of another entry or asset
            let s: Vec<usize> = (0..w.snaps.len()).collect();
            if s.is_empty() {
                return;
            }
            let s = *ctx.src.pick(&s);
            let sn = &w.snaps[s];
            let mut b: Vec<Vec<u8>> = sn.entries.iter().map(|e| e.resp.body.clone()).collect();
            b.extend(sn.v1.values().cloned());
            if b.is_empty() {
                return;
            }
            m.resp.body = ctx.src.pick(&b).clone();
            note(ctx, m, "body-swapped");
        }
        5 if !names.is_empty() => {
            let i = *ctx.src.pick(&names);
            m.resp.headers.remove(i);
            note(ctx, m, "header-removed");
        }
        6 if !names.is_empty() => {
            let i = *ctx.src.pick(&names);
            m.resp.headers[i].1 += "x";
            note(ctx, m, "header-changed");
        }
        7 if !names.is_empty() => {
            let i = *ctx.src.pick(&names);
            let h = m.resp.headers[i].clone();
            let v = if ctx.src.chance(1, 2) { h.1 } else { "injected".to_string() };
            let at = ctx.src.idx(m.resp.headers.len() + 1);
            let n = flip_case(&h.0, ctx.src.seed());
            m.resp.headers.insert(at, (n, v));
            note(ctx, m, "header-duplicated");
        }
        8 => {
            let n = match cel_of(m).as_ref().and_then(resp_cert) {
                Some(RespCert::Include(l)) | Some(RespCert::Exclude(l)) if !l.is_empty() => ctx.src.pick(l).clone(),
                _ => ctx.src.pick(&HDR_POOL).to_string(),
            };
            let at = ctx.src.idx(m.resp.headers.len() + 1);
            m.resp.headers.insert(at, (n, "injected".into()));
            note(ctx, m, "header-injected");
        }
        9 => {
            // a name that only looks like a covered one
            let at = ctx.src.idx(m.resp.headers.len() + 1);
            let n = format!("{}{}", ctx.src.pick(&HDR_POOL), ctx.src.pick(&[" ", "_", "-2", "s"]));
            m.resp.headers.insert(at, (n.trim().to_string(), "look-alike".into()));
            note(ctx, m, "header-look-alike");
        }
        10 => {
            let e = *ctx.src.pick(&["gzip", "deflate", "identity", "br", "GZIP"]);
            if ctx.src.chance(1, 2) {
                m.resp.headers.retain(|h| !h.0.eq_ignore_ascii_case("content-encoding"));
            }
            m.resp.headers.push(("Content-Encoding".into(), e.into()));
            if ctx.src.chance(1, 2) {
                m.resp.body = if e == "deflate" { deflate(&m.resp.body) } else { gzip(&m.resp.body) };
            }
            note(ctx, m, "content-encoding");
        }
        11 => {
            m.resp.headers.retain(|h| !h.0.eq_ignore_ascii_case("content-encoding"));
            note(ctx, m, "content-encoding-removed");
        }
        _ if names.len() > 1 => {
            // values swapped between two headers
            let i = *ctx.src.pick(&names);
            let j = *ctx.src.pick(&names);
            let (a, b) = (m.resp.headers[i].1.clone(), m.resp.headers[j].1.clone());
            m.resp.headers[i].1 = b;
            m.resp.headers[j].1 = a;
            note(ctx, m, "header-values-swapped");
        }
        _ => {}
    }
}

fn some_entry(ctx: &mut Ctx, w: &World, canister: Option<usize>) -> Option<(usize, Rc<Entry>)> {
    let mut v: Vec<(usize, Rc<Entry>)> = vec![];
    for (i, s) in w.snaps.iter().enumerate() {
        if canister.map(|c| c == s.canister).unwrap_or(true) {
            v.extend(s.entries.iter().map(|e| (i, e.clone())));
        }
    }
    if v.is_empty() {
        None
    } else {
        Some(ctx.src.pick(&v).clone())
    }
}

fn t_cel(ctx: &mut Ctx, w: &mut World, m: &mut Msg) {
    let name = "IC-CertificateExpression";
    let cur = header(&m.resp.headers, name).unwrap_or("").to_string();
    match ctx.src.draw(8) {
        0 => {
            let Some((_, e)) = some_entry(ctx, w, None) else { return };
            set_header(&mut m.resp, name, e.cel_str.clone());
            note(ctx, m, "cel-swapped");
        }
        1 => {
            let s = if ctx.src.chance(1, 2) { Cel::Skip.print() } else { real_cel_string(&Cel::Skip) };
            set_header(&mut m.resp, name, s);
            note(ctx, m, "cel-skip");
        }
        2 => {
            // both the genuine and a skip expression, in either order
            let s = real_cel_string(&Cel::Skip);
            let v = if ctx.src.chance(1, 2) { vec![cur, s] } else { vec![s, cur] };
            m.resp.headers.retain(|h| !h.0.eq_ignore_ascii_case(name));
            for x in v {
                let at = ctx.src.idx(m.resp.headers.len() + 1);
                m.resp.headers.insert(at, (name.to_string(), x));
            }
            m.opaque = true;
            note(ctx, m, "cel-duplicated");
        }
        3 => {
            // certify less: fewer headers, or no request
            let Some(c) = cel::parse(&cur) else { return };
            let c = match c {
                Cel::Full { resp, headers, query } => {
                    if ctx.src.chance(1, 2) {
                        Cel::Response(resp)
                    } else {
                        Cel::Full { resp: RespCert::Include(vec![]), headers, query }
                    }
                }
                Cel::Response(_) => Cel::Response(RespCert::Include(vec![])),
                Cel::Skip => return,
            };
            let s = if ctx.src.chance(1, 2) { c.print() } else { real_cel_string(&c) };
            set_header(&mut m.resp, name, s);
            note(ctx, m, "cel-weakened");
        }
        4 => {
            set_header(&mut m.resp, name, format!(" {cur}"));
            note(ctx, m, "cel-whitespace");
        }
        5 => {
            m.resp.headers.retain(|h| !h.0.eq_ignore_ascii_case(name));
            note(ctx, m, "cel-removed");
        }
        6 => {
            let s = cur.replace("no_request_certification: Empty {}", "no_certification: Empty {}");
            set_header(&mut m.resp, name, s);
            m.opaque = true;
            note(ctx, m, "cel-edited");
        }
        _ => {
            let Some(e) = w.canisters.get(m.canister).and_then(|c| c.dead.first().cloned()) else { return };
            set_header(&mut m.resp, name, e.cel_str.clone());
            note(ctx, m, "cel-of-deleted");
        }
    }
}

fn expr_path(segs: &[String], term: &str) -> Vec<String> {
    let mut p = vec!["http_expr".to_string()];
    p.extend(segs.iter().cloned());
    p.push(term.into());
    p
}

fn t_path(ctx: &mut Ctx, w: &mut World, m: &mut Msg) {
    let Some(mut ev) = ev_of(m) else { return };
    let segs = req_segs(&m.req).unwrap_or_default();
    let name = match ctx.src.draw(8) {
        0 => {
            let Some((_, e)) = some_entry(ctx, w, Some(m.canister)) else { return };
            ev.expr_path = Some(e.expr_path());
            "path-of-other-entry"
        }
        1 => {
            ev.expr_path = Some(expr_path(&segs, "<$>"));
            "path-exact-of-request"
        }
        2 => {
            let c = wildcard_candidates(&segs);
            let c = ctx.src.pick(&c).clone();
            ev.expr_path = Some(expr_path(&c, "<*>"));
            "path-wildcard-of-request"
        }
        3 => {
            let Some(p) = &mut ev.expr_path else { return };
            let n = ctx.src.idx(p.len() + 1);
            p.truncate(n);
            "path-truncated"
        }
        4 => {
            let Some(p) = &mut ev.expr_path else { return };
            let i = ctx.src.idx(p.len() + 1);
            let x = ctx.src.pick(&["", "a", "<*>", "<$>", "http_expr"]).to_string();
            p.insert(i, x);
            "path-extended"
        }
        5 => {
            let Some(p) = &mut ev.expr_path else { return };
            if let Some(l) = p.last_mut() {
                *l = if l == "<$>" { "<*>".into() } else { "<$>".into() };
            }
            "path-terminator"
        }
        6 => {
            ev.expr_path = None;
            "path-removed"
        }
        _ => {
            let Some(p) = &mut ev.expr_path else { return };
            if p.len() > 1 {
                let i = ctx.src.idx(p.len());
                p.remove(i);
            }
            "path-segment-removed"
        }
    };
    if ev.expr_path.as_ref().map(|p| p.is_empty()).unwrap_or(true) {
        m.opaque = true;
    }
    set_ev(m, &ev);
    note(ctx, m, name);
}

fn rand_prune(ctx: &mut Ctx, t: &T) -> T {
    let mut r = crate::prng::Prng::new(ctx.src.seed());
    let d = 2 + ctx.src.draw(12);
    t.prune(&mut |_| r.below(d) == 0)
}

fn t_tree(ctx: &mut Ctx, w: &mut World, m: &mut Msg) {
    let Some(mut ev) = ev_of(m) else { return };
    let name = match ctx.src.draw(9) {
        0 => {
            let Some(f) = w.full(ctx, m.snap) else { return };
            ev.tree = f;
            "tree-full"
        }
        1 => {
            ev.tree = rand_prune(ctx, &ev.tree.clone());
            "tree-pruned"
        }
        2 => {
            let Some(f) = w.full(ctx, m.snap) else { return };
            ev.tree = rand_prune(ctx, &f);
            "tree-full-pruned"
        }
        3 => {
            // only the presented entry, hiding everything that could be better
            let p = match &m.entry {
                Some(e) => e.tree_path(),
                None => return,
            };
            let Some(f) = w.full(ctx, m.snap) else { return };
            ev.tree = T::merge(&f, &ev.tree).reveal(&[p]);
            "tree-only-entry"
        }
        4 | 5 => {
            // other state of the same canister (with its own or the current certificate)
            let v: Vec<usize> = (0..w.snaps.len()).filter(|i| w.snaps[*i].canister == m.canister).collect();
            if v.is_empty() {
                return;
            }
            let s = *ctx.src.pick(&v);
            let Some(f) = w.full(ctx, s) else { return };
            ev.tree = f;
            if ctx.src.chance(1, 2) {
                ev.cert = w.cert(ctx, s, true);
                m.snap = s;
                "tree-and-cert-other-state"
            } else {
                "tree-other-state"
            }
        }
        6 => {
            if w.snaps.is_empty() {
                return;
            }
            let s = ctx.src.idx(w.snaps.len());
            let Some(f) = w.full(ctx, s) else { return };
            ev.tree = f;
            "tree-other-canister"
        }
        7 => {
            // structural tricks that keep or nearly keep the digest
            ev.tree = match ctx.src.draw(4) {
                0 => fork(ev.tree.clone(), T::Empty),
                1 => T::Pruned(ev.tree.digest()),
                2 => fork(T::Empty, ev.tree.clone()),
                _ => lab(b"", ev.tree.clone()),
            };
            "tree-wrapped"
        }
        _ => {
            // graft the presented entry's path into the tree next to the genuine root
            let Some(e) = &m.entry else { return };
            let evil = crate::refimpl::rtree::from_paths(&[(e.tree_path(), vec![])]);
            ev.tree = if ctx.src.chance(1, 2) { fork(evil, ev.tree.clone()) } else { fork(ev.tree.clone(), evil) };
            "tree-grafted"
        }
    };
    set_ev(m, &ev);
    note(ctx, m, name);
}

fn t_cert(ctx: &mut Ctx, w: &mut World, m: &mut Msg) {
    let Some(mut ev) = ev_of(m) else { return };
    let name = match ctx.src.draw(19) {
        0 => {
            let v: Vec<usize> = (0..w.snaps.len()).filter(|i| w.snaps[*i].canister == m.canister).collect();
            if v.is_empty() {
                return;
            }
            let s = *ctx.src.pick(&v);
            ev.cert = w.cert(ctx, s, true);
            "cert-other-time"
        }
        1 => {
            if w.snaps.is_empty() {
                return;
            }
            let s = ctx.src.idx(w.snaps.len());
            let min = ctx.src.chance(1, 2);
            ev.cert = w.cert(ctx, s, min);
            "cert-other-canister"
        }
        2 => {
            ev.cert.delegation = None;
            "delegation-stripped"
        }
        3 => {
            let s = ctx.src.idx(w.subnets.len());
            if w.delegations[s].is_none() {
                return;
            }
            ev.cert.delegation = w.delegations[s].clone();
            "delegation-other-subnet"
        }
        4 => {
            let s = ctx.src.idx(w.subnets.len());
            let id = w.subnets[s].id.clone();
            let Some(d) = &mut ev.cert.delegation else { return };
            d.0 = id;
            "delegation-subnet-id"
        }
        5 => {
            let i = ctx.src.idx(ev.cert.sig.len().max(1));
            if ev.cert.sig.is_empty() {
                return;
            }
            ev.cert.sig[i] ^= 1 << ctx.src.draw(8);
            // bytes that are no curve point at all are C10's business
            "signature-flipped"
        }
        6 => {
            ev.cert.sig = match ctx.src.draw(5) {
                0 => vec![],
                1 => vec![0; 48],
                2 => {
                    let mut v = vec![0u8; 48];
                    v[0] = 0xc0; // the point at infinity
                    v
                }
                3 => ev.cert.sig[..47.min(ev.cert.sig.len())].to_vec(),
                _ => {
                    let mut s = ev.cert.sig.clone();
                    s.push(0);
                    s
                }
            };
            m.opaque = true;
            "signature-degenerate"
        }
        7 => {
            // signature of another certificate
            if w.snaps.is_empty() {
                return;
            }
            let s = ctx.src.idx(w.snaps.len());
            ev.cert.sig = w.cert(ctx, s, true).sig;
            "signature-swapped"
        }
        8 => {
            let now = w.now;
            let t = set_time(&ev.cert.tree, now);
            ev.cert.tree = t;
            "cert-time-edited"
        }
        9 => {
            let c = ev.cert.tree.clone();
            ev.cert.tree = rand_prune(ctx, &c);
            "cert-pruned"
        }
        10 => {
            // nest the delegation: the delegation certificate is itself delegated
            let Some(d) = &ev.cert.delegation else { return };
            let Some(mut dc) = Cert::decode(&d.1) else { return };
            let s = ctx.src.idx(w.subnets.len());
            let Some(inner) = w.delegations[s].clone() else { return };
            dc.delegation = Some(inner);
            ev.cert.delegation = Some((d.0.clone(), dc.encode()));
            "delegation-nested"
        }
        11 => {
            // widen the ranges in the delegation
            let Some(d) = &ev.cert.delegation else { return };
            let Some(mut dc) = Cert::decode(&d.1) else { return };
            dc.tree = edit_leaf(&dc.tree, b"canister_ranges", &ic::ranges_cbor(&[(canister_id(0), canister_id(u64::MAX >> 1))]));
            ev.cert.delegation = Some((d.0.clone(), dc.encode()));
            "delegation-ranges-edited"
        }
        12 => {
            let Some(d) = &ev.cert.delegation else { return };
            let Some(mut dc) = Cert::decode(&d.1) else { return };
            dc.tree = edit_leaf(&dc.tree, b"public_key", &keys()[K_EVIL].der());
            ev.cert.sig = sign_ledger(ctx, w, K_EVIL, &ev.cert.tree);
            ev.cert.delegation = Some((d.0.clone(), dc.encode()));
            "delegation-key-edited"
        }
        13 => {
            // certified data edited
            ev.cert.tree = edit_leaf(&ev.cert.tree, b"certified_data", &ev.tree.digest());
            "cert-data-edited"
        }
        14 => {
            // same tree signed with the wrong domain or a foreign key
            let k = *ctx.src.pick(&[K_EVIL, K_EVIL_ROOT]);
            ev.cert.sig = sign_ledger(ctx, w, k, &ev.cert.tree);
            "cert-foreign-key"
        }
        15 => {
            let Some(d) = &ev.cert.delegation else { return };
            let Some(mut dc) = Cert::decode(&d.1) else { return };
            dc.sig = sign_ledger(ctx, w, K_EVIL_ROOT, &dc.tree);
            ev.cert.delegation = Some((d.0.clone(), dc.encode()));
            "delegation-foreign-root"
        }
        16 => {
            let Some(d) = &ev.cert.delegation else { return };
            let Some(mut dc) = Cert::decode(&d.1) else { return };
            let p = dc.tree.clone();
            dc.tree = rand_prune(ctx, &p);
            ev.cert.delegation = Some((d.0.clone(), dc.encode()));
            "delegation-pruned"
        }
        17 => {
            let Some(d) = &ev.cert.delegation else { return };
            let Some(mut dc) = Cert::decode(&d.1) else { return };
            std::mem::swap(&mut dc.sig, &mut ev.cert.sig);
            ev.cert.delegation = Some((d.0.clone(), dc.encode()));
            "signatures-exchanged"
        }
        _ => {
            // graft certified data of the victim into a certificate that lacks it
            let id = w.canisters[m.canister].id.clone();
            let evil = lab(b"canister", lab(&id, lab(b"certified_data", T::Leaf(ev.tree.digest().to_vec()))));
            ev.cert.tree = fork(evil, ev.cert.tree.clone());
            "cert-grafted"
        }
    };
    set_ev(m, &ev);
    note(ctx, m, name);
}

fn sign_ledger(ctx: &mut Ctx, w: &World, key: usize, t: &T) -> Vec<u8> {
    w.ledger.sign(ctx, key, &t.digest())
}

pub fn edit_leaf(t: &T, label: &[u8], val: &[u8]) -> T {
    match t {
        T::Fork(a, b) => fork(edit_leaf(a, label, val), edit_leaf(b, label, val)),
        T::Labeled(l, s) if l == label && matches!(**s, T::Leaf(_)) => lab(l, T::Leaf(val.to_vec())),
        T::Labeled(l, s) => lab(l, edit_leaf(s, label, val)),
        t => t.clone(),
    }
}
fn set_time(t: &T, now: u64) -> T {
    edit_leaf(t, b"time", &crate::refimpl::hashes::leb128(now as u128))
}

/// Expressions outside of the specified form: contradictory, incomplete or of another kind.
fn odd_cel(ctx: &mut Ctx) -> String {
    let rl = |n: &str, l: &str| format!("{n}:ResponseHeaderList{{headers:[{l}]}}");
    let rc = |s: &str| format!("response_certification:ResponseCertification{{{s}}}");
    let (inc, exc) = (rl("certified_response_headers", ""), rl("response_header_exclusions", ""));
    let one = rc(if ctx.src.chance(1, 2) { &inc } else { &exc });
    let (norq, rq) = (
        "no_request_certification:Empty{}",
        "request_certification:RequestCertification{certified_request_headers:[],certified_query_parameters:[]}",
    );
    let skip = "no_certification:Empty{}";
    let f = |s: String| format!("default_certification(ValidationArgs{{{s}}})");
    let c = |s: String| format!("certification:Certification{{{s}}}");
    match ctx.src.draw(14) {
        0 => f(String::new()),
        1 => f(format!("{skip},{}", c(format!("{norq},{one}")))),
        2 => f(format!("{},{skip}", c(format!("{norq},{one}")))),
        3 => f(c(format!("{norq},{rq},{one}"))),
        4 => f(c(format!("{rq},{norq},{one}"))),
        5 => f(c(one)),
        6 => f(c(norq.into())),
        7 => f(c(format!("{norq},{}", rc(&format!("{inc},{exc}"))))),
        8 => f(c(format!("{norq},{}", rc("")))),
        9 => format!("other_certification(ValidationArgs{{{skip}}})"),
        10 => f(String::new()).replace("ValidationArgs{}", ""),
        11 => f(c(String::new())),
        12 => f(format!("No_Certification:Empty{{}}")),
        _ => String::new(),
    }
}

/// The attacker writes content of his own and tries to get it vouched for.
fn t_forge(ctx: &mut Ctx, w: &mut World, m: &mut Msg) {
    let id = w.canisters[m.canister].id.clone();
    let segs = req_segs(&m.req).unwrap_or_default();
    let now = (w.gw_now(m.gw) as u64).max(1);
    // content
    let as_v1 = ctx.src.chance(1, 4);
    let (tree, resp, path);
    let mut odd = false;
    if as_v1 {
        let p = crate::refimpl::url::split(&m.req.url).map(|p| p.path).unwrap_or_default();
        let mut v = std::collections::BTreeMap::new();
        v.insert(p, b"evil".to_vec());
        tree = World::v1_tree(&v);
        resp = Resp { status: 200, headers: vec![], body: b"evil".to_vec() };
        path = None;
    } else {
        let c = match ctx.src.draw(3) {
            0 => Cel::Skip,
            1 => Cel::Response(RespCert::Include(vec![])),
            _ => Cel::Response(RespCert::Exclude(vec![])),
        };
        if c != Cel::Skip && ctx.src.chance(1, 4) {
            odd = true;
        }
        let s = if odd { odd_cel(ctx) } else { c.print() };
        let e = Entry {
            segs: segs.clone(),
            wild: false,
            cel: c,
            cel_str: s.clone(),
            req: None,
            resp: Resp {
                status: 200,
                headers: vec![("IC-CertificateExpression".into(), s)],
                body: b"evil".to_vec(),
            },
        };
        tree = full_tree(&[e.clone()]);
        resp = e.resp.clone();
        path = Some(e.expr_path());
    }
    let root = tree.digest().to_vec();
    let victim = w.canisters[m.canister].subnet;
    let vsub = w.subnets[victim].clone();
    let rogue = w.subnets.len() - 1;
    let rsub = w.subnets[rogue].clone();
    let noise = ctx.src.chance(1, 2);
    let state = ic::canister_state(now, &[(id.clone(), root.clone())], noise);
    let deleg = |key: usize, subnet: &[u8], pk: usize, ranges: Vec<u8>, ctx: &mut Ctx, w: &World, inner: Option<(Vec<u8>, Vec<u8>)>| {
        let t = fork(
            lab(
                b"subnet",
                lab(
                    subnet,
                    balanced(vec![
                        (b"canister_ranges".to_vec(), T::Leaf(ranges)),
                        (b"public_key".to_vec(), T::Leaf(keys()[pk].der())),
                    ]),
                ),
            ),
            lab(b"time", T::Leaf(crate::refimpl::hashes::leb128(now as u128))),
        );
        let sig = w.ledger.sign(ctx, key, &t.digest());
        (subnet.to_vec(), Cert { tree: t, sig, delegation: inner }.encode())
    };
    let all = ic::ranges_cbor(&[(canister_id(0), canister_id(u64::MAX >> 1))]);
    let mut cert = Cert { tree: state, sig: vec![], delegation: None };
    let signer;
    let how = if odd { 17 } else { ctx.src.draw(17) };
    let name = match how {
        17 => {
            // the canister itself certified an expression that says two things at once, or nothing
            signer = if vsub.root { K_ROOT } else { vsub.key };
            cert.delegation = w.delegations[victim].clone();
            "forge-odd-expression"
        }
        15 => {
            // the victim's own subnet signed these bytes, but in another domain
            signer = usize::MAX;
            cert.delegation = w.delegations[victim].clone();
            let d = cert.tree.digest();
            let msg = match ctx.src.draw(5) {
                0 => d.to_vec(),
                1 => [b"ic-state-root".as_slice(), &d].concat(),
                2 => [b"\x0Aic-request".as_slice(), &d].concat(),
                3 => [b"\x0Cic-state-tree".as_slice(), &d].concat(),
                _ => [b"\x0Dic-state-root".as_slice(), &d[..31]].concat(),
            };
            cert.sig = ic::sign_msg(if vsub.root { K_ROOT } else { vsub.key }, &msg);
            "forge-other-domain"
        }
        16 if !vsub.root => {
            // the canister's own subnet delegates on to another key, in its own name
            signer = K_EVIL;
            let inner = w.delegations[victim].clone();
            cert.delegation = Some(deleg(vsub.key, &vsub.id, K_EVIL, ic::ranges_cbor(&vsub.ranges), ctx, w, inner));
            "forge-nested-own"
        }
        13 | 14 => {
            // the canister's own certificate, of any state, around a tree of the network's
            signer = usize::MAX;
            let v: Vec<usize> = (0..w.snaps.len()).filter(|i| w.snaps[*i].canister == m.canister).collect();
            if v.is_empty() {
                return;
            }
            let s = *ctx.src.pick(&v);
            let min = ctx.src.chance(1, 2);
            cert = w.cert(ctx, s, min);
            "forge-tree"
        }
        0 => {
            signer = K_EVIL;
            "forge-unsigned-chain"
        }
        1 => {
            signer = K_EVIL;
            cert.delegation = w.delegations[victim].clone();
            "forge-victims-delegation"
        }
        2 | 3 => {
            signer = K_EVIL;
            cert.delegation = w.delegations[rogue].clone();
            "forge-rogue-subnet"
        }
        4 => {
            signer = K_EVIL;
            cert.delegation = Some(deleg(K_EVIL_ROOT, &vsub.id, K_EVIL, all, ctx, w, None));
            "forge-evil-root"
        }
        5 => {
            // rogue subnet delegates on
            signer = K_EVIL_ROOT;
            let inner = w.delegations[rogue].clone();
            cert.delegation = Some(deleg(K_EVIL, &vsub.id, K_EVIL_ROOT, all, ctx, w, inner));
            "forge-nested-delegation"
        }
        6 => {
            signer = K_EVIL;
            let Some(d) = w.delegations[rogue].clone() else { return };
            cert.delegation = Some((vsub.id.clone(), d.1));
            "forge-subnet-id-of-victim"
        }
        7 => {
            // a root-signed state that shows every subnet, naming the rogue one
            signer = K_EVIL;
            let t = ic::subnet_state(w.now, &w.subnets);
            let c = ic::seal(ctx, &w.ledger, K_ROOT, t, None);
            let sid = if ctx.src.chance(2, 3) { rsub.id.clone() } else { vsub.id.clone() };
            cert.delegation = Some((sid, c.encode()));
            "forge-whole-registry"
        }
        8 => {
            // rogue subnet, whose range ends right before / starts right after the victim
            signer = K_EVIL;
            let n = u64::from_be_bytes(id[..8].try_into().unwrap());
            let r = if ctx.src.chance(1, 2) && n > 0 {
                vec![(canister_id(0), canister_id(n - 1))]
            } else {
                vec![(canister_id(n + 1), canister_id(n + 100))]
            };
            let mut r2 = if n > 0 { [r, vec![(canister_id(n + 1), canister_id(n - 1))]].concat() } else { r };
            if ctx.src.chance(1, 3) {
                // many ranges, all beside the victim
                for k in 0..ctx.src.draw(40) {
                    r2.push((canister_id(n + 2 + 3 * k), canister_id(n + 3 + 3 * k)));
                }
            }
            if ctx.src.chance(1, 3) {
                // bounds of another length, outside in byte order and in length-first order
                let cut = id[..1 + ctx.src.idx(id.len() - 1)].to_vec();
                let (z, y) = ([&id[..], &[0]].concat(), [&id[..], &[255; 9]].concat());
                r2.extend([(cut.clone(), cut), (z, y)]);
            }
            cert.delegation = Some(deleg(K_ROOT, &rsub.id, K_EVIL, ic::ranges_cbor(&r2), ctx, w, None));
            "forge-neighbour-range"
        }
        9 => {
            // properly vouched data of the rogue's own canister, presented for the victim
            let own = w.subnets[rogue].ranges.first().map(|r| r.0.clone()).unwrap_or_else(|| canister_id(1 << 20));
            if own == id {
                return;
            }
            signer = K_EVIL;
            cert.tree = ic::canister_state(now, &[(own, root.clone())], noise);
            cert.delegation = w.delegations[rogue].clone();
            "forge-own-canister"
        }
        10 => {
            // signed by the subnet itself, but presented without the delegation
            signer = K_EVIL;
            cert.delegation = None;
            let d = w.delegations[rogue].clone();
            let sig = w.ledger.sign(ctx, K_EVIL, &cert.tree.digest());
            cert.sig = sig;
            let _ = d;
            "forge-subnet-key-as-root"
        }
        11 => {
            // signed with a genuine signature over something else
            signer = usize::MAX;
            if let Some(e) = ev_of(m) {
                cert.sig = e.cert.sig;
                cert.delegation = e.cert.delegation;
            }
            "forge-reused-signature"
        }
        _ => {
            // a delegation without ranges, or with an empty list
            signer = K_EVIL;
            let r = if ctx.src.chance(1, 2) { cbor::self_described(&Val::A(vec![])) } else { vec![] };
            cert.delegation = Some(deleg(K_ROOT, &rsub.id, K_EVIL, r, ctx, w, None));
            "forge-empty-ranges"
        }
    };
    if signer != usize::MAX {
        cert.sig = w.ledger.sign(ctx, signer, &cert.tree.digest());
    }
    let ev = Evidence { cert, tree, version: if path.is_some() { 2 } else { 1 }, expr_path: path };
    let mut r = resp;
    r.headers.push(("IC-Certificate".into(), ev.print()));
    m.resp = r;
    note(ctx, m, name);
}

fn t_version(ctx: &mut Ctx, w: &mut World, m: &mut Msg) {
    let Some(i) = m.resp.headers.iter().position(|h| h.0.eq_ignore_ascii_case("ic-certificate")) else { return };
    let v = m.resp.headers[i].1.clone();
    let strip = |v: &str| -> String {
        v.split(',').map(|x| x.trim()).filter(|x| !x.starts_with("version")).collect::<Vec<_>>().join(", ")
    };
    let vals = ["1", "2", "0", "3", "255", "256", "-1", "01", "02", "+2", "", "two", "2.0", ":2:", "18446744073709551617", "257", "258", "514", "65537", "65538", "4294967298"];
    let name = match ctx.src.draw(7) {
        0 | 1 => {
            let x = *ctx.src.pick(&vals);
            m.resp.headers[i].1 = format!("{}, version={x}", strip(&v));
            if !["1", "2", "0", "3", "255"].contains(&x) {
                m.opaque = true;
            }
            "version-changed"
        }
        2 => {
            m.resp.headers[i].1 = strip(&v);
            "version-dropped"
        }
        3 => {
            let x = *ctx.src.pick(&vals[..4]);
            m.resp.headers[i].1 = format!("version={x}, {v}");
            m.opaque = true;
            "version-duplicated-before"
        }
        4 => {
            let x = *ctx.src.pick(&vals[..4]);
            m.resp.headers[i].1 = format!("{v}, version={x}");
            m.opaque = true;
            "version-duplicated-after"
        }
        5 => {
            // present the same state under the other scheme
            let Some(mut ev) = ev_of(m) else { return };
            ev.version = if ev.version == 2 { 1 } else { 2 };
            if ev.version == 2 && ev.expr_path.is_none() {
                let segs = req_segs(&m.req).unwrap_or_default();
                ev.expr_path = Some(expr_path(&segs, "<$>"));
                if let Some((_, e)) = some_entry(ctx, w, Some(m.canister)) {
                    set_header(&mut m.resp, "IC-CertificateExpression", e.cel_str.clone());
                }
            }
            if let Some(f) = w.full(ctx, m.snap) {
                if f.digest() == ev.tree.digest() {
                    ev.tree = f;
                }
            }
            set_header(&mut m.resp, "IC-Certificate", ev.print());
            "version-scheme-switched"
        }
        _ => {
            let up = *ctx.src.pick(&["Version", "VERSION", " version", "versions"]);
            m.resp.headers[i].1 = v.replace("version", up);
            m.opaque = true;
            "version-field-renamed"
        }
    };
    note(ctx, m, name);
}

fn t_req(ctx: &mut Ctx, w: &mut World, m: &mut Msg) {
    let (base, q) = match m.req.url.split_once('?') {
        Some((b, q)) => (b.to_string(), Some(q.to_string())),
        None => (m.req.url.clone(), None),
    };
    let name = match ctx.src.draw(15) {
        0 => {
            m.req.method = ctx.src.pick(&["GET", "POST", "PUT", "HEAD", "get"]).to_string();
            "req-method"
        }
        1 => {
            if m.req.body.is_empty() || ctx.src.chance(1, 2) {
                m.req.body.push(b'!');
            } else {
                m.req.body.pop();
            }
            "req-body"
        }
        2 if !m.req.headers.is_empty() => {
            let i = ctx.src.idx(m.req.headers.len());
            m.req.headers[i].1 += "x";
            "req-header-changed"
        }
        3 if !m.req.headers.is_empty() => {
            let i = ctx.src.idx(m.req.headers.len());
            m.req.headers.remove(i);
            "req-header-removed"
        }
        4 => {
            let h = match (!m.req.headers.is_empty()).then(|| ctx.src.pick(&m.req.headers).clone()) {
                Some(h) if ctx.src.chance(1, 2) => h,
                _ => {
                    let known: Vec<String> = REQ_HDR_POOL.iter().map(|s| s.to_string()).collect();
                    match other_name(ctx, &known, "") {
                        Some(n) if ctx.src.chance(1, 3) => (n, "zz".to_string()),
                        _ => (ctx.src.pick(&REQ_HDR_POOL).to_string(), "zz".to_string()),
                    }
                }
            };
            let at = ctx.src.idx(m.req.headers.len() + 1);
            m.req.headers.insert(at, h);
            "req-header-added"
        }
        5 | 6 => {
            // query: drop, duplicate, reorder or alter a parameter; add one; drop all
            let mut ps: Vec<String> = q.clone().map(|q| q.split('&').map(String::from).collect()).unwrap_or_default();
            match ctx.src.draw(6) {
                0 if !ps.is_empty() => {
                    let i = ctx.src.idx(ps.len());
                    ps.remove(i);
                }
                1 if !ps.is_empty() => {
                    let i = ctx.src.idx(ps.len());
                    let p = ps[i].clone();
                    ps.push(p);
                }
                2 => ps.reverse(),
                3 if !ps.is_empty() => {
                    let i = ctx.src.idx(ps.len());
                    ps[i] += "1";
                }
                4 => ps.push(format!("{}=9", ctx.src.pick(&QUERY_POOL[..4]))),
                _ => ps.clear(),
            }
            m.req.url = if ps.is_empty() && ctx.src.chance(1, 2) { base } else { format!("{base}?{}", ps.join("&")) };
            "req-query"
        }
        7 | 8 | 9 => {
            // another path: below, above, sibling, trailing slash
            let Some(mut s) = req_segs(&m.req) else { return };
            match ctx.src.draw(6) {
                0 => {
                    if s.last().map(|x| x.is_empty()).unwrap_or(false) {
                        s.pop();
                    } else {
                        s.push(String::new());
                    }
                }
                1 => {
                    s.pop();
                }
                2 => s.push("a".into()),
                3 => {
                    s.pop();
                    s.push("b".into());
                }
                4 => {
                    if let Some(l) = s.iter_mut().find(|x| !x.is_empty()) {
                        *l = format!("{l}x");
                    }
                }
                _ => {
                    let Some((_, e)) = some_entry(ctx, w, Some(m.canister)) else { return };
                    s = segs_for(ctx, &e);
                }
            }
            let n = s.len();
            let s: Vec<String> = s.into_iter().enumerate().filter(|(i, x)| !x.is_empty() || i + 1 == n).map(|x| x.1).collect();
            m.req.url = url_for(ctx, &s, q);
            "req-path"
        }
        10 => {
            // the request of another certified entry
            let Some((_, e)) = some_entry(ctx, w, Some(m.canister)) else { return };
            let s = segs_for(ctx, &e);
            m.req = request_for(ctx, &e, &s);
            "req-of-other-entry"
        }
        11 => {
            let Some(s) = req_segs(&m.req) else { return };
            let f = ctx.src.seed();
            let s: Vec<String> = s.iter().map(|x| flip_case(x, f)).collect();
            m.req.url = url_for(ctx, &s, q);
            "req-path-case"
        }
        12 if w.canisters.len() > 1 => {
            m.canister = ctx.src.idx(w.canisters.len());
            "req-other-canister"
        }
        13 => {
            // percent-encoded twice, or decoded once more than the client did
            let at = m.req.url.find("://").map_or(0, |i| i + 3 + m.req.url[i + 3..].find('/').unwrap_or(m.req.url.len() - i - 3));
            let (host, path) = m.req.url.split_at(at);
            let path = match ctx.src.draw(3) {
                0 => path.replace('%', "%25"),
                1 => path.replace("%25", "%"),
                _ => path.replacen("a", "%2561", 1),
            };
            m.req.url = format!("{host}{path}");
            "req-path-recoded"
        }
        _ => {
            // doubled separators and dots
            m.req.url = format!("{}{}", base.trim_end_matches('/'), ctx.src.pick(&["//", "/./", "/%2F", "/%2e", "/.."]));
            "req-path-odd"
        }
    };
    note(ctx, m, name);
}

/// Evidence for any entry any canister ever certified, presented for this request.
fn t_splice(ctx: &mut Ctx, w: &mut World, m: &mut Msg) {
    let cross = ctx.src.chance(1, 6);
    if !cross && w.canisters[m.canister].kind == Kind::V1 {
        return t_splice_v1(ctx, w, m);
    }
    let Some((snap, e)) = some_entry(ctx, w, if cross { None } else { Some(m.canister) }) else {
        return t_splice_v1(ctx, w, m);
    };
    let Some(full) = w.full(ctx, snap) else { return };
    // a request this entry could match by prefix makes the attempt interesting
    if ctx.src.chance(1, 2) {
        let mut s = segs_for(ctx, &e);
        // a request which a more specific entry answers
        if e.wild && ctx.src.chance(1, 2) {
            let below: Vec<_> = w.snaps[snap].entries.iter().filter(|f| f.segs != e.segs && wildcard_matches(&e.segs, &f.segs)).cloned().collect();
            if !below.is_empty() {
                let f = ctx.src.pick(&below).clone();
                s = segs_for(ctx, &f);
                // far below it
                if f.wild && ctx.src.chance(1, 3) {
                    let slash = s.last().map(|x| x.is_empty()).unwrap_or(false);
                    if slash {
                        s.pop();
                    }
                    for _ in 0..6 + ctx.src.draw(16) {
                        s.push(ctx.src.pick(&SEG_POOL[..5]).to_string());
                    }
                    if slash {
                        s.push(String::new());
                    }
                    ctx.stat("attack.far_below_a_wildcard");
                }
            }
        }
        // the directory itself, named without its slash
        if e.wild && e.segs.len() > 1 && e.segs.last().unwrap().is_empty() && ctx.src.chance(1, 3) {
            s = e.segs.clone();
            s.pop();
            ctx.stat("attack.directory_without_slash");
        }
        m.req = request_for(ctx, &e, &s);
        if ctx.src.chance(1, 3) {
            t_req(ctx, w, m);
        }
    }
    let segs = req_segs(&m.req).unwrap_or_default();
    let cert_snap = if ctx.src.chance(1, 6) {
        let v: Vec<usize> = (0..w.snaps.len()).filter(|i| w.snaps[*i].canister == m.canister).collect();
        if v.is_empty() {
            snap
        } else {
            *ctx.src.pick(&v)
        }
    } else {
        snap
    };
    let min = ctx.src.chance(1, 2);
    let cert = w.cert(ctx, cert_snap, min);
    let tree = match ctx.src.draw(6) {
        0 => full.clone(),
        1 => full.reveal(&[e.tree_path()]),
        2 => full.prove(&needed(&e, &segs), false),
        3 => {
            // show everything that must be absent except one item
            let mut n = needed(&e, &segs);
            if n.len() > 1 {
                let i = 1 + ctx.src.idx(n.len() - 1);
                n.remove(i);
            }
            full.prove(&n, false)
        }
        4 => {
            let p = full.prove(&needed(&e, &segs), false);
            rand_prune(ctx, &p)
        }
        _ => {
            // the library's own witness for that entry, made for another request path
            let sn = &w.snaps[snap];
            if w.canisters[sn.canister].kind == Kind::V2 {
                let s = segs_for(ctx, &e);
                let p = path_str(&s);
                let (tree, e2) = (w.snaps[snap].tree.clone(), e.clone());
                let p = if p.is_empty() { "/".into() } else { p };
                match ctx.sut(&["C13"], "witness", move || tree.witness(&real_entry(&e2), &p)) {
                    Some(Ok(t)) => to_ref(&t),
                    _ => full.clone(),
                }
            } else {
                full.clone()
            }
        }
    };
    let path = match ctx.src.draw(8) {
        0 => expr_path(&segs, "<$>"),
        1 => {
            let c = wildcard_candidates(&segs);
            expr_path(&ctx.src.pick(&c)[..], "<*>")
        }
        _ => e.expr_path(),
    };
    let ev = Evidence { cert, tree, version: 2, expr_path: Some(path) };
    let mut r = e.resp.clone();
    if ctx.src.chance(1, 8) {
        // keep the presented content, take only the evidence
        r = m.resp.clone();
        r.headers.retain(|h| !h.0.to_ascii_lowercase().starts_with("ic-certificate"));
        r.headers.push(("IC-CertificateExpression".into(), e.cel_str.clone()));
    }
    r.headers.push(("IC-Certificate".into(), ev.print()));
    m.resp = r;
    m.entry = Some(e);
    m.snap = snap;
    note(ctx, m, if cross { "splice-cross" } else { "splice" });
}

fn t_splice_v1(ctx: &mut Ctx, w: &mut World, m: &mut Msg) {
    let mut v: Vec<(usize, String)> = vec![];
    for (i, s) in w.snaps.iter().enumerate() {
        for k in s.v1.keys() {
            v.push((i, k.clone()));
        }
    }
    if v.is_empty() {
        return;
    }
    let (snap, k) = ctx.src.pick(&v).clone();
    let Some(full) = w.full(ctx, snap) else { return };
    let cert = w.cert(ctx, snap, true);
    let want = vec![b"http_assets".to_vec(), k.as_bytes().to_vec()];
    let tree = match ctx.src.draw(3) {
        0 => full,
        1 => full.reveal(&[want]),
        _ => rand_prune(ctx, &full),
    };
    let body = w.snaps[snap].v1[&k].clone();
    let ev = Evidence { cert, tree, version: 1, expr_path: None };
    m.resp = Resp { status: 200, headers: vec![("IC-Certificate".into(), ev.print())], body };
    if ctx.src.chance(1, 2) {
        m.req.url = url_for(ctx, &crate::refimpl::url::segments(&k), None);
    }
    m.entry = None;
    m.snap = snap;
    note(ctx, m, "splice-v1");
}

/// Bytes damaged in transit: no structure is respected.
pub fn corrupt(ctx: &mut Ctx, m: &mut Msg) {
    m.opaque = true;
    let name = "IC-Certificate";
    let cur = header(&m.resp.headers, name).unwrap_or("").to_string();
    let what: &'static str = match ctx.src.draw(8) {
        0 => {
            // a character of the header
            let mut b: Vec<char> = cur.chars().collect();
            if b.is_empty() {
                return;
            }
            let i = ctx.src.idx(b.len());
            b[i] = *ctx.src.pick(&[':', '=', ',', 'A', ' ', '+', '\u{fc}', '\u{0}']);
            set_header(&mut m.resp, name, b.into_iter().collect());
            "corrupt-header-char"
        }
        1 => {
            let b: Vec<char> = cur.chars().collect();
            let i = ctx.src.idx(b.len() + 1);
            set_header(&mut m.resp, name, b[..i].iter().collect());
            "corrupt-header-truncated"
        }
        2 | 3 | 4 => {
            // bytes inside one base64 field
            let mut f: Vec<String> = cur.split(", ").map(String::from).collect();
            let i = ctx.src.idx(f.len());
            let Some((n, v)) = f[i].split_once("=:") else { return };
            let Ok(mut b) = STANDARD.decode(v.trim_end_matches(':')) else { return };
            let n = n.to_string();
            damage(ctx, &mut b);
            f[i] = format!("{n}=:{}:", STANDARD.encode(b));
            set_header(&mut m.resp, name, f.join(", "));
            "corrupt-field-bytes"
        }
        5 => {
            // bytes inside the delegation certificate
            let Some(mut ev) = ev_of(m) else { return };
            let Some(d) = &mut ev.cert.delegation else { return };
            if ctx.src.chance(1, 4) {
                damage(ctx, &mut d.0)
            } else {
                damage(ctx, &mut d.1)
            }
            set_ev(m, &ev);
            "corrupt-delegation-bytes"
        }
        6 => {
            let n = "IC-CertificateExpression";
            let cur = header(&m.resp.headers, n).unwrap_or("").to_string();
            let mut b: Vec<char> = cur.chars().collect();
            if b.is_empty() {
                return;
            }
            for _ in 0..1 + ctx.src.draw(3) {
                let i = ctx.src.idx(b.len());
                match ctx.src.draw(3) {
                    0 => b[i] = *ctx.src.pick(&['"', '{', '(', '[', ']', ',', 'x', '\u{e9}', '\\']),
                    1 => {
                        b.remove(i);
                        if b.is_empty() {
                            b.push(' ')
                        }
                    }
                    _ => {
                        let c = b[i];
                        b.insert(i, c)
                    }
                }
            }
            set_header(&mut m.resp, n, b.into_iter().collect());
            "corrupt-expression"
        }
        _ => {
            let s = ctx.src.pick(&["", "/%", "/%zz", "/%ff%fe", "?", "/a?%", "http://", "/\u{fc}", "*", "/a#b", "//x//y", "/ "]).to_string();
            m.req.url = s;
            "corrupt-url"
        }
    };
    note(ctx, m, what);
}

pub fn damage(ctx: &mut Ctx, b: &mut Vec<u8>) {
    if b.is_empty() {
        b.push(0);
        return;
    }
    let i = ctx.src.idx(b.len());
    match ctx.src.draw(7) {
        0 => b[i] ^= 1 << ctx.src.draw(8),
        1 => b[i] = ctx.src.draw(256) as u8,
        2 => b.truncate(i),
        3 => {
            let n = (1 + ctx.src.idx(16)).min(b.len() - i);
            b.drain(i..i + n);
        }
        4 => {
            let v = ctx.src.draw(256) as u8;
            b.insert(i, v)
        }
        5 => overstate(ctx, b),
        _ => {
            // a header byte that announces something huge or special
            b[i] = *ctx.src.pick(&[0x5f, 0x7f, 0x9f, 0xbf, 0xff, 0x9b, 0xbb, 0x5b, 0xf9, 0x1b, 0xd9, 0xc2, 0x80, 0xa0]);
        }
    }
}

/// One CBOR item announces a length (or says a number) beyond 32 bits whose low half is the right one.
fn overstate(ctx: &mut Ctx, b: &mut Vec<u8>) {
    let mut heads = vec![];
    let mut p = 0;
    while p < b.len() {
        let (major, info) = (b[p] >> 5, b[p] & 31);
        let n = match info {
            0..=23 => 0,
            24..=27 => 1usize << (info - 24),
            _ => break,
        };
        if p + 1 + n > b.len() {
            break;
        }
        let v = if n == 0 { info as u64 } else { b[p + 1..p + 1 + n].iter().fold(0, |v, x| v << 8 | *x as u64) };
        if major < 6 {
            heads.push((p, n, major, v));
        }
        p += 1 + n + if major == 2 || major == 3 { (v as usize).min(b.len()) } else { 0 };
    }
    if heads.is_empty() {
        return;
    }
    let (at, n, major, v) = heads[ctx.src.idx(heads.len())];
    let mut out = b[..at].to_vec();
    out.push(major << 5 | 27);
    out.extend_from_slice(&v.wrapping_add((1 + ctx.src.draw(3)) << 32).to_be_bytes());
    out.extend_from_slice(&b[at + 1 + n..]);
    *b = out;
}
