//! Byzantine senders and a damaging network in front of the decoders: certificates, hash trees, expression paths,
//! ranges, certificate headers and expressions arrive truncated, spliced, inflated and restructured (C10, C16, C20).
use crate::attacks::damage;
use crate::ctx::Ctx;
use crate::ic::{self, keys, K_ROOT};
use crate::refimpl::cbor::{self, Val};
use crate::refimpl::cel::{self};
use crate::refimpl::rtree::{fork, lab, T};
use crate::refimpl::verify::{Cert, Req, Resp};
use crate::world::{try_to_ref, gen_headers, real_cel_string, real_req, real_resp, to_ref, HDR_POOL, REQ_HDR_POOL};
use base64::{engine::general_purpose::STANDARD, Engine as _};
use ic_cbor::{parse_cbor_principals_array, parse_cbor_string_array, CertificateToCbor, HashTreeToCbor};
use ic_certificate_verification::VerifyCertificate;
use ic_certification::{Certificate, HashTree, LookupResult};
use ic_response_verification::verify_request_response_pair;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Tree,
    Cert,
    Strings,
    Ranges,
}

/// Something on its way to a decoder.
#[derive(Clone)]
struct Parcel {
    kind: Kind,
    bytes: Vec<u8>,
    /// What an undamaged one must decode to.
    val: Val,
    honest: bool,
    hist: Vec<&'static str>,
}

const SIZES: [usize; 16] = [0, 1, 22, 23, 24, 31, 32, 33, 255, 256, 257, 32767, 32768, 40000, 65535, 65536];

fn blob(ctx: &mut Ctx) -> Vec<u8> {
    let n = if ctx.src.chance(1, 10) { *ctx.src.pick(&SIZES) } else { ctx.src.draw(40) as usize };
    let s = ctx.src.seed();
    crate::prng::Prng::new(s).bytes(n)
}

fn label(ctx: &mut Ctx) -> Vec<u8> {
    match ctx.src.draw(8) {
        0 => vec![],
        1 => blob(ctx),
        2 => vec![0xff; ctx.src.draw(4) as usize],
        _ => ctx.src.pick(&["a", "b", "time", "canister", "certified_data", "http_expr", "<*>", "subnet", "public_key", "canister_ranges"]).as_bytes().to_vec(),
    }
}

fn tree(ctx: &mut Ctx, depth: u32, budget: &mut i64) -> T {
    *budget -= 1;
    if depth == 0 || *budget <= 0 {
        return T::Leaf(blob(ctx));
    }
    match ctx.src.draw(9) {
        0 => T::Empty,
        1 | 2 => T::Leaf(blob(ctx)),
        3 => {
            let s = ctx.src.seed();
            T::Pruned(crate::refimpl::hashes::sha(&s.to_le_bytes()))
        }
        4 | 5 | 6 => {
            let l = label(ctx);
            lab(&l, tree(ctx, depth - 1, budget))
        }
        _ => {
            let a = tree(ctx, depth - 1, budget);
            fork(a, tree(ctx, depth - 1, budget))
        }
    }
}

fn state(ctx: &mut Ctx) -> T {
    let mut budget = 16;
    match ctx.src.draw(4) {
        // what a replica would send
        0 => {
            let d = blob(ctx);
            ic::canister_state(ctx.src.seed(), &[(ic::canister_id(ctx.src.draw(3)), d)], ctx.src.chance(1, 2))
        }
        1 => {
            // the pieces a delegation is read for, with anything in them
            let sid = ic::subnet_id(1);
            let (a, b, c) = (blob(ctx), ranges(ctx), blob(ctx));
            let b = if ctx.src.chance(1, 2) { cbor::to_vec(&b) } else { c };
            fork(
                lab(b"subnet", lab(&sid, fork(lab(b"canister_ranges", T::Leaf(b)), lab(b"public_key", T::Leaf(a))))),
                lab(b"time", T::Leaf(blob(ctx))),
            )
        }
        _ => {
            let d = 1 + ctx.src.draw(7) as u32;
            tree(ctx, d, &mut budget)
        }
    }
}

fn ranges(ctx: &mut Ctx) -> Val {
    let n = ctx.src.draw(4);
    Val::A((0..n).map(|i| Val::A(vec![Val::B(ic::canister_id(i * 10)), Val::B(ic::canister_id(i * 10 + ctx.src.draw(10)))])).collect())
}

fn cert_val(ctx: &mut Ctx) -> Val {
    let t = state(ctx);
    let sig = if ctx.src.chance(1, 3) { blob(ctx) } else { vec![0x80 | 7; 48] };
    let delegation = if ctx.src.chance(1, 3) {
        let inner = if ctx.src.chance(2, 3) { Cert { tree: state(ctx), sig: vec![0x87; 48], delegation: None }.encode() } else { blob(ctx) };
        Some((if ctx.src.chance(1, 2) { ic::subnet_id(1) } else { blob(ctx) }, inner))
    } else {
        None
    };
    cbor::untag(cbor::read(&Cert { tree: t, sig, delegation }.encode()).unwrap())
}

fn strings(ctx: &mut Ctx) -> Val {
    let n = ctx.src.draw(6);
    Val::A(
        (0..n)
            .map(|_| {
                let s = match ctx.src.draw(6) {
                    0 => "\u{fc}\u{1f600}".repeat(ctx.src.draw(40) as usize),
                    1 => "x".repeat(*ctx.src.pick(&SIZES)),
                    _ => ctx.src.pick(&["http_expr", "a", "", "<*>", "<$>", "index.html"]).to_string(),
                };
                Val::T(s)
            })
            .collect(),
    )
}

fn compose(ctx: &mut Ctx) -> Parcel {
    let kind = *ctx.src.pick(&[Kind::Tree, Kind::Tree, Kind::Cert, Kind::Cert, Kind::Strings, Kind::Ranges]);
    let val = match kind {
        Kind::Tree => state(ctx).to_val(),
        Kind::Cert => cert_val(ctx),
        Kind::Strings => strings(ctx),
        Kind::Ranges => ranges(ctx),
    };
    let bytes = if ctx.src.chance(1, 4) { cbor::to_vec(&val) } else { cbor::self_described(&val) };
    Parcel { kind, bytes, val, honest: true, hist: vec![] }
}

/// Anything at all, as encoded bytes.
fn odd(ctx: &mut Ctx) -> Vec<u8> {
    let v = match ctx.src.draw(14) {
        0 => return vec![0xf6],
        1 => return vec![0xfb, 0x7f, 0xf0, 0, 0, 0, 0, 0, 0],
        2 => return vec![0x5f, 0x41, 0, 0xff],
        3 => return vec![0x9f, 0xff],
        4 => return vec![0xff],
        5 => {
            // announces far more than there is
            let mut o = vec![];
            let n = *ctx.src.pick(&[1u64 << 16, 1 << 31, (1 << 32) - 1, 1 << 40, u64::MAX >> 1, u64::MAX]);
            cbor::head(&mut o, *ctx.src.pick(&[2u8, 3, 4, 5]), n);
            return o;
        }
        6 => return vec![*ctx.src.pick(&[0x1c, 0x5c, 0x7d, 0x9e, 0xdc, 0xfc, 0x3b, 0x20, 0xf8, 0xe0])],
        7 => Val::U(*ctx.src.pick(&[0u64, 1, 2, 3, 4, 5, 255, 256, 65536, 1 << 32, u64::MAX])),
        8 => {
            let n = *ctx.src.pick(&[0usize, 1, 11, 31, 32, 33, 64, 300]);
            Val::B(vec![0xab; n])
        }
        9 => Val::T(ctx.src.pick(&["", "tree", "signature", "delegation", "x"]).to_string()),
        10 => Val::A(vec![]),
        11 => Val::M(vec![]),
        12 => Val::Tag(*ctx.src.pick(&[0u64, 55799, 24, 1 << 60]), Box::new(Val::U(4))),
        _ => return vec![0x62, 0xff, 0xfe],
    };
    cbor::to_vec(&v)
}

/// Encodes with one node replaced by something else.
fn rewrite(ctx: &mut Ctx, v: &Val, at: &mut i64, out: &mut Vec<u8>) {
    *at -= 1;
    if *at == 0 {
        let mut enc = cbor::to_vec(v);
        match (ctx.src.draw(9), v) {
            (0, _) => enc = odd(ctx),
            (1, Val::A(a)) if !a.is_empty() => {
                let mut a = a.clone();
                let i = ctx.src.idx(a.len());
                match ctx.src.draw(4) {
                    0 => {
                        a.remove(i);
                    }
                    1 => {
                        let x = a[i].clone();
                        a.insert(i, x)
                    }
                    2 => a.reverse(),
                    _ => a[i] = Val::A(a.clone()),
                }
                enc = cbor::to_vec(&Val::A(a));
            }
            (1 | 2, Val::M(m)) if !m.is_empty() => {
                let mut m = m.clone();
                let i = ctx.src.idx(m.len());
                match ctx.src.draw(4) {
                    0 => {
                        m.remove(i);
                    }
                    1 => {
                        let x = m[i].clone();
                        m.push(x)
                    }
                    2 => m[i].0 = Val::T(ctx.src.pick(&["Tree", "tree", "signature", "delegation", "certificate", "subnet_id"]).to_string()),
                    _ => m[i].0 = Val::A(vec![m[i].0.clone()]),
                }
                enc = cbor::to_vec(&Val::M(m));
            }
            (1 | 2, Val::B(b)) => {
                let mut b = b.clone();
                let n = *ctx.src.pick(&[0usize, 1, 11, 29, 30, 31, 32, 33, 47, 48, 49, 64, 300]);
                b.resize(n, 0xcd);
                enc = cbor::to_vec(&Val::B(b));
            }
            (1 | 2, Val::U(n)) => enc = cbor::to_vec(&Val::U(n.wrapping_add(ctx.src.draw(6)).wrapping_sub(2))),
            (3, _) => {
                // wrapped, a few times or very often
                let n = if ctx.src.chance(1, 8) { *ctx.src.pick(&[300usize, 3000, 40_000]) } else { 1 + ctx.src.draw(3) as usize };
                let how = ctx.src.draw(4);
                let mut o = vec![];
                for _ in 0..n {
                    match how {
                        0 => o.push(0x81),
                        1 => o.extend_from_slice(&[0xd9, 0xd9, 0xf7]),
                        2 => o.extend_from_slice(&[0x83, 0x01, 0x81, 0x00]), // fork(empty, ..)
                        _ => o.extend_from_slice(&[0x83, 0x02, 0x41, 0x61]), // labeled("a", ..)
                    }
                }
                o.extend_from_slice(&enc);
                enc = o;
            }
            (4, Val::A(_) | Val::B(_) | Val::T(_) | Val::M(_)) => {
                // the announced length is not the real one
                let (major, n, skip) = match v {
                    Val::B(b) => (2, b.len() as u64, true),
                    Val::T(t) => (3, t.len() as u64, true),
                    Val::A(a) => (4, a.len() as u64, false),
                    Val::M(m) => (5, m.len() as u64, false),
                    _ => unreachable!(),
                };
                let _ = skip;
                let mut h = vec![];
                cbor::head(&mut h, major, n);
                let body = enc[h.len()..].to_vec();
                let mut o = vec![];
                let n2 = match ctx.src.draw(4) {
                    0 => n.wrapping_sub(1),
                    1 => n + 1,
                    2 => n + 256,
                    _ => *ctx.src.pick(&[1u64 << 32, u64::MAX, 1 << 63]),
                };
                cbor::head(&mut o, major, n2);
                o.extend_from_slice(&body);
                enc = o;
            }
            (5, Val::A(_) | Val::B(_) | Val::M(_)) => {
                // the same value with a longer head than needed
                let (major, n) = match v {
                    Val::B(b) => (2u8, b.len() as u64),
                    Val::A(a) => (4, a.len() as u64),
                    Val::M(m) => (5, m.len() as u64),
                    _ => unreachable!(),
                };
                let mut h = vec![];
                cbor::head(&mut h, major, n);
                let mut o = vec![major << 5 | 27];
                o.extend_from_slice(&n.to_be_bytes());
                o.extend_from_slice(&enc[h.len()..]);
                enc = o;
            }
            (6, Val::B(b)) => enc = cbor::to_vec(&Val::A(b.iter().take(40).map(|x| Val::U(*x as u64)).collect())),
            (6, Val::T(t)) => enc = cbor::to_vec(&Val::B(t.as_bytes().to_vec())),
            (7, _) => {
                damage(ctx, &mut enc);
            }
            _ => enc = odd(ctx),
        }
        out.extend_from_slice(&enc);
        return;
    }
    match v {
        Val::A(a) => {
            cbor::head(out, 4, a.len() as u64);
            a.iter().for_each(|x| rewrite(ctx, x, at, out))
        }
        Val::M(m) => {
            cbor::head(out, 5, m.len() as u64);
            for (k, x) in m {
                rewrite(ctx, k, at, out);
                rewrite(ctx, x, at, out)
            }
        }
        v => cbor::write(v, out),
    }
}

fn nodes(v: &Val) -> u64 {
    1 + match v {
        Val::A(a) => a.iter().map(nodes).sum(),
        Val::M(m) => m.iter().map(|(k, x)| nodes(k) + nodes(x)).sum(),
        Val::Tag(_, x) => nodes(x),
        _ => 0,
    }
}

fn hit(ctx: &mut Ctx, p: &mut Parcel, name: &'static str) {
    ctx.stat(&format!("fault.{name}"));
    p.honest = false;
    p.hist.push(name);
}

fn bound(ctx: &mut Ctx, what: &str, size: usize, peak: u64) {
    if peak > (16 << 20) + 400 * size as u64 {
        ctx.violate(&["C10"], "memory", format!("{what} of {size} bytes took {peak} bytes of memory"));
    }
}

fn deliver(ctx: &mut Ctx, p: &Parcel) {
    let b = &p.bytes;
    let crash: &[&str] = if p.honest { &["C10", "C16", "C20"] } else { &["C10"] };
    let hist = p.hist.join("+");
    let mut verdict = "rejected".to_string();
    ctx.stat("decode.total");
    match p.kind {
        Kind::Tree => {
            let Some((r, u)) = ctx.sut_metered(crash, "HashTree::from_cbor", || HashTree::from_cbor(b)) else { return };
            bound(ctx, "decoding a hash tree", b.len(), u.peak);
            let spec = cbor::read(b).map(cbor::untag).and_then(|v| T::from_val(&v));
            if let Ok(t) = r {
                verdict = "ok".into();
                use_tree(ctx, crash, &t);
                let real = ctx.sut(&["C10"], "serialize", || serde_cbor::to_vec(&t)).map(|x| x.ok().and_then(|x| T::decode(&x)));
                if let (Some(real), Some(spec)) = (real, &spec) {
                    if real.as_ref() != Some(spec) {
                        ctx.violate(&["C16", "C20"], "tree-decoded-wrong", format!("the bytes {} mean {spec:?} but were read as {real:?}", short(b)));
                    }
                }
                if spec.is_none() {
                    ctx.stat("decode.lenient");
                }
            } else if p.honest {
                ctx.violate(&["C16", "C20"], "tree-rejected", format!("an undamaged hash tree is rejected: {r:?}; {}", short(b)));
            }
            // the other decoder of the library, used by agents
            if b.len() < 20_000 {
                ctx.sut(crash, "serde hash tree", || serde_cbor::from_slice::<HashTree>(b).is_ok());
            }
        }
        Kind::Cert => {
            let Some((r, u)) = ctx.sut_metered(crash, "Certificate::from_cbor", || Certificate::from_cbor(b)) else { return };
            bound(ctx, "decoding a certificate", b.len(), u.peak);
            match r {
                Ok(c) => {
                    verdict = "ok".into();
                    use_tree(ctx, crash, &c.tree);
                    if p.honest {
                        let d = c.delegation.as_ref().map(|d| (d.subnet_id.to_vec(), d.certificate.to_vec()));
                        let want = Cert::decode(&cbor::to_vec(&p.val));
                        if want.as_ref().map(|w| w.tree == to_ref(&c.tree) && w.sig == c.signature && w.delegation == d) != Some(true) {
                            ctx.violate(&["C20"], "certificate-decoded-wrong", format!("the bytes {} were read as {c:?}", short(b)));
                        }
                    }
                    if ctx.src.chance(1, 3) {
                        let now = if ctx.src.chance(1, 2) {
                            *ctx.src.pick(&[0u128, 1, u64::MAX as u128, u128::MAX])
                        } else {
                            let t = try_to_ref(&c.tree).and_then(|tree| Cert { tree, sig: vec![], delegation: None }.time());
                            t.unwrap_or(0)
                        };
                        let off = *ctx.src.pick(&[0u128, 300_000_000_000, u128::MAX]);
                        let id = if ctx.src.chance(1, 2) { ic::canister_id(0) } else { blob(ctx) };
                        let key = match ctx.src.draw(4) {
                            0 => blob(ctx),
                            1 => {
                                let mut k = keys()[K_ROOT].der();
                                damage(ctx, &mut k);
                                k
                            }
                            _ => keys()[K_ROOT].der(),
                        };
                        ctx.stat("decode.certificate_verified");
                        let r = ctx.sut(&["C10"], "Certificate::verify", || c.verify(&id, &key, &now, &off).is_ok());
                        if r == Some(true) {
                            ctx.violate(&["C08", "C10"], "garbage-verified", format!("a certificate nobody signed verifies: {}", short(b)));
                        }
                    }
                }
                Err(e) if p.honest => ctx.violate(&["C20"], "certificate-rejected", format!("an undamaged certificate is rejected: {e:?}; {}", short(b))),
                Err(_) => {}
            }
            if b.len() < 20_000 {
                ctx.sut(crash, "serde certificate", || serde_cbor::from_slice::<Certificate>(b).is_ok());
            }
        }
        Kind::Strings => {
            let Some((r, u)) = ctx.sut_metered(crash, "parse_cbor_string_array", || parse_cbor_string_array(b)) else { return };
            bound(ctx, "decoding strings", b.len(), u.peak);
            let want: Option<Vec<String>> = match cbor::read(b).map(cbor::untag) {
                Some(Val::A(a)) => a.into_iter().map(|v| if let Val::T(t) = v { Some(t) } else { None }).collect(),
                _ => None,
            };
            if r.is_ok() {
                verdict = "ok".into();
            }
            match (r, want) {
                (Ok(r), Some(w)) if r != w => ctx.violate(&["C20"], "strings-decoded-wrong", format!("{r:?} for {w:?}")),
                (Err(e), _) if p.honest => ctx.violate(&["C20"], "strings-rejected", format!("undamaged strings are rejected: {e:?}; {}", short(b))),
                _ => {}
            }
        }
        Kind::Ranges => {
            let Some((r, u)) = ctx.sut_metered(crash, "parse_cbor_principals_array", || parse_cbor_principals_array(b)) else { return };
            bound(ctx, "decoding ranges", b.len(), u.peak);
            if r.is_ok() {
                verdict = "ok".into();
            }
            if p.honest {
                let got: Option<Vec<Val>> = r.ok().map(|v| {
                    v.iter().map(|(a, b)| Val::A(vec![Val::B(a.as_slice().to_vec()), Val::B(b.as_slice().to_vec())])).collect()
                });
                if got.map(Val::A).as_ref() != Some(&p.val) {
                    ctx.violate(&["C20"], "ranges-decoded-wrong", format!("canister ranges {:?} are read differently", p.val));
                }
            }
        }
    }
    ctx.log(format!("deliver {:?} {} bytes after [{hist}] -> {verdict}", p.kind, b.len()));
    ctx.sig(&[&format!("{:?}", p.kind), &hist, &verdict, &(b.len().min(70_000).next_power_of_two()).to_string()]);
}

fn short(b: &[u8]) -> String {
    let h: String = b.iter().take(60).map(|x| format!("{x:02x}")).collect();
    format!("{h}.. ({} bytes)", b.len())
}

/// A decoded tree must be usable whatever it looks like.
fn use_tree(ctx: &mut Ctx, crash: &[&str], t: &HashTree) {
    let Some(h) = ctx.sut(crash, "digest", || t.digest()) else { return };
    let Some(rt) = try_to_ref(t) else { return };
    if rt.digest() != h {
        ctx.violate(&["C16", "C20"], "digest", "digest differs from the specification's".into());
    }
    for _ in 0..2 {
        let n = ctx.src.draw(5);
        let p: Vec<Vec<u8>> = (0..n).map(|_| label(ctx)).collect();
        let _ = ctx.sut(crash, "lookup_path", || matches!(t.lookup_path(&p), LookupResult::Found(_)));
        let _ = ctx.sut(crash, "lookup_subtree", || t.lookup_subtree(&p));
    }
    if ctx.src.chance(1, 4) && rt.size() < 2000 {
        ctx.sut(crash, "list_paths", || t.list_paths().len());
        ctx.sut(crash, "debug", || format!("{t:?}").len());
    }
}

fn header_text(ctx: &mut Ctx, pool: &[Parcel]) -> String {
    let names = ["certificate", "tree", "version", "expr_path", "Tree", "", "certificate ", "x"];
    let b64 = |ctx: &mut Ctx, k: Kind| {
        let v: Vec<&Parcel> = pool.iter().filter(|p| p.kind == k && p.bytes.len() < 5000).collect();
        if v.is_empty() {
            "AAAA".to_string()
        } else {
            STANDARD.encode(&ctx.src.pick(&v).bytes)
        }
    };
    let n = 1 + ctx.src.draw(6);
    let mut f = vec![];
    let base = ctx.src.chance(2, 3);
    for i in 0..n {
        let which = if base && i < 4 { i as usize } else { ctx.src.idx(8) };
        let v = match which {
            0 => b64(ctx, Kind::Cert),
            1 => b64(ctx, Kind::Tree),
            3 => b64(ctx, Kind::Strings),
            2 => ctx.src.pick(&["2", "1", "2", "2", "", "300", "-1"]).to_string(),
            _ => ctx.src.pick(&["", ":", "::", "=", "====", "\u{fc}", "AA=", "/+", "a,b"]).to_string(),
        };
        let (l, r) = *ctx.src.pick(&[(":", ":"), (":", ":"), (":", ":"), ("", ""), (":", ""), ("", ":"), (" :", ": ")]);
        let (l, r) = if which == 2 && ctx.src.chance(3, 4) { ("", "") } else { (l, r) };
        f.push(format!("{}={l}{v}{r}", names[which]));
    }
    let mut s = f.join(*ctx.src.pick(&[", ", ",", " ,", ";"]));
    if ctx.src.chance(1, 3) {
        let mut c: Vec<char> = s.chars().collect();
        for _ in 0..1 + ctx.src.draw(3) {
            if c.is_empty() {
                break;
            }
            let i = ctx.src.idx(c.len());
            match ctx.src.draw(3) {
                0 => {
                    c.remove(i);
                }
                1 => c[i] = *ctx.src.pick(&[':', '=', ',', ' ', '\u{0}', '\u{fc}', '\n']),
                _ => c.truncate(i),
            }
        }
        s = c.into_iter().collect();
    }
    s
}

fn expression(ctx: &mut Ctx) -> (String, bool) {
    if ctx.src.chance(1, 12) {
        // nested as deeply as the message has room for, with quotes and escapes in between
        let (open, close) = *ctx.src.pick(&[
            ("[", "]"), ("(", ")"), ("f(", ")"), ("O{k:", "}"), ("{:", "}"), ("[ ", "] "), ("[f(O{_:", "})]"),
            ("[\"a\",", "]"), ("[\"\\\\\",", "]"), ("[\"\\\"\",", "]"), ("[\"]\",", "]"), ("f(\"[\",[\")\",", "])"), ("O{k:\"}\",l:", "}"),
        ]);
        let n = *ctx.src.pick(&[3usize, 60, 65, 200, 2000, 20_000, 100_000]);
        let inner = *ctx.src.pick(&["", "\"\"", "\"x\"", "O{}", "\\"]);
        let start = *ctx.src.pick(&["", "", "default_certification(ValidationArgs{certification:Certification{no_request_certification:", "[\"\\\"\","]);
        let end = match ctx.src.draw(3) {
            0 => String::new(),
            1 => close.repeat(n),
            _ => close.repeat(n / 2),
        };
        ctx.stat("decode.nested-expressions");
        return (format!("{start}{}{inner}{end}", open.repeat(n)), false);
    }
    let c = {
        let list = |ctx: &mut Ctx, pool: &[&str]| -> Vec<String> {
            let n = if ctx.src.chance(1, 12) { *ctx.src.pick(&[9u64, 16, 33, 200]) } else { ctx.src.draw(4) };
            (0..n).map(|i| format!("{}{}", ctx.src.pick(pool), if i > 2 { i.to_string() } else { String::new() })).collect()
        };
        let rc = if ctx.src.chance(1, 2) { cel::RespCert::Include(list(ctx, &HDR_POOL)) } else { cel::RespCert::Exclude(list(ctx, &HDR_POOL)) };
        match ctx.src.draw(4) {
            0 => cel::Cel::Skip,
            1 => cel::Cel::Response(rc),
            _ => cel::Cel::Full { headers: list(ctx, &REQ_HDR_POOL), query: list(ctx, &["a", "b", "c[d]"]), resp: rc },
        }
    };
    let s = if ctx.src.chance(1, 2) { c.print() } else { real_cel_string(&c) };
    if ctx.src.chance(1, 6) {
        return (s, true);
    }
    // tokens are dropped, doubled, swapped, nested or replaced
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    for ch in s.chars() {
        if ch.is_ascii_alphanumeric() || ch == '_' || ch == '-' {
            cur.push(ch)
        } else {
            if !cur.is_empty() {
                toks.push(std::mem::take(&mut cur))
            }
            toks.push(ch.to_string())
        }
    }
    if !cur.is_empty() {
        toks.push(cur)
    }
    for _ in 0..1 + ctx.src.draw(4) {
        if toks.is_empty() {
            break;
        }
        let i = ctx.src.idx(toks.len());
        match ctx.src.draw(8) {
            0 => {
                toks.remove(i);
            }
            1 => {
                let x = toks[i].clone();
                toks.insert(i, x)
            }
            2 => {
                let j = ctx.src.idx(toks.len());
                toks.swap(i, j)
            }
            3 => toks[i] = ctx.src.pick(&["{", "}", "[", "]", "(", ")", "\"", ":", ",", "", "\u{fc}", "\\", "1", "-"]).to_string(),
            4 => {
                toks[i] = ctx
                    .src
                    .pick(&[
                        "default_certification", "ValidationArgs", "certification", "Certification", "no_certification", "Empty", "response_certification",
                        "ResponseCertification", "certified_response_headers", "response_header_exclusions", "ResponseHeaderList", "headers",
                        "request_certification", "RequestCertification", "no_request_certification", "certified_request_headers", "certified_query_parameters",
                    ])
                    .to_string()
            }
            5 => {
                let n = if ctx.src.chance(1, 10) { *ctx.src.pick(&[500usize, 5000, 50_000]) } else { 2 };
                if toks[i].len() * n < 4 << 20 {
                    let x = toks[i].repeat(n);
                    toks[i] = x
                }
            }
            6 => toks[i] = format!("{}{}{}", "[".repeat(ctx.src.draw(20) as usize), toks[i], "]".repeat(ctx.src.draw(20) as usize)),
            _ => {
                let j = ctx.src.idx(toks.len() - i) + i;
                let part: Vec<String> = toks[i..=j.min(toks.len() - 1)].to_vec();
                if part.iter().map(|p| p.len()).sum::<usize>() < 1 << 20 {
                    toks.splice(i..i, part);
                }
            }
        }
    }
    (toks.concat(), false)
}

/// A whole answer, made of what the network has at hand.
fn answer(ctx: &mut Ctx, pool: &[Parcel], profile: &str) {
    let (expr, good) = expression(ctx);
    let mut headers = vec![];
    let n = 1 + ctx.src.draw(2);
    let sound = |k: Kind| pool.iter().find(|p| p.kind == k && p.honest && p.bytes.len() < 5000).map(|p| STANDARD.encode(&p.bytes));
    if let (true, Some(c), Some(t), Some(e)) = (ctx.src.chance(1, 2), sound(Kind::Cert), sound(Kind::Tree), sound(Kind::Strings)) {
        // an undamaged certificate, so that what follows is looked at
        headers.push(("IC-Certificate".to_string(), format!("certificate=:{c}:, tree=:{t}:, expr_path=:{e}:, version=2")));
    } else {
        for _ in 0..n {
            headers.push(("IC-Certificate".to_string(), header_text(ctx, pool)));
        }
    }
    if ctx.src.chance(9, 10) {
        headers.push(("IC-CertificateExpression".to_string(), expr.clone()));
    }
    headers.extend(gen_headers(ctx, &HDR_POOL, 3));
    let body = match ctx.src.draw(4) {
        0 => blob(ctx),
        _ => b"x".to_vec(),
    };
    let url = ctx.src.pick(&["/", "/a", "/a/b?x=y", "", "/%", "/%ff", "?", "*", "/\u{fc}", "http://", "https://a", "//", "/a#b", "/a b", "/?%"]).to_string();
    let req = Req { method: ctx.src.pick(&["GET", "PURGE", "x-y"]).to_string(), url, headers: gen_headers(ctx, &REQ_HDR_POOL, 3), body: vec![] };
    let resp = Resp { status: *ctx.src.pick(&[200u16, 100, 999, 304]), headers, body };
    let size: usize = resp.headers.iter().map(|h| h.0.len() + h.1.len()).sum::<usize>() + resp.body.len();
    let id = ic::canister_id(0);
    let key = keys()[K_ROOT].der();
    let min = ctx.src.draw(4) as u8;
    let now = *ctx.src.pick(&[0u128, 1_700_000_000_000_000_000, u128::MAX]);
    let (rq, rs) = (real_req(&req), real_resp(&resp));
    let Some((r, u)) =
        ctx.sut_metered(&["C10"], "verify", || verify_request_response_pair(rq, rs, &id, now, 300_000_000_000, &key, min))
    else {
        return;
    };
    if crate::js::wanted(profile) {
        let a = crate::js::Asked { req: &req, resp: &resp, status: resp.status as f64, canister: &id, now, offset: 300_000_000_000, key: &key, min };
        crate::js::compare(ctx, &a, &r);
    }
    let r = r.map_err(|e| format!("{e:?}"));
    bound(ctx, "verifying a response", size, u.peak);
    ctx.stat("decode.answers");
    let v = match r {
        Ok(_) => {
            ctx.violate(&["C01", "C10"], "garbage-accepted", format!("a response nobody certified is accepted: {:?}", resp.headers));
            "ok".to_string()
        }
        Err(e) => e.chars().take_while(|c| c.is_ascii_alphanumeric()).collect(),
    };
    if good && v.starts_with("Cel") {
        ctx.violate(&["C20", "C10"], "expression-rejected", format!("a well-formed expression is rejected: {expr}"));
    }
    ctx.log(format!("answer {} bytes -> {v}", size));
    ctx.sig(&["answer", &v, if good { "good" } else { "odd" }]);
}

/// The messages of the HTTP gateway protocol as its Candid interface describes them, written down apart from the library.
mod candid_iface {
    use candid::{CandidType, Deserialize};
    #[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
    pub struct Request {
        pub method: String,
        pub url: String,
        pub headers: Vec<(String, String)>,
        pub body: Vec<u8>,
        pub certificate_version: Option<u16>,
    }
    #[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
    pub struct Response {
        pub status_code: u16,
        pub headers: Vec<(String, String)>,
        pub body: Vec<u8>,
        pub upgrade: Option<bool>,
    }
    #[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
    pub struct UpdateRequest {
        pub method: String,
        pub url: String,
        pub headers: Vec<(String, String)>,
        pub body: Vec<u8>,
    }
    #[derive(CandidType, Deserialize, Clone, Debug, PartialEq)]
    pub struct UpdateResponse {
        pub status_code: u16,
        pub headers: Vec<(String, String)>,
        pub body: Vec<u8>,
    }
    /// What a gateway or canister of an older or a newer version of the interface sends.
    #[derive(CandidType)]
    pub struct OldRequest {
        pub method: String,
        pub url: String,
        pub headers: Vec<(String, String)>,
        pub body: Vec<u8>,
    }
    #[derive(CandidType)]
    pub struct NewRequest {
        pub method: String,
        pub url: String,
        pub headers: Vec<(String, String)>,
        pub body: Vec<u8>,
        pub certificate_version: Option<u16>,
        pub body_size_hint: Option<u64>,
    }
    #[derive(CandidType)]
    pub struct OldResponse {
        pub status_code: u16,
        pub headers: Vec<(String, String)>,
        pub body: Vec<u8>,
    }
    #[derive(CandidType)]
    pub struct NewResponse {
        pub status_code: u16,
        pub headers: Vec<(String, String)>,
        pub body: Vec<u8>,
        pub upgrade: Option<bool>,
        pub streaming_strategy: Option<Vec<u8>>,
    }
}

/// A request on its way to the canister and the response on its way back, each side using its own idea of the interface.
fn messages(ctx: &mut Ctx) {
    use crate::refimpl::url;
    use candid_iface as ci;
    use ic_http_certification::{HttpRequest, HttpResponse, HttpUpdateRequest, HttpUpdateResponse, Method, StatusCode};
    const TAG: &[&str] = &["C20"];
    let url = ctx
        .src
        .pick(&["/", "/a", "/a/b/?x=y", "/?", "/%61?%61=%62", "/\u{fc}", "*", "https://a.b", "https://a.b/c?d#e", "/a?b?c", "//", "/%2f", "/a%"])
        .to_string();
    let rq = ci::Request {
        method: ctx.src.pick(&["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "TRACE", "CONNECT", "PATCH", "PURGE", "get", "x-y", "M-SEARCH.2"]).to_string(),
        url,
        headers: gen_headers(ctx, &REQ_HDR_POOL, 4),
        body: blob(ctx),
        certificate_version: *ctx.src.pick(&[None, Some(0), Some(1), Some(2), Some(u16::MAX)]),
    };
    let rs = ci::Response {
        status_code: *ctx.src.pick(&[100, 200, 206, 304, 404, 500, 599, 999]),
        headers: gen_headers(ctx, &HDR_POOL, 4),
        body: blob(ctx),
        upgrade: *ctx.src.pick(&[None, Some(false), Some(true)]),
    };
    let bad = ctx.src.chance(1, 6);
    let Some(ok) = ctx.sut(TAG, "messages", || {
        let mut bads: Vec<String> = vec![];
        // the gateway's request reaches the canister, which logs it back
        let wire = candid::encode_one(&rq).unwrap();
        match candid::decode_one::<HttpRequest<'static>>(&wire) {
            Err(e) => bads.push(format!("request is not understood: {e}")),
            Ok(x) => {
                // a URI is ASCII
                let want = url::split(&rq.url).filter(|_| rq.url.is_ascii());
                if (x.method().as_str(), x.url(), x.headers(), x.body(), x.certificate_version())
                    != (rq.method.as_str(), rq.url.as_str(), &rq.headers[..], &rq.body[..], rq.certificate_version)
                {
                    bads.push(format!("request became {x:?}"));
                }
                let built = HttpRequest::builder()
                    .with_method(Method::from_bytes(rq.method.as_bytes()).unwrap())
                    .with_url(rq.url.clone())
                    .with_headers(rq.headers.clone())
                    .with_body(rq.body.clone());
                let built = match rq.certificate_version {
                    Some(v) => built.with_certificate_version(v).build(),
                    None => built.build(),
                };
                if built != x {
                    bads.push(format!("the same request built is {built:?}"));
                }
                let up: HttpUpdateRequest = built.clone().into();
                for (p, q) in [(x.get_path(), x.get_query()), (up.get_path(), up.get_query())] {
                    if let Some(w) = &want {
                        if p.as_ref().ok() != Some(&w.path) || q.as_ref().ok().map(|q| q.clone()) != Some(w.query.clone()) {
                            bads.push(format!("{} has path {p:?} and query {q:?}", rq.url));
                        }
                    }
                }
                match candid::decode_one::<ci::Request>(&candid::encode_one(&built).unwrap()) {
                    Ok(b) if b == rq => {}
                    o => bads.push(format!("request sent on as {o:?}")),
                }
                let u = ci::UpdateRequest { method: rq.method.clone(), url: rq.url.clone(), headers: rq.headers.clone(), body: rq.body.clone() };
                match candid::decode_one::<ci::UpdateRequest>(&candid::encode_one(&up).unwrap()) {
                    Ok(b) if b == u => {}
                    o => bads.push(format!("update request sent on as {o:?}")),
                }
                match candid::decode_one::<HttpUpdateRequest<'static>>(&candid::encode_one(&u).unwrap()) {
                    Ok(b) if b == up => {}
                    o => bads.push(format!("update request received as {o:?}")),
                }
            }
        }
        // peers of other versions of the interface
        let old = ci::OldRequest { method: rq.method.clone(), url: rq.url.clone(), headers: rq.headers.clone(), body: rq.body.clone() };
        let new = ci::NewRequest {
            method: rq.method.clone(),
            url: rq.url.clone(),
            headers: rq.headers.clone(),
            body: rq.body.clone(),
            certificate_version: rq.certificate_version,
            body_size_hint: Some(7),
        };
        for (x, v) in [
            (candid::decode_one::<HttpRequest<'static>>(&candid::encode_one(&old).unwrap()), None),
            (candid::decode_one::<HttpRequest<'static>>(&candid::encode_one(&new).unwrap()), rq.certificate_version),
        ] {
            match x {
                Ok(x)
                    if (x.method().as_str(), x.url(), x.headers(), x.body(), x.certificate_version())
                        == (rq.method.as_str(), rq.url.as_str(), &rq.headers[..], &rq.body[..], v) => {}
                o => bads.push(format!("request of another interface version received as {o:?}")),
            }
        }
        // the short forms
        let short = match rq.method.as_str() {
            "GET" => Some(HttpRequest::get(rq.url.clone())),
            "POST" => Some(HttpRequest::post(rq.url.clone())),
            "PUT" => Some(HttpRequest::put(rq.url.clone())),
            "PATCH" => Some(HttpRequest::patch(rq.url.clone())),
            "DELETE" => Some(HttpRequest::delete(rq.url.clone())),
            _ => None,
        };
        if let Some(b) = short {
            let r = b.with_headers(rq.headers.clone()).with_body(rq.body.clone()).build_update();
            if (r.method().as_str(), r.url(), r.headers(), r.body()) != (rq.method.as_str(), rq.url.as_str(), &rq.headers[..], &rq.body[..]) {
                bads.push(format!("the same update request built is {r:?}"));
            }
        }
        // the canister's response reaches the gateway
        let old = ci::OldResponse { status_code: rs.status_code, headers: rs.headers.clone(), body: rs.body.clone() };
        let new = ci::NewResponse {
            status_code: rs.status_code,
            headers: rs.headers.clone(),
            body: rs.body.clone(),
            upgrade: rs.upgrade,
            streaming_strategy: Some(vec![1, 2]),
        };
        for (x, v) in [
            (candid::decode_one::<HttpResponse<'static>>(&candid::encode_one(&old).unwrap()), None),
            (candid::decode_one::<HttpResponse<'static>>(&candid::encode_one(&new).unwrap()), rs.upgrade),
        ] {
            match x {
                Ok(x) if (x.status_code().as_u16(), x.headers(), x.body(), x.upgrade()) == (rs.status_code, &rs.headers[..], &rs.body[..], v) => {}
                o => bads.push(format!("response of another interface version received as {o:?}")),
            }
        }
        // a canister that adds its headers one by one
        let mut piecewise = HttpResponse::builder().with_status_code(StatusCode::from_u16(rs.status_code).unwrap()).with_body(rs.body.clone()).build_update();
        for h in &rs.headers {
            piecewise.add_header(h.clone());
        }
        piecewise.headers_mut().push(("x-last".into(), "1".into()));
        let mut hs = rs.headers.clone();
        hs.push(("x-last".into(), "1".into()));
        let u = ci::UpdateResponse { status_code: rs.status_code, headers: hs, body: rs.body.clone() };
        match candid::decode_one::<ci::UpdateResponse>(&candid::encode_one(&piecewise).unwrap()) {
            Ok(x) if x == u => {}
            o => bads.push(format!("update response built piece by piece sent on as {o:?}")),
        }
        match candid::decode_one::<HttpUpdateResponse<'static>>(&candid::encode_one(&u).unwrap()) {
            Ok(x) if (x.status_code().as_u16(), x.headers(), x.body()) == (u.status_code, &u.headers[..], &u.body[..]) => {}
            o => bads.push(format!("update response received as {o:?}")),
        }
        let b = HttpResponse::builder().with_status_code(StatusCode::from_u16(rs.status_code).unwrap()).with_headers(rs.headers.clone()).with_body(rs.body.clone());
        let b = match rs.upgrade {
            Some(v) => b.with_upgrade(v).build(),
            None => b.build(),
        };
        match candid::decode_one::<ci::Response>(&candid::encode_one(&b).unwrap()) {
            Ok(x) if x == rs => {}
            o => bads.push(format!("response sent on as {o:?}")),
        }
        match candid::decode_one::<HttpResponse<'static>>(&candid::encode_one(&rs).unwrap()) {
            Ok(x) if (x.status_code().as_u16(), x.headers(), x.body(), x.upgrade()) == (rs.status_code, &rs.headers[..], &rs.body[..], rs.upgrade) => {}
            o => bads.push(format!("response received as {o:?}")),
        }
        let up: HttpUpdateResponse = b.into();
        let u = ci::UpdateResponse { status_code: rs.status_code, headers: rs.headers.clone(), body: rs.body.clone() };
        match candid::decode_one::<ci::UpdateResponse>(&candid::encode_one(&up).unwrap()) {
            Ok(x) if x == u => {}
            o => bads.push(format!("update response sent on as {o:?}")),
        }
        if bad {
            // a peer that does not keep to HTTP
            for s in [0u16, 99, 1000, u16::MAX] {
                let r = ci::Response { status_code: s, ..rs.clone() };
                if candid::decode_one::<HttpResponse<'static>>(&candid::encode_one(&r).unwrap()).is_ok() {
                    bads.push(format!("status {s} is taken for a status code"));
                }
            }
            for m in ["", "G ET", "GET\n", "\u{fc}"] {
                let r = ci::Request { method: m.to_string(), ..rq.clone() };
                if candid::decode_one::<HttpRequest<'static>>(&candid::encode_one(&r).unwrap()).is_ok() {
                    bads.push(format!("{m:?} is taken for a method"));
                }
            }
        }
        bads
    }) else {
        return;
    };
    ctx.stat("decode.messages");
    if bad {
        ctx.stat("fault.invalid_message");
    }
    for m in ok {
        ctx.violate(&["C20"], "message", format!("{m}; sent {rq:?} {rs:?}").chars().take(1500).collect::<String>());
    }
    ctx.log(format!("messages {} {} {}", rq.method, rq.url, rs.status_code));
}

pub fn run(ctx: &mut Ctx, profile: &str) {
    if !ctx.src.step() {
        return;
    }
    let n = 20 + ctx.src.draw(40);
    ctx.src.set_budget(n as usize + 1);
    let w: [u32; 10] = match profile {
        // send, damage structure, damage bytes, splice, truncate, glue, deliver, answer, duplicate, messages
        "C10" => [20, 16, 8, 5, 3, 2, 34, 10, 2, 0],
        "C21" => [20, 16, 8, 5, 3, 2, 0, 40, 2, 0],
        _ => [30, 8, 3, 2, 1, 1, 50, 3, 2, 4],
    };
    let mut pool: Vec<Parcel> = vec![];
    while !ctx.stop && ctx.src.step() {
        let k = ctx.src.weighted(&w);
        if k == 9 {
            messages(ctx);
            continue;
        }
        if k == 0 || pool.is_empty() {
            let p = compose(ctx);
            ctx.stat("net.sent");
            ctx.log(format!("send {:?} {} bytes", p.kind, p.bytes.len()));
            if pool.len() >= 6 {
                let i = ctx.src.idx(pool.len());
                pool.remove(i);
                ctx.stat("fault.lost");
            }
            pool.push(p);
            continue;
        }
        let i = ctx.src.idx(pool.len());
        match k {
            1 => {
                let mut p = pool[i].clone();
                // each rewriting starts from what the bytes mean now, if anything
                let v = cbor::read(&p.bytes).map(cbor::untag).unwrap_or_else(|| p.val.clone());
                let mut at = 1 + ctx.src.draw(nodes(&v)) as i64;
                let mut out = if ctx.src.chance(1, 2) { vec![0xd9, 0xd9, 0xf7] } else { vec![] };
                rewrite(ctx, &v, &mut at, &mut out);
                p.bytes = out;
                hit(ctx, &mut p, "restructured");
                pool[i] = p;
            }
            2 => {
                for _ in 0..1 + ctx.src.draw(3) {
                    let mut b = std::mem::take(&mut pool[i].bytes);
                    damage(ctx, &mut b);
                    pool[i].bytes = b;
                }
                hit(ctx, &mut pool[i], "damaged");
            }
            3 => {
                let j = ctx.src.idx(pool.len());
                let (a, b) = (&pool[i].bytes, &pool[j].bytes);
                let x = ctx.src.idx(a.len() + 1);
                let y = ctx.src.idx(b.len() + 1);
                let s = [&a[..x], &b[y..]].concat();
                pool[i].bytes = s;
                hit(ctx, &mut pool[i], "spliced");
            }
            4 => {
                let x = ctx.src.idx(pool[i].bytes.len() + 1);
                pool[i].bytes.truncate(x);
                hit(ctx, &mut pool[i], "truncated");
            }
            5 => {
                let extra = odd(ctx);
                if ctx.src.chance(1, 2) {
                    pool[i].bytes.extend(extra);
                } else {
                    let b = std::mem::take(&mut pool[i].bytes);
                    pool[i].bytes = [extra, b].concat();
                }
                hit(ctx, &mut pool[i], "glued");
            }
            6 => {
                let p = if ctx.src.chance(1, 2) { pool[i].clone() } else { pool.remove(i) };
                deliver(ctx, &p);
                // in another place, where something else is expected
                if ctx.src.chance(1, 10) {
                    let mut q = p;
                    q.kind = *ctx.src.pick(&[Kind::Tree, Kind::Cert, Kind::Strings, Kind::Ranges]);
                    hit(ctx, &mut q, "misdirected");
                    deliver(ctx, &q);
                }
            }
            7 => {
                let all = pool.clone();
                answer(ctx, &all, profile);
            }
            _ => {
                let p = pool[i].clone();
                ctx.stat("fault.duplicated");
                pool.push(p);
            }
        }
    }
}
