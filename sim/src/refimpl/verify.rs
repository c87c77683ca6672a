//! Reference response verifier. Returns every reason for rejection it can establish.
use super::cbor::{self, Val};
use super::cel::{self, Cel, RespCert};
use super::hashes::{hash_of_map, sha, sha_all, H, V};
use super::rtree::{Look, T};
use super::url;
use base64::{engine::general_purpose::STANDARD, Engine};
use std::io::Read;

pub type Hdrs = Vec<(String, String)>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Req {
    pub method: String,
    pub url: String,
    pub headers: Hdrs,
    pub body: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Resp {
    pub status: u16,
    pub headers: Hdrs,
    pub body: Vec<u8>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Reason {
    Malformed,
    MissingHeader,
    MinVersion,
    UnsupportedVersion,
    Time,
    Nested,
    DelegationSignature,
    Range,
    SubnetKey,
    Signature,
    CertifiedData,
    Digest,
    ExprPath,
    Precedence,
    ExprHash,
    RequestHash,
    ResponseHash,
    V1Body,
}

pub const DER: &[u8; 37] = b"\x30\x81\x82\x30\x1d\x06\x0d\x2b\x06\x01\x04\x01\x82\xdc\x7c\x05\x03\x01\x02\x01\x06\x0c\x2b\x06\x01\x04\x01\x82\xdc\x7c\x05\x03\x02\x01\x03\x61\x00";

#[derive(Clone, Debug)]
pub struct Cert {
    pub tree: T,
    pub sig: Vec<u8>,
    pub delegation: Option<(Vec<u8>, Vec<u8>)>,
}

impl Cert {
    pub fn decode(b: &[u8]) -> Option<Cert> {
        let v = cbor::untag(cbor::read(b)?);
        let tree = T::from_val(v.get("tree")?)?;
        let Val::B(sig) = v.get("signature")? else { return None };
        let delegation = match v.get("delegation") {
            None => None,
            Some(d) => match (d.get("subnet_id")?, d.get("certificate")?) {
                (Val::B(s), Val::B(c)) => Some((s.clone(), c.clone())),
                _ => return None,
            },
        };
        Some(Cert { tree, sig: sig.clone(), delegation })
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut m = vec![
            (Val::T("tree".into()), self.tree.to_val()),
            (Val::T("signature".into()), Val::B(self.sig.clone())),
        ];
        if let Some((s, c)) = &self.delegation {
            m.push((
                Val::T("delegation".into()),
                Val::M(vec![
                    (Val::T("subnet_id".into()), Val::B(s.clone())),
                    (Val::T("certificate".into()), Val::B(c.clone())),
                ]),
            ));
        }
        cbor::self_described(&Val::M(m))
    }
    pub fn time(&self) -> Option<u128> {
        let b = self.tree.leaf_at(&[b"time".as_slice()])?;
        let mut n = 0u128;
        for (i, x) in b.iter().enumerate() {
            if i >= 10 {
                return None;
            }
            n |= ((x & 0x7f) as u128) << (7 * i);
            if x & 0x80 == 0 {
                return (n <= u64::MAX as u128).then_some(n);
            }
        }
        None
    }
}

#[derive(Clone, Debug)]
pub struct Evidence {
    pub cert: Cert,
    pub tree: T,
    pub version: u8,
    pub expr_path: Option<Vec<String>>,
}

impl Evidence {
    pub fn parse(header: &str) -> Option<Evidence> {
        let (mut c, mut t, mut v, mut e) = (None, None, None, None);
        for f in header.split(',') {
            let Some((name, val)) = f.trim().split_once('=') else { continue };
            let val = val.strip_prefix(':').unwrap_or(val);
            let val = val.strip_suffix(':').unwrap_or(val);
            if val.is_empty() || val.contains(':') {
                continue;
            }
            let slot = match name {
                "certificate" => &mut c,
                "tree" => &mut t,
                "version" => &mut v,
                "expr_path" => &mut e,
                _ => continue,
            };
            if slot.is_none() {
                *slot = Some(val)
            }
        }
        let b64 = |s: &str| STANDARD.decode(s).ok();
        let version = match v {
            None => 1,
            Some(s) => s.parse::<u8>().ok()?,
        };
        let expr_path = match e {
            None => None,
            Some(s) => {
                let Val::A(a) = cbor::untag(cbor::read(&b64(s)?)?) else { return None };
                let mut p = vec![];
                for x in a {
                    let Val::T(x) = x else { return None };
                    p.push(x);
                }
                Some(p)
            }
        };
        Some(Evidence { cert: Cert::decode(&b64(c?)?)?, tree: T::decode(&b64(t?)?)?, version, expr_path })
    }

    pub fn print(&self) -> String {
        let mut s = format!(
            "certificate=:{}:, tree=:{}:, version={}",
            STANDARD.encode(self.cert.encode()),
            STANDARD.encode(cbor::self_described(&self.tree.to_val())),
            self.version
        );
        if let Some(p) = &self.expr_path {
            let v = Val::A(p.iter().map(|x| Val::T(x.clone())).collect());
            s += &format!(", expr_path=:{}:", STANDARD.encode(cbor::self_described(&v)));
        }
        s
    }
}

pub fn header<'a>(h: &'a Hdrs, name: &str) -> Option<&'a str> {
    h.iter().filter(|(k, _)| k.eq_ignore_ascii_case(name)).last().map(|x| x.1.as_str())
}

pub fn request_hash(headers: &[String], query: &[String], r: &Req) -> Option<H> {
    let parts = url::split(&r.url)?;
    let q = parts.query.map(|q| {
        q.split('&')
            .filter(|f| {
                let name = f.split('=').next().unwrap();
                query.iter().any(|x| x.eq_ignore_ascii_case(name))
            })
            .collect::<Vec<_>>()
            .join("&")
    });
    let mut m: Vec<(String, V)> = r
        .headers
        .iter()
        .filter(|(k, _)| headers.iter().any(|x| x.eq_ignore_ascii_case(k)))
        .map(|(k, v)| (k.to_ascii_lowercase(), V::S(v.as_str())))
        .collect();
    m.push((":ic-cert-method".into(), V::S(&r.method)));
    if let Some(q) = &q {
        m.push((":ic-cert-query".into(), V::S(q)));
    }
    Some(sha_all(&[&hash_of_map(&m), &sha(&r.body)]))
}

/// The response headers covered by the certification, lower-cased, in order.
pub fn covered_headers(rc: &RespCert, r: &Resp) -> Hdrs {
    r.headers
        .iter()
        .filter(|(k, _)| {
            !k.eq_ignore_ascii_case("ic-certificate")
                && (k.eq_ignore_ascii_case("ic-certificateexpression") || rc.covers(k))
        })
        .map(|(k, v)| (k.to_ascii_lowercase(), v.clone()))
        .collect()
}

pub fn response_hash(rc: &RespCert, r: &Resp) -> H {
    let hs = covered_headers(rc, r);
    let mut m: Vec<(String, V)> = hs.iter().map(|(k, v)| (k.clone(), V::S(v.as_str()))).collect();
    m.push((":ic-cert-status".into(), V::N(r.status as u64)));
    sha_all(&[&hash_of_map(&m), &sha(&r.body)])
}

/// Wildcard prefixes to try for a request path, most specific first.
pub fn wildcard_candidates(req: &[String]) -> Vec<Vec<String>> {
    let mut out = vec![req.to_vec()];
    let mut cur = req.to_vec();
    if cur.last().map(|s| s.is_empty()).unwrap_or(false) {
        cur.pop();
        if !cur.is_empty() {
            out.push(cur.clone());
        }
    }
    while let Some(_) = cur.pop() {
        let mut d = cur.clone();
        d.push(String::new());
        if !out.contains(&d) {
            out.push(d);
        }
        if !cur.is_empty() {
            out.push(cur.clone());
        }
    }
    out.push(vec![]);
    out
}

/// May a wildcard with this prefix answer this request path at all?
pub fn wildcard_matches(w: &[String], req: &[String]) -> bool {
    if req.starts_with(w) {
        return true;
    }
    // a directory "/a/" covers what lies below it, but not the path "/a"
    w.last().map(|s| s.is_empty()).unwrap_or(false) && req.len() >= w.len() && req.starts_with(&w[..w.len() - 1])
}

pub struct Env<'a> {
    pub canister: &'a [u8],
    pub now: u128,
    pub offset: u128,
    pub root_key: &'a [u8],
    pub min_version: u8,
    /// Ground truth of the signature scheme: (96-byte key, signature, root hash).
    pub bls_ok: &'a dyn Fn(&[u8], &[u8], &H) -> bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Accepted {
    pub version: u8,
    pub content: Option<(Option<u16>, Hdrs, Vec<u8>)>,
    pub request_bound: bool,
}

fn raw_key(der: &[u8]) -> Option<&[u8]> {
    (der.len() == 133 && &der[..37] == DER).then(|| &der[37..])
}

pub fn sorted(mut h: Hdrs) -> Hdrs {
    h.sort();
    h
}

pub fn check_cert(c: &Cert, e: &Env, why: &mut Vec<Reason>) {
    match c.time() {
        Some(t) if t.abs_diff(e.now) <= e.offset => {}
        _ => why.push(Reason::Time),
    }
    let key = match &c.delegation {
        None => Some(e.root_key.to_vec()),
        Some((subnet, dc)) => match Cert::decode(dc) {
            None => {
                why.push(Reason::Malformed);
                None
            }
            Some(dc) => {
                if dc.delegation.is_some() {
                    why.push(Reason::Nested);
                }
                let ok = raw_key(e.root_key).map(|k| (e.bls_ok)(k, &dc.sig, &dc.tree.digest())).unwrap_or(false);
                if !ok {
                    why.push(Reason::DelegationSignature);
                }
                let ranges = dc
                    .tree
                    .leaf_at(&[b"subnet".as_slice(), subnet, b"canister_ranges"])
                    .and_then(|b| cbor::read(b))
                    .map(cbor::untag);
                let mut inside = false;
                if let Some(Val::A(rs)) = ranges {
                    for r in rs {
                        if let Val::A(p) = r {
                            if let [Val::B(a), Val::B(b)] = p.as_slice() {
                                inside |= a.as_slice() <= e.canister && e.canister <= b.as_slice();
                            }
                        }
                    }
                }
                if !inside {
                    why.push(Reason::Range);
                }
                let k = dc.tree.leaf_at(&[b"subnet".as_slice(), subnet, b"public_key"]).map(|k| k.to_vec());
                if k.is_none() {
                    why.push(Reason::SubnetKey);
                }
                k
            }
        },
    };
    if let Some(k) = key {
        let ok = raw_key(&k).map(|k| (e.bls_ok)(k, &c.sig, &c.tree.digest())).unwrap_or(false);
        if !ok {
            why.push(Reason::Signature);
        }
    }
}

pub fn decode_body(b: &[u8], enc: Option<&str>) -> Option<Vec<u8>> {
    let mut out = vec![];
    match enc {
        Some("gzip") => flate2::read::GzDecoder::new(b).take(1 << 24).read_to_end(&mut out).ok()?,
        Some("deflate") => flate2::read::DeflateDecoder::new(b).take(1 << 24).read_to_end(&mut out).ok()?,
        _ => return Some(b.to_vec()),
    };
    Some(out)
}

pub fn verify(req: &Req, resp: &Resp, env: &Env) -> Result<Accepted, Vec<Reason>> {
    let Some(hv) = header(&resp.headers, "ic-certificate") else { return Err(vec![Reason::MissingHeader]) };
    let Some(ev) = Evidence::parse(hv) else { return Err(vec![Reason::Malformed]) };
    let mut why = vec![];
    if ev.version < env.min_version {
        why.push(Reason::MinVersion);
    }
    if ev.version != 1 && ev.version != 2 {
        why.push(Reason::UnsupportedVersion);
    }
    let Some(parts) = url::split(&req.url) else { return Err(vec![Reason::Malformed]) };
    check_cert(&ev.cert, env, &mut why);
    match ev.cert.tree.leaf_at(&[b"canister".as_slice(), env.canister, b"certified_data"]) {
        None => why.push(Reason::CertifiedData),
        Some(d) => {
            if d != ev.tree.digest() {
                why.push(Reason::Digest)
            }
        }
    }
    if ev.version == 1 {
        let enc = header(&resp.headers, "content-encoding");
        let stored = ev
            .tree
            .leaf_at(&[b"http_assets".as_slice(), parts.path.as_bytes()])
            .or_else(|| ev.tree.leaf_at(&[b"http_assets".as_slice(), b"/index.html"]));
        // a body that claims an encoding must decode
        let decoded = decode_body(&resp.body, enc);
        let ok = match (&stored, &decoded) {
            (Some(s), Some(d)) => *s == sha(d) || (enc.is_some() && *s == sha(&resp.body)),
            _ => false,
        };
        if !ok {
            why.push(Reason::V1Body);
        }
        if !why.is_empty() {
            return Err(why);
        }
        return Ok(Accepted { version: 1, content: Some((None, vec![], resp.body.clone())), request_bound: false });
    }
    if ev.version != 2 {
        return Err(why);
    }
    let Some(expr) = header(&resp.headers, "ic-certificateexpression") else {
        why.push(Reason::MissingHeader);
        return Err(why);
    };
    let (Some(cel), Some(path)) = (cel::parse(expr), ev.expr_path.clone()) else {
        why.push(Reason::Malformed);
        return Err(why);
    };
    // expression path against the request path
    let segs = url::segments(&parts.path);
    let full = |s: &[String], term: &str| {
        let mut p = vec!["http_expr".to_string()];
        p.extend(s.iter().cloned());
        p.push(term.into());
        p
    };
    let exact = full(&segs, "<$>");
    let found = |p: &[String]| matches!(ev.tree.lookup(p), Look::Found(_));
    let absent = |p: &[String]| matches!(ev.tree.lookup(p), Look::Absent);
    let n = path.len();
    if n < 2 || path[0] != "http_expr" || !(path[n - 1] == "<$>" || path[n - 1] == "<*>") {
        why.push(Reason::ExprPath);
    } else if path[n - 1] == "<$>" {
        if path != exact {
            why.push(Reason::ExprPath);
        }
    } else {
        let w = &path[1..n - 1];
        if !wildcard_matches(w, &segs) {
            why.push(Reason::ExprPath);
        } else {
            if !absent(&exact) {
                why.push(Reason::Precedence);
            }
            for c in wildcard_candidates(&segs) {
                if c == w {
                    break;
                }
                if !absent(&full(&c, "<*>")) {
                    why.push(Reason::Precedence);
                    break;
                }
            }
        }
    }
    if !found(&path) {
        why.push(Reason::ExprPath);
    }
    let mut p: Vec<Vec<u8>> = path.iter().map(|s| s.as_bytes().to_vec()).collect();
    p.push(sha(expr.as_bytes()).to_vec());
    if !matches!(ev.tree.lookup(&p), Look::Found(_)) {
        why.push(Reason::ExprHash);
    }
    let acc = match &cel {
        Cel::Skip => Accepted { version: 2, content: None, request_bound: false },
        Cel::Response(rc) | Cel::Full { resp: rc, .. } => {
            let mut bound = false;
            match &cel {
                Cel::Full { headers, query, .. } => {
                    bound = true;
                    match request_hash(headers, query, req) {
                        Some(h) => p.push(h.to_vec()),
                        None => return Err(vec![Reason::Malformed]),
                    }
                }
                _ => p.push(vec![]),
            }
            if !matches!(ev.tree.lookup(&p), Look::Found(_)) {
                why.push(Reason::RequestHash);
            } else {
                p.push(response_hash(rc, resp).to_vec());
                if ev.tree.leaf_at(&p) != Some(b"") {
                    why.push(Reason::ResponseHash);
                }
            }
            Accepted {
                version: 2,
                content: Some((Some(resp.status), covered_headers(rc, resp), resp.body.clone())),
                request_bound: bound,
            }
        }
    };
    if why.is_empty() {
        Ok(acc)
    } else {
        why.sort();
        why.dedup();
        Err(why)
    }
}
