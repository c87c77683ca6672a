//! The simulated deployment: subnets, canisters (real certification library or reference
//! canister), certified snapshots, replicas, gateways and messages.
use crate::ctx::Ctx;
use crate::ic::{self, *};
use crate::refimpl::canister::{full_tree, Entry};
use crate::refimpl::cel::{self, Cel, RespCert};
use crate::refimpl::hashes::{sha, H};
use crate::refimpl::rtree::{fork, from_paths, T};
use crate::refimpl::url;
use crate::refimpl::verify::*;
use ic_http_certification::{
    utils::{add_skip_certification_header, add_v2_certificate_header, skip_certification_certified_data},
    DefaultCelBuilder, DefaultResponseCertification, HttpCertification, HttpCertificationPath, HttpCertificationTree,
    HttpCertificationTreeEntry, HttpRequest, HttpResponse, Method, StatusCode,
};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// certified with the library under test
    V2,
    /// certified by the independent reference canister
    RefV2,
    /// legacy asset canister
    V1,
    /// reference canister with both a v1 and a v2 tree
    Dual,
    /// uses the library's whole-canister skip helper
    SkipAll,
}

#[derive(Clone)]
pub struct Canister {
    pub id: Vec<u8>,
    pub subnet: usize,
    pub kind: Kind,
    pub tree: HttpCertificationTree,
    pub live: Vec<Rc<Entry>>,
    pub v1: BTreeMap<String, Vec<u8>>,
    /// entries removed at some time (probes for revocation)
    pub dead: Vec<Rc<Entry>>,
}

pub struct Round {
    pub subnet: usize,
    pub time: u64,
    pub state: T,
    pub key: usize,
    pub delegation: Option<(Vec<u8>, Vec<u8>)>,
}

pub struct Snap {
    pub canister: usize,
    pub round: usize,
    pub entries: Vec<Rc<Entry>>,
    pub v1: BTreeMap<String, Vec<u8>>,
    pub tree: HttpCertificationTree,
    pub root: H,
    pub ref_tree: Option<T>,
    pub full: std::cell::RefCell<Option<T>>,
}

#[derive(Clone)]
pub struct Msg {
    pub canister: usize,
    pub snap: usize,
    pub entry: Option<Rc<Entry>>,
    pub req: Req,
    pub resp: Resp,
    pub gw: usize,
    pub sent_at: u64,
    /// every manipulation so far is one the properties declare harmless
    pub benign: bool,
    pub muts: Vec<&'static str>,
    pub opaque: bool,
}

pub struct Gateway {
    pub skew: i128,
    pub offset: u128,
    pub min_version: u8,
}

pub struct World {
    pub profile: String,
    pub now: u64,
    pub t0: u64,
    pub ledger: Ledger,
    pub subnets: Vec<Subnet>,
    /// delegation certificate (root signed) per subnet, current
    pub delegations: Vec<Option<(Vec<u8>, Vec<u8>)>>,
    pub canisters: Vec<Canister>,
    pub rounds: Vec<Round>,
    pub snaps: Vec<Snap>,
    pub flight: Vec<Msg>,
    pub archive: Vec<Msg>,
    pub gws: Vec<Gateway>,
    pub uniq: u64,
    pub attacks: u32,
    pub noise: bool,
    /// Canisters sometimes have something else, or nothing yet, as their certified data.
    pub unset: bool,
}

pub const HDR_POOL: [&str; 10] =
    ["Cache-Control", "etag", "X-Foo", "Content-Type", "Set-Cookie", "x_under", "X.Dot", "Accept-Ranges", "x", "Content-Encoding"];
pub const REQ_HDR_POOL: [&str; 6] = ["Accept", "host", "X-Token", "If-None-Match", "x_req", "Cookie"];
pub const QUERY_POOL: [&str; 6] = ["q", "page", "user_id", "Name", "f.x", "a[b]"];
pub const VAL_POOL: [&str; 11] = ["", "a", " a", "b ", "b", "no-cache", "text/html; charset=utf-8", "v1, v2", "ü", "0", "identity"];
pub const SEG_POOL: [&str; 15] = ["a", "b", "c", "index.html", "aa", "a b", "ü", "100%", "A", "%61", "a+b", "a%20b", "\u{1f600}", ".", ".."];

pub fn pick_some(ctx: &mut Ctx, pool: &[&str], max: u64) -> Vec<String> {
    let n = ctx.src.draw(max + 1);
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        let x = ctx.src.pick(pool).to_string();
        if !v.iter().any(|y| y.eq_ignore_ascii_case(&x)) {
            v.push(x);
        }
    }
    if n == max && ctx.src.chance(1, 10) {
        // a long list
        for i in 0..ctx.src.draw(40) {
            v.push(format!("{LONG_NAME}{i}"));
        }
    }
    v
}
/// Names of long lists; headers use them too.
pub const LONG_NAME: &str = "x-n";

/// A name which is none of these, though often close to one of them.
pub fn other_name(ctx: &mut Ctx, names: &[String], plain: &str) -> Option<String> {
    let near = if names.is_empty() || ctx.src.chance(1, 2) {
        plain.to_string()
    } else {
        let n = ctx.src.pick(names).clone();
        match ctx.src.draw(5) {
            0 => format!("{n}x"),
            1 => format!("x{n}"),
            2 => format!("{n}-{n}"),
            3 => n.chars().skip(1).collect(),
            _ => n.chars().take(n.chars().count() - 1).collect(),
        }
    };
    (!near.is_empty() && !names.iter().any(|x| x.eq_ignore_ascii_case(&near))).then_some(near)
}

pub fn flip_case(s: &str, r: u64) -> String {
    s.chars()
        .enumerate()
        .map(|(i, c)| {
            if r >> (i % 60) & 1 == 1 {
                if c.is_ascii_uppercase() {
                    c.to_ascii_lowercase()
                } else {
                    c.to_ascii_uppercase()
                }
            } else {
                c
            }
        })
        .collect()
}

pub fn path_str(segs: &[String]) -> String {
    if segs.is_empty() {
        return String::new();
    }
    format!("/{}", segs.join("/"))
}

/// Percent-encodes a path segment; `extra` also encodes some characters that need no encoding.
pub fn enc_seg(s: &str, extra: u64) -> String {
    let mut o = String::new();
    for (i, b) in s.bytes().enumerate() {
        let plain = b.is_ascii_alphanumeric() || b"-._~!$'()*,;=:@".contains(&b);
        if plain && extra >> (i % 60) & 1 == 0 {
            o.push(b as char)
        } else {
            // hexadecimal digits have no case
            o += &if extra >> (i * 7 % 59) & 1 == 0 { format!("%{b:02X}") } else { format!("%{b:02x}") }
        }
    }
    o
}

pub fn gen_segs(ctx: &mut Ctx, max: u64) -> Vec<String> {
    let mut depth = ctx.src.draw(max + 1);
    if ctx.src.chance(1, 16) {
        depth += ctx.src.draw(14);
        ctx.stat("noise.deep_path");
    }
    // small pool most of the time, so that paths nest and collide
    let pool = if ctx.src.chance(3, 4) { &SEG_POOL[..3] } else { &SEG_POOL[..] };
    let mut v: Vec<String> = (0..depth).map(|_| ctx.src.pick(pool).to_string()).collect();
    if !v.is_empty() && ctx.src.chance(1, 20) {
        v[0] = "http_expr".into();
    }
    if !v.is_empty() && ctx.src.chance(1, 40) {
        let i = ctx.src.idx(v.len());
        v[i] = long_text(ctx);
    }
    if ctx.src.chance(1, 4) {
        v.push(String::new());
    }
    v
}

/// A long text; two of the same length differ only at the end.
pub fn long_text(ctx: &mut Ctx) -> String {
    let n = *ctx.src.pick(&[60usize, 100, 127, 128, 255, 256, 257, 1000, 4096, 8192, 20_000]);
    ctx.stat("noise.long_text");
    format!("{}{}", "v".repeat(n), ctx.src.draw(4))
}

pub fn gen_headers(ctx: &mut Ctx, pool: &[&str], max: u64) -> Hdrs {
    let mut n = ctx.src.draw(max + 1);
    if ctx.src.chance(1, 24) {
        n += ctx.src.draw(40);
        ctx.stat("noise.many_headers");
    }
    (0..n)
        .map(|_| {
            let k = if ctx.src.chance(1, 16) { format!("{LONG_NAME}{}", ctx.src.draw(40)) } else { ctx.src.pick(pool).to_string() };
            let v = if ctx.src.chance(1, 60) { long_text(ctx) } else { ctx.src.pick(&VAL_POOL).to_string() };
            let f = if ctx.src.chance(1, 3) { ctx.src.seed() } else { 0 };
            (flip_case(&k, f), v)
        })
        .collect()
}

fn strs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}
fn real_rc(rc: &RespCert) -> DefaultResponseCertification<'_> {
    match rc {
        RespCert::Include(l) => DefaultResponseCertification::certified_response_headers(strs(l)),
        RespCert::Exclude(l) => DefaultResponseCertification::response_header_exclusions(strs(l)),
    }
}

/// The expression text the library under test creates for this configuration.
pub fn real_cel_string(c: &Cel) -> String {
    match c {
        Cel::Skip => DefaultCelBuilder::skip_certification().to_string(),
        Cel::Response(rc) => {
            DefaultCelBuilder::response_only_certification().with_response_certification(real_rc(rc)).build().to_string()
        }
        Cel::Full { headers, query, resp } => DefaultCelBuilder::full_certification()
            .with_request_headers(strs(headers))
            .with_request_query_parameters(strs(query))
            .with_response_certification(real_rc(resp))
            .build()
            .to_string(),
    }
}

pub fn real_req(r: &Req) -> HttpRequest<'static> {
    HttpRequest::builder()
        .with_method(Method::from_bytes(r.method.as_bytes()).unwrap())
        .with_url(r.url.clone())
        .with_headers(r.headers.clone())
        .with_body(r.body.clone())
        .build()
}
pub fn real_resp(r: &Resp) -> HttpResponse<'static> {
    HttpResponse::builder()
        .with_status_code(StatusCode::from_u16(r.status).unwrap())
        .with_headers(r.headers.clone())
        .with_body(r.body.clone())
        .build()
}

pub fn real_path(e: &Entry) -> HttpCertificationPath<'static> {
    let p = path_str(&e.segs);
    if e.wild {
        HttpCertificationPath::wildcard(p)
    } else {
        HttpCertificationPath::exact(p)
    }
}

pub fn real_entry(e: &Entry) -> HttpCertificationTreeEntry<'static> {
    let resp = real_resp(&e.resp);
    let c = match &e.cel {
        Cel::Skip => HttpCertification::skip(),
        Cel::Response(rc) => {
            let x = DefaultCelBuilder::response_only_certification().with_response_certification(real_rc(rc)).build();
            HttpCertification::response_only(&x, &resp, None).expect("response_only")
        }
        Cel::Full { headers, query, resp: rc } => {
            let x = DefaultCelBuilder::full_certification()
                .with_request_headers(strs(headers))
                .with_request_query_parameters(strs(query))
                .with_response_certification(real_rc(rc))
                .build();
            HttpCertification::full(&x, &real_req(e.req.as_ref().unwrap()), &resp, None).expect("full")
        }
    };
    HttpCertificationTreeEntry::new(real_path(e), c)
}

/// None for a tree deeper than the reference reader goes.
pub fn try_to_ref(t: &ic_certification::HashTree) -> Option<T> {
    T::decode(&serde_cbor::to_vec(t).ok()?)
}

pub fn to_ref(t: &ic_certification::HashTree) -> T {
    T::decode(&serde_cbor::to_vec(t).expect("serialise tree")).expect("library tree decodes")
}

pub fn gen_query(ctx: &mut Ctx) -> Option<String> {
    match ctx.src.draw(4) {
        0 | 1 => None,
        _ => {
            let n = ctx.src.draw(4);
            let v: Vec<String> = (0..n)
                .map(|_| {
                    let long = format!("{LONG_NAME}{}", ctx.src.draw(40));
                    let k = if ctx.src.chance(1, 16) { &long } else { *ctx.src.pick(&QUERY_POOL) };
                    let kinds = if ctx.src.chance(1, 30) { 8 } else { 7 };
                    match ctx.src.draw(kinds) {
                        7 => format!("{k}={}", long_text(ctx)),
                        0 => format!("{k}="),
                        1 => k.to_string(),
                        2 => format!("{k}=x=y"),
                        3 => format!("{k}={}", ctx.src.pick(&["a%26b", "a+b", "%61", "%2B", "a;b", "/?x", "%C3%BC"])),
                        4 => {
                            // the name in another spelling is another parameter
                            let k = k.replace('e', "%65").replace('q', "%71");
                            format!("{k}={}", ctx.src.draw(3))
                        }
                        _ => format!("{k}={}", ctx.src.draw(3)),
                    }
                })
                .collect();
            // brackets are not legal in a URI query for every parser
            Some(v.join("&").replace('[', "%5B").replace(']', "%5D"))
        }
    }
}

impl World {
    pub fn w(&self, p: &str) -> bool {
        self.profile == p
    }

    pub fn gen_cel(&mut self, ctx: &mut Ctx, fixed: Option<Cel>) -> Cel {
        if let Some(c) = fixed {
            return c;
        }
        let w: [u32; 3] = match self.profile.as_str() {
            "C06" => [40, 30, 30],
            "C04" => [4, 16, 80],
            _ => [10, 45, 45],
        };
        let k = ctx.src.weighted(&w);
        if k == 0 {
            return Cel::Skip;
        }
        let rc = if ctx.src.chance(1, 2) {
            RespCert::Exclude(pick_some(ctx, &HDR_POOL, 3))
        } else {
            RespCert::Include(pick_some(ctx, &HDR_POOL, 4))
        };
        if k == 1 {
            Cel::Response(rc)
        } else {
            Cel::Full { headers: pick_some(ctx, &REQ_HDR_POOL, 3), query: pick_some(ctx, &QUERY_POOL, 3), resp: rc }
        }
    }

    pub fn gen_entry(&mut self, ctx: &mut Ctx, kind: Kind, like: Option<&Entry>) -> Option<Entry> {
        self.uniq += 1;
        let (segs, wild) = match like {
            // same path as an existing entry: several expressions, requests or responses on it
            Some(e) if ctx.src.chance(1, 2) => (e.segs.clone(), e.wild),
            // a neighbour of it: parent, child, with or without trailing slash, exact/wildcard twin
            Some(e) => {
                let mut s = e.segs.clone();
                match ctx.src.draw(5) {
                    0 => {
                        s.pop();
                    }
                    1 => s.push("a".into()),
                    2 => {
                        if s.last().map(|x| x.is_empty()).unwrap_or(false) {
                            s.pop();
                        } else {
                            s.push(String::new())
                        }
                    }
                    3 => {
                        s.pop();
                        s.push("b".into())
                    }
                    _ => {}
                }
                // an empty segment can only be last
                let n = s.len();
                let s: Vec<String> =
                    s.into_iter().enumerate().filter(|(i, x)| !x.is_empty() || i + 1 == n).map(|x| x.1).collect();
                (s, ctx.src.chance(1, 2))
            }
            None => (gen_segs(ctx, 3), ctx.src.chance(1, 2)),
        };
        let segs = if !wild && segs.is_empty() { vec![String::new()] } else { segs };
        let fixed = match like {
            Some(e) if ctx.src.chance(1, 3) => Some(e.cel.clone()),
            _ => None,
        };
        let cel = self.gen_cel(ctx, fixed);
        let ref_made = matches!(kind, Kind::RefV2 | Kind::Dual);
        let cel_str = if ref_made {
            cel.print()
        } else {
            let c2 = cel.clone();
            ctx.sut(&["C20", "C02"], "cel_to_string", move || real_cel_string(&c2))?
        };
        if !ref_made && cel::parse(&cel_str).as_ref() != Some(&cel) {
            ctx.violate(
                &["C20"],
                "cel-text",
                format!("the library's expression text for {cel:?} does not mean that: {cel_str}"),
            );
        }
        let body = match ctx.src.draw(6) {
            0 => vec![],
            1 => {
                let n = if ctx.src.chance(1, 16) { *ctx.src.pick(&[32_768usize, 65_535, 65_536, 200_000, 1_048_577, 2_100_000]) } else { ctx.src.idx(300) };
                let s = ctx.src.seed();
                crate::prng::Prng::new(s).bytes(n)
            }
            _ => format!("body-{}", self.uniq).into_bytes(),
        };
        let mut headers = gen_headers(ctx, &HDR_POOL, 5);
        let at = ctx.src.idx(headers.len() + 1);
        let name = if ctx.src.chance(1, 4) { flip_case("IC-CertificateExpression", ctx.src.seed()) } else { "IC-CertificateExpression".into() };
        headers.insert(at, (name, cel_str.clone()));
        let status = *ctx.src.pick(&[200u16, 404, 301, 206, 500, 201, 100, 599, 204, 304, 101, 999, 256]);
        let resp = Resp { status, headers, body };
        let req = if let Cel::Full { .. } = &cel {
            let like_req = like.and_then(|e| e.req.clone()).filter(|_| ctx.src.chance(1, 2));
            let (method, q, h, b) = match like_req {
                Some(r) => {
                    // differ in one part only
                    let (m, q, h, b) =
                        (r.method.clone(), r.url.split_once('?').map(|x| x.1.to_string()), r.headers.clone(), r.body.clone());
                    match ctx.src.draw(4) {
                        0 => ("PUT".to_string(), q, h, b),
                        1 => (m, gen_query(ctx), h, b),
                        2 => (m, q, gen_headers(ctx, &REQ_HDR_POOL, 3), b),
                        _ => (m, q, h, b"other".to_vec()),
                    }
                }
                None => {
                    let m = ctx.src.pick(&["GET", "POST", "PUT", "HEAD", "DELETE", "PURGE"]).to_string();
                    let q = gen_query(ctx);
                    let h = gen_headers(ctx, &REQ_HDR_POOL, 4);
                    let b = if ctx.src.chance(1, 3) { format!("rq{}", if ctx.src.chance(1, 30) { long_text(ctx) } else { ctx.src.draw(3).to_string() }).into_bytes() } else { vec![] };
                    (m, q, h, b)
                }
            };
            let p = path_str(&segs.iter().map(|s| enc_seg(s, 0)).collect::<Vec<_>>());
            let p = if p.is_empty() { "/".to_string() } else { p };
            Some(Req { method, url: p + &q.map(|q| format!("?{q}")).unwrap_or_default(), headers: h, body: b })
        } else {
            None
        };
        Some(Entry { segs, wild, cel, cel_str, req, resp })
    }

    pub fn v1_tree(v1: &BTreeMap<String, Vec<u8>>) -> T {
        let ps: Vec<_> = v1
            .iter()
            .map(|(p, b)| (vec![b"http_assets".to_vec(), p.as_bytes().to_vec()], sha(b).to_vec()))
            .collect();
        if ps.is_empty() {
            return crate::refimpl::rtree::lab(b"http_assets", T::Empty);
        }
        from_paths(&ps)
    }

    /// The tree a reference canister certifies.
    pub fn ref_tree(c: &Canister) -> Option<T> {
        let e: Vec<Entry> = c.live.iter().map(|e| (**e).clone()).collect();
        match c.kind {
            Kind::V2 | Kind::SkipAll => None,
            Kind::RefV2 => Some(full_tree(&e)),
            Kind::V1 => Some(World::v1_tree(&c.v1)),
            Kind::Dual => Some(fork(World::v1_tree(&c.v1), full_tree(&e))),
        }
    }

    pub fn root_of(&self, ctx: &mut Ctx, c: &Canister) -> Option<H> {
        match c.kind {
            Kind::V2 => ctx.sut(&["C13"], "root_hash", || c.tree.root_hash()),
            Kind::SkipAll => ctx.sut(&["C06"], "skip_certification_certified_data", skip_certification_certified_data),
            _ => Some(World::ref_tree(c).unwrap().digest()),
        }
    }

    pub fn make_delegation(&mut self, ctx: &mut Ctx, s: usize) {
        if self.subnets[s].root {
            self.delegations[s] = None;
            return;
        }
        // the root subnet certifies its state; how much of it is revealed varies
        let t = self.now.saturating_sub(ctx.src.draw(4) * 86_400_000_000_000);
        let full = ic::subnet_state(t, &self.subnets);
        let id = self.subnets[s].id.clone();
        let mut keep = vec![
            time_path(),
            vec![b"subnet".to_vec(), id.clone(), b"canister_ranges".to_vec()],
            vec![b"subnet".to_vec(), id.clone(), b"public_key".to_vec()],
        ];
        let tree = match ctx.src.draw(3) {
            0 => full.reveal(&keep),
            1 => {
                keep.push(vec![b"subnet".to_vec(), id.clone()]);
                full.reveal(&keep)
            }
            _ => full,
        };
        let c = ic::seal(ctx, &self.ledger, K_ROOT, tree, None);
        self.delegations[s] = Some((id, c.encode()));
    }

    pub fn round(&mut self, ctx: &mut Ctx, s: usize) -> Option<()> {
        let ids: Vec<usize> = (0..self.canisters.len()).filter(|i| self.canisters[*i].subnet == s).collect();
        let mut data = vec![];
        let mut roots = vec![];
        let mut other = std::collections::BTreeSet::new();
        for i in &ids {
            let c = self.canisters[*i].clone();
            let r = self.root_of(ctx, &c)?;
            let mut d = r.to_vec();
            if self.unset && c.kind != Kind::SkipAll && ctx.src.chance(1, 10) {
                ctx.stat("fault.other_certified_data");
                other.insert(*i);
                d = match ctx.src.draw(4) {
                    0 | 1 => vec![],
                    2 => d[..1 + ctx.src.idx(31)].to_vec(),
                    _ => sha(b"a certified data of the application's own").to_vec(),
                };
            }
            roots.push(r);
            data.push((c.id.clone(), d));
        }
        let state = ic::canister_state(self.now, &data, self.noise);
        let ri = self.rounds.len();
        self.rounds.push(Round { subnet: s, time: self.now, state, key: self.subnets[s].key, delegation: self.delegations[s].clone() });
        for (k, i) in ids.iter().enumerate() {
            let mut c = self.canisters[*i].clone();
            if other.contains(i) {
                c.live.clear();
                c.v1.clear();
                c.tree = Default::default();
            }
            self.snaps.push(Snap {
                canister: *i,
                round: ri,
                entries: c.live.clone(),
                v1: c.v1.clone(),
                tree: c.tree.clone(),
                root: roots[k],
                ref_tree: World::ref_tree(&c),
                full: Default::default(),
            });
        }
        ctx.stat("op.round");
        Some(())
    }

    /// The certificate a replica hands to a canister for this snapshot.
    pub fn cert(&self, ctx: &mut Ctx, snap: usize, minimal: bool) -> Cert {
        let sn = &self.snaps[snap];
        let r = &self.rounds[sn.round];
        let id = &self.canisters[sn.canister].id;
        let tree = if minimal { r.state.reveal(&[time_path(), data_path(id)]) } else { r.state.clone() };
        ic::seal(ctx, &self.ledger, r.key, tree, r.delegation.clone())
    }

    /// Everything the snapshot's canister could ever disclose about its tree, merged: what a
    /// byzantine replica can choose from.
    pub fn full(&self, ctx: &mut Ctx, snap: usize) -> Option<T> {
        let sn = &self.snaps[snap];
        if let Some(t) = sn.full.borrow().as_ref() {
            return Some(t.clone());
        }
        let t = match &sn.ref_tree {
            Some(t) => t.clone(),
            None if self.canisters[sn.canister].kind == Kind::SkipAll => {
                let c = Cel::Skip;
                let mut p = vec![b"http_expr".to_vec(), b"<*>".to_vec()];
                p.push(sha(real_cel_string(&c).as_bytes()).to_vec());
                from_paths(&[(p, vec![])])
            }
            None => {
                let tree = sn.tree.clone();
                let es = sn.entries.clone();
                ctx.sut(&["C13", "C02"], "witness-all", move || full_of(&tree, &es))??
            }
        };
        *sn.full.borrow_mut() = Some(t.clone());
        Some(t)
    }

    pub fn gw_now(&self, g: usize) -> u128 {
        (self.now as i128 + self.gws[g].skew).max(0) as u128
    }

    /// Which entries may answer this request path in this set: the most specific ones.
    pub fn best<'a>(entries: &'a [Rc<Entry>], segs: &[String]) -> Vec<&'a Rc<Entry>> {
        let ex: Vec<_> = entries.iter().filter(|e| !e.wild && e.segs == segs).collect();
        if !ex.is_empty() {
            return ex;
        }
        for c in wildcard_candidates(segs) {
            let v: Vec<_> = entries.iter().filter(|e| e.wild && e.segs == c).collect();
            if !v.is_empty() {
                return v;
            }
        }
        vec![]
    }

    /// As `best`, but as permissive as the protocol: may this entry legitimately answer?
    pub fn legit(entries: &[Rc<Entry>], e: &Entry, segs: &[String]) -> bool {
        if !e.wild {
            return e.segs == segs;
        }
        if !wildcard_matches(&e.segs, segs) || entries.iter().any(|x| !x.wild && x.segs == segs) {
            return false;
        }
        for c in wildcard_candidates(segs) {
            if c == e.segs {
                break;
            }
            if entries.iter().any(|x| x.wild && x.segs == c) {
                return false;
            }
        }
        true
    }
}

/// Library tree -> everything it can prove about these entries.
pub fn full_of(tree: &HttpCertificationTree, entries: &[Rc<Entry>]) -> Option<T> {
    let mut acc = T::Pruned(tree.root_hash());
    for e in entries {
        let p = path_str(&e.segs);
        let w = tree.witness(&real_entry(e), if p.is_empty() { "/" } else { &p }).ok()?;
        acc = T::merge(&acc, &to_ref(&w));
    }
    Some(acc)
}

pub fn same_request(headers: &[String], query: &[String], a: &Req, b: &Req) -> bool {
    let f = |r: &Req| {
        let mut h: Vec<(String, String)> = r
            .headers
            .iter()
            .filter(|(k, _)| headers.iter().any(|x| x.eq_ignore_ascii_case(k)))
            .map(|(k, v)| (k.to_ascii_lowercase(), v.clone()))
            .collect();
        h.sort();
        let q = r.url.split_once('?').map(|(_, q)| {
            q.split('&')
                .filter(|x| query.iter().any(|n| n.eq_ignore_ascii_case(x.split('=').next().unwrap())))
                .map(|s| s.to_string())
                .collect::<Vec<_>>()
        });
        // an empty filtered query string and a query without certified parameters are the same
        (h, q.map(|q| q.join("&")))
    };
    a.method == b.method && a.body == b.body && f(a) == f(b)
}

pub fn req_segs(r: &Req) -> Option<Vec<String>> {
    Some(url::segments(&url::split(&r.url)?.path))
}

/// Adds the certificate header with the library under test.
pub fn add_header_real(
    tree: &HttpCertificationTree,
    e: &Entry,
    req: &Req,
    cert: &[u8],
) -> Result<Resp, String> {
    let entry = real_entry(e);
    let path = real_req(req).get_path().map_err(|e| e.to_string())?;
    let w = tree.witness(&entry, &path).map_err(|e| e.to_string())?;
    let mut r = real_resp(&e.resp);
    add_v2_certificate_header(cert, &mut r, &w, &entry.path.to_expr_path());
    Ok(from_real(&r))
}

pub fn add_skip_real(resp: &Resp, cert: Vec<u8>) -> Resp {
    let mut r = real_resp(resp);
    add_skip_certification_header(cert, &mut r);
    from_real(&r)
}

pub fn from_real(r: &HttpResponse) -> Resp {
    Resp { status: r.status_code().as_u16(), headers: r.headers().to_vec(), body: r.body().to_vec() }
}

