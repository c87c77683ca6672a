//! An asset canister over many messages: certify, replace, delete, redirect, upgrade; clients and
//! their gateways read over a faulty network; byzantine replicas replay and splice.
//! Profiles C17 (serving), C18 (removal), C19 (large assets).
use crate::ctx::Ctx;
use crate::http_engine::{deflate, Clock};
use crate::ic::{self, keys, Ledger, K_ROOT};
use crate::prng::{mix, Prng};
use crate::refimpl::rtree::{Look, T};
use crate::refimpl::url;
use crate::refimpl::verify::{header, Evidence, Req, Resp};
use crate::world::{flip_case, from_real, real_req, real_resp, to_ref};
use base64::{engine::general_purpose::STANDARD, Engine};
use ic_asset_certification::{
    Asset, AssetConfig, AssetEncoding, AssetFallbackConfig, AssetMap, AssetRedirectKind, AssetRouter, ASSET_CHUNK_SIZE,
};
use ic_http_certification::utils::add_v2_certificate_header;
use ic_http_certification::{
    DefaultCelBuilder, DefaultResponseCertification, HttpCertification, HttpCertificationPath, HttpCertificationTree,
    HttpCertificationTreeEntry, StatusCode,
};
use ic_response_verification::verify_request_response_pair;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

type Body = &'static [u8];
const S: u64 = 1_000_000_000;
const CHUNK: usize = ASSET_CHUNK_SIZE;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum Enc {
    Br,
    Zstd,
    Gzip,
    Deflate,
    Identity,
}
const ENCS: [Enc; 5] = [Enc::Br, Enc::Zstd, Enc::Gzip, Enc::Deflate, Enc::Identity];
impl Enc {
    fn name(self) -> &'static str {
        ["br", "zstd", "gzip", "deflate", "identity"][self as usize]
    }
    fn postfix(self) -> &'static str {
        [".br", ".zst", ".gz", ".zz", ""][self as usize]
    }
    fn real(self) -> AssetEncoding {
        [AssetEncoding::Brotli, AssetEncoding::Zstd, AssetEncoding::Gzip, AssetEncoding::Deflate, AssetEncoding::Identity]
            [self as usize]
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Match {
    File(String),
    /// every path below this directory
    Dir(String),
    /// every path with this extension
    Ext(String),
    All,
}
impl Match {
    fn hits(&self, path: &str) -> bool {
        match self {
            Match::File(p) => p == path,
            Match::Dir(d) => path.strip_prefix(d.as_str()).is_some_and(|r| r.starts_with('/')),
            Match::Ext(e) => path.ends_with(&format!(".{e}")),
            Match::All => true,
        }
    }
}
#[derive(Clone, Debug)]
struct Cfg {
    m: Match,
    content_type: Option<String>,
    headers: Vec<(String, String)>,
    fallbacks: Vec<(String, Option<u16>)>,
    aliases: Vec<String>,
    encs: Vec<(Enc, String)>,
}
impl Cfg {
    fn real(&self) -> AssetConfig {
        let encodings = self
            .encs
            .iter()
            .map(|(e, p)| if p == e.postfix() { e.real().default_config() } else { e.real().custom_config(p.clone()) })
            .collect();
        let (content_type, headers) = (self.content_type.clone(), self.headers.clone());
        let pattern = match &self.m {
            Match::File(path) => {
                return AssetConfig::File {
                    path: path.clone(),
                    content_type,
                    headers,
                    fallback_for: self
                        .fallbacks
                        .iter()
                        .map(|(s, c)| AssetFallbackConfig {
                            scope: s.clone(),
                            status_code: c.map(|c| StatusCode::from_u16(c).unwrap()),
                        })
                        .collect(),
                    aliased_by: self.aliases.clone(),
                    encodings,
                }
            }
            Match::Dir(d) => format!("{d}/**"),
            Match::Ext(e) => format!("**/*.{e}"),
            Match::All => "**".to_string(),
        };
        AssetConfig::Pattern { pattern, content_type, headers, encodings }
    }
}

/// What is certified at one location in one encoding.
#[derive(Clone, Debug, PartialEq)]
struct Item {
    owner: String,
    status: u16,
    headers: Vec<(String, String)>,
    body: Body,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Key {
    fallback: bool,
    loc: String,
    enc: Option<&'static str>,
}
type Keys = BTreeMap<Key, Item>;

/// A response without its certification headers.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Core {
    status: u16,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
}
fn core_of(r: &Resp) -> Core {
    let mut headers: Vec<(String, String)> = r
        .headers
        .iter()
        .map(|(k, v)| (k.to_ascii_lowercase(), v.clone()))
        .filter(|(k, _)| k != "ic-certificate" && k != "ic-certificateexpression")
        .collect();
    headers.sort();
    Core { status: r.status, headers, body: r.body.clone() }
}
fn starts(len: usize) -> Vec<usize> {
    if len > CHUNK {
        (0..len).step_by(CHUNK).collect()
    } else {
        vec![]
    }
}
fn item_core(i: &Item, at: Option<usize>) -> Core {
    let mut headers: Vec<(String, String)> = i.headers.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect();
    let mut status = i.status;
    let mut body = i.body;
    if let Some(a) = at {
        let b = (a + CHUNK).min(i.body.len());
        body = &i.body[a..b];
        status = 206;
        headers.push(("content-range".into(), format!("bytes {a}-{}/{}", b - 1, i.body.len())));
    }
    headers.push(("content-length".into(), body.len().to_string()));
    headers.sort();
    Core { status, headers, body: body.to_vec() }
}
/// Is this what the item is served as?
fn item_is(i: &Item, at: Option<usize>, c: &Core) -> bool {
    let body = match at {
        Some(a) if a < i.body.len() => &i.body[a..(a + CHUNK).min(i.body.len())],
        Some(_) => return false,
        None => i.body,
    };
    body.len() == c.body.len() && body == &c.body[..] && item_core(i, at) == *c
}
fn brief(c: &Core) -> String {
    let h: Vec<String> = c.headers.iter().map(|(k, v)| format!("{k}: {v}")).collect();
    format!("{} [{}] {} bytes {:08x}", c.status, h.join("; "), c.body.len(), digest(&c.body))
}
fn digest(b: &[u8]) -> u32 {
    let mut h = b.len() as u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h.rotate_left(23) ^ u64::from_le_bytes(w)).wrapping_mul(0x9e3779b97f4a7c15);
    }
    mix(h) as u32
}

fn path_url(path: &str) -> String {
    if path.starts_with('/') {
        path.to_string()
    } else {
        format!("/{path}")
    }
}

/// The documented meaning of certifying these files with these configurations.
fn writes(files: &BTreeMap<String, Body>, cfgs: &[Cfg]) -> Vec<(Key, Item)> {
    let mut out = vec![];
    for (path, body) in files {
        let cfg = cfgs.iter().find(|c| c.m.hits(path));
        let mut variants: Vec<(Option<Enc>, Body)> = vec![(None, *body)];
        for (e, p) in cfg.map(|c| c.encs.clone()).unwrap_or_default() {
            if let Some(b) = files.get(&format!("{path}{p}")) {
                variants.push((Some(e), *b));
            }
        }
        for (enc, body) in variants {
            let mut headers = vec![];
            if let Some(c) = cfg {
                headers.extend(c.headers.clone());
                headers.extend(c.content_type.clone().map(|t| ("content-type".to_string(), t)));
            }
            headers.extend(enc.map(|e| ("content-encoding".to_string(), e.name().to_string())));
            let mut put = |fallback: bool, loc: String, status: u16| {
                let k = Key { fallback, loc, enc: enc.map(|e| e.name()) };
                out.push((k, Item { owner: path.clone(), status, headers: headers.clone(), body }));
            };
            put(false, path_url(path), 200);
            if let Some(Cfg { m: Match::File(_), fallbacks, aliases, .. }) = cfg {
                for (s, c) in fallbacks {
                    put(true, s.clone(), c.unwrap_or(200));
                }
                for a in aliases {
                    put(false, a.clone(), 200);
                }
            }
        }
    }
    out
}

/// The fallback scopes which cover a path, innermost first.
fn scopes(path: &str) -> Vec<String> {
    let mut v = vec![path.to_string()];
    let mut p: Vec<&str> = path.split('/').collect();
    p.pop();
    while !p.is_empty() {
        let s = p.join("/");
        v.push(format!("{s}/"));
        v.push(s);
        p.pop();
    }
    v
}

#[derive(Clone)]
struct Served {
    req: Req,
    resp: Resp,
    /// where it was certified
    loc: String,
    fallback: bool,
    version: u64,
}

#[derive(Clone)]
struct AppEntry {
    path: String,
    wild: bool,
    cel: u8,
    resp: Resp,
}

struct World {
    tree: Rc<RefCell<HttpCertificationTree>>,
    router: AssetRouter<'static>,
    files: BTreeMap<String, (Body, Vec<Cfg>)>,
    redirects: BTreeMap<String, (String, bool)>,
    keys: Keys,
    app: Vec<AppEntry>,
    /// what was certified once and is not now
    dead: Vec<(Key, Item)>,
    served: Vec<Served>,
    ledger: Ledger,
    id: Vec<u8>,
    now: u64,
    cert_at: u64,
    cert: Vec<u8>,
    version: u64,
    uniq: u64,
    removed: bool,
    big: (u64, u64),
    profile: String,
    names: Vec<String>,
}

const NAMES: [&str; 25] = [
    "index.html", "app.js", "/main.js", "css/app.css", "css/print/a.css", "img/logo.png", "/img/x/y/z.svg", "404.html",
    "docs/index.html", "docs/guide/start.html", "a", "a/b", "a/b/c", ".well-known/ic-domains", "data.json", "css", "\u{fc}ber.txt", "a b.txt", "what?.html", "x#y.txt",
    "we+ird&name=1.txt", "a%20b.txt", "docs/", "js/app.js.map", "video.mp4",
];
const EXTRA_URLS: [&str; 12] = [
    "/", "/404", "/404/", "/not-found", "/not-found/index.html", "/home", "/docs", "/docs/guide", "/css/index.html", "/old", "/img/", "/A",
];
const SCOPES: [&str; 14] =
    ["/", "/css", "/css/", "/docs", "/docs/", "/docs/guide", "/img", "/a", "/a/", "/a/b", "/a/b/c", "/js", "", "/css/print"];
const HDRS: [(&str, &str); 8] = [
    ("cache-control", "public, no-cache"),
    ("Cache-Control", "max-age=31536000, immutable"),
    ("X-Frame-Options", "DENY"),
    ("etag", "\"abc\""),
    ("set-cookie", "a=1"),
    ("set-cookie", "b=2"),
    ("x-empty", ""),
    ("Link", "<https://a.b/c>; rel=\"x\", </y>"),
];

pub fn run(ctx: &mut Ctx, profile: &str) {
    if !ctx.src.step() {
        return;
    }
    let n = match profile {
        "C19" => 6 + ctx.src.draw(8),
        _ => 24 + ctx.src.draw(if ctx.thorough { 60 } else { 30 }),
    };
    ctx.src.set_budget(n as usize + 1);
    let mut w = setup(ctx, profile);
    while !ctx.stop && ctx.src.step() {
        let last = ctx.src.last();
        //        cert upd del redir del-redir app upgrade delall serve replay fetch maps bad splice clock dead
        let weights: [u32; 16] = match profile {
            "C17" => [14, 5, 5, 3, 1, 2, 2, 1, 50, 2, 0, 4, 2, 2, 3, 2],
            "C18" => [12, 12, 14, 4, 4, 4, 4, 2, 12, 22, 0, 3, 2, 3, 2, 8],
            _ => [6, 6, 3, 0, 0, 1, 2, 1, 8, 8, 14, 2, 0, 12, 1, 1],
        };
        let forced = match (last, profile) {
            (true, "C19") => Some(10),
            (true, "C18") => Some(15),
            _ => None,
        };
        let t0 = w.now;
        match ctx.src.kind(&weights, forced) {
            0 => certify(ctx, &mut w),
            1 => update(ctx, &mut w),
            2 => delete(ctx, &mut w),
            3 => redirect(ctx, &mut w),
            4 => delete_redirect(ctx, &mut w),
            5 => app(ctx, &mut w),
            6 => upgrade(ctx, &mut w),
            7 => {
                if ctx.src.chance(1, 2) {
                    delete_all(ctx, &mut w)
                }
            }
            8 => {
                for _ in 0..1 + ctx.src.draw(4) {
                    if !ctx.stop {
                        request(ctx, &mut w);
                    }
                }
            }
            9 => replay(ctx, &mut w),
            10 => fetch(ctx, &mut w),
            11 => maps(ctx, &mut w),
            12 => bad_batch(ctx, &mut w),
            13 => splice(ctx, &mut w),
            14 => {
                ctx.stat("op.time_passes");
                w.now += (1 + ctx.src.draw(600)) * S;
            }
            _ => dead_sweep(ctx, &mut w),
        }
        w.now += 1 + ctx.src.draw(2 * S);
        ctx.out.sim_ns += w.now - t0;
    }
    if !ctx.stop && profile != "C19" {
        finale(ctx, &mut w);
    }
}

fn setup(ctx: &mut Ctx, profile: &str) -> World {
    let tree: Rc<RefCell<HttpCertificationTree>> = Default::default();
    let big = match profile {
        "C19" => (3, 4),
        "C18" => (1, 25),
        _ => (1, 40),
    };
    let mut names: Vec<String> = vec![];
    let c = if profile == "C19" { 2 } else { 4 + ctx.src.draw(8) };
    for _ in 0..c {
        let n = ctx.src.pick(&NAMES).to_string();
        if !names.iter().any(|x| path_url(x) == path_url(&n)) {
            names.push(n);
        }
    }
    let big = if names.is_empty() { (0, 1) } else { big };
    if profile != "C19" && ctx.src.chance(1, 12) {
        // a site of many files, some far down
        for i in 0..8 + ctx.src.draw(40) {
            names.push(format!("site/p{i}.html"));
        }
        let deep: Vec<String> = (0..2 + ctx.src.draw(20)).map(|i| format!("d{i}")).collect();
        for k in 1..=deep.len() {
            names.push(format!("{}/f.txt", deep[..k].join("/")));
        }
        ctx.stat("input.site_of_many_files");
    }
    let router = AssetRouter::with_tree(tree.clone());
    let now = 1_600_000_000 * S + ctx.src.draw(1000) * 86_400 * S;
    let mut w = World {
        tree,
        router,
        files: BTreeMap::new(),
        redirects: BTreeMap::new(),
        keys: BTreeMap::new(),
        app: vec![],
        dead: vec![],
        served: vec![],
        ledger: Ledger::default(),
        id: ic::canister_id(7),
        now,
        cert_at: 0,
        cert: vec![],
        version: 0,
        uniq: ctx.src.seed(),
        removed: false,
        big,
        profile: profile.to_string(),
        names,
    };
    if profile != "C19" && ctx.src.chance(1, 2) {
        app(ctx, &mut w);
    }
    certify(ctx, &mut w);
    w
}

fn tags<'a>(w: &World, more: &[&'a str]) -> Vec<&'a str> {
    let mut t = vec!["C17"];
    if w.removed {
        t.push("C18");
    }
    t.extend_from_slice(more);
    t
}
fn all() -> &'static [&'static str] {
    &["C17", "C18", "C19"]
}

fn body(ctx: &mut Ctx, w: &mut World) -> Body {
    w.uniq += 1;
    let (num, den) = w.big;
    let len = if ctx.src.chance(num, den) {
        ctx.stat("input.large_asset");
        let k = if w.profile == "C19" { 1 + ctx.src.draw(3) as usize } else { 1 };
        let k = if w.profile == "C19" && ctx.src.chance(1, 40) { 4 + ctx.src.idx(9) } else { k };
        let d = *ctx.src.pick(&[0i64, 1, -1, 2, 777_777, 1_999_999, 4]);
        (k * CHUNK) as i64 + d
    } else {
        match ctx.src.draw(6) {
            0 => 0,
            1 if ctx.src.chance(1, 3) => *ctx.src.pick(&[255i64, 256, 1000, 1024, 4096, 9999, 10_000, 65_535, 65_536, 300_000]),
            _ => 1 + ctx.src.draw(60) as i64,
        }
    } as usize;
    let mut p = Prng::new(w.uniq);
    Box::leak(p.bytes(len).into_boxed_slice())
}
fn encode(ctx: &mut Ctx, w: &mut World, e: Enc, b: Body) -> Body {
    match e {
        Enc::Gzip => {
            use std::io::Write;
            let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::none());
            e.write_all(b).unwrap();
            Box::leak(e.finish().unwrap().into_boxed_slice())
        }
        Enc::Deflate if b.len() < CHUNK / 2 => Box::leak(deflate(b).into_boxed_slice()),
        Enc::Identity => b,
        _ => body(ctx, w),
    }
}

/// Replaces what the model holds after a message.
fn put_keys(w: &mut World, ws: Vec<(Key, Item)>) {
    for (k, i) in ws {
        if let Some(old) = w.keys.insert(k.clone(), i.clone()) {
            if old != i {
                w.dead.push((k, old));
            }
        }
    }
}
fn drop_keys(w: &mut World, f: impl Fn(&Key, &Item) -> bool) {
    let ks: Vec<Key> = w.keys.iter().filter(|(k, i)| f(k, i)).map(|(k, _)| k.clone()).collect();
    for k in ks {
        let i = w.keys.remove(&k).unwrap();
        w.dead.push((k, i));
        w.removed = true;
    }
}

fn gen_cfg(ctx: &mut Ctx, w: &World, m: Match) -> Cfg {
    let mut headers = vec![];
    for _ in 0..ctx.src.draw(4) {
        let (k, v) = *ctx.src.pick(&HDRS);
        headers.push((k.to_string(), v.to_string()));
    }
    if ctx.src.chance(1, 30) {
        for i in 0..ctx.src.draw(30) {
            headers.push((format!("X-N{}", i % 24), if ctx.src.chance(1, 8) { crate::world::long_text(ctx) } else { i.to_string() }));
        }
    }
    if w.profile == "C17" && ctx.src.chance(1, 24) {
        headers.push((ctx.src.pick(&["Content-Type", "content-type"]).to_string(), "text/x-sim".into()));
    }
    let mut encs: Vec<(Enc, String)> = vec![];
    if ctx.src.chance(2, 3) {
        for e in ENCS {
            let p = if e == Enc::Identity { 8 } else { 2 };
            if ctx.src.chance(1, p) {
                let post = if ctx.src.chance(1, 8) && e != Enc::Identity { format!(".{}x", e.name()) } else { e.postfix().to_string() };
                encs.push((e, post));
            }
        }
    }
    let (mut fallbacks, mut aliases) = (vec![], vec![]);
    if matches!(m, Match::File(_)) {
        let pool: Vec<String> = if w.profile == "C19" { vec![] } else { SCOPES.iter().map(|s| s.to_string()).collect() };
        if !pool.is_empty() && ctx.src.chance(1, 3) {
            for _ in 0..1 + ctx.src.draw(3) {
                let mut s = ctx.src.pick(&pool).clone();
                if let (Match::File(p), true) = (&m, ctx.src.chance(1, 4)) {
                    // a directory above the file
                    let d: Vec<String> = p.split('/').filter(|x| !x.is_empty()).map(String::from).collect();
                    let k = ctx.src.idx(d.len() + 1);
                    s = format!("/{}", d[..k.min(d.len().saturating_sub(1))].join("/"));
                }
                let c = *ctx.src.pick(&[None, Some(404), Some(200), Some(503)]);
                if !fallbacks.iter().any(|(x, _)| *x == s) {
                    fallbacks.push((s, c));
                }
            }
        }
        if ctx.src.chance(1, 3) {
            for _ in 0..1 + ctx.src.draw(2) {
                let a = ctx.src.pick(&EXTRA_URLS).to_string();
                if !aliases.contains(&a) {
                    aliases.push(a);
                }
            }
            if ctx.src.chance(1, 20) {
                let i = ctx.src.draw(20);
                aliases.extend((i..i + ctx.src.draw(16)).map(|i| format!("/alias{i}")));
            }
            if let (Match::File(p), true) = (&m, ctx.src.chance(1, 10)) {
                aliases.push(path_url(p)); // as the documented example does
            }
        }
    }
    let content_type = if ctx.src.chance(1, 2) { Some(ctx.src.pick(&["text/html", "text/css", "application/octet-stream"]).to_string()) } else { None };
    Cfg { m, content_type, headers, fallbacks, aliases, encs }
}

/// Files and configurations of one certify message, or nothing if they would collide with what is
/// there (overlapping owners are outside the contract).
fn batch(ctx: &mut Ctx, w: &mut World) -> Option<(BTreeMap<String, Body>, Vec<Cfg>)> {
    let mut cfgs: Vec<Cfg> = vec![];
    let mut files: BTreeMap<String, Body> = BTreeMap::new();
    let big = w.profile == "C19";
    let mut chosen = vec![];
    let many = if w.names.len() > 12 && ctx.src.chance(1, 3) { 30 } else { 0 };
    for _ in 0..1 + ctx.src.draw(if big { 1 } else { 3 + many }) {
        let n = ctx.src.pick(&w.names.clone()).clone();
        if !w.files.contains_key(&n) && !chosen.contains(&n) {
            chosen.push(n);
        }
    }
    for n in &chosen {
        let c = match ctx.src.draw(5) {
            0 | 1 | 2 => Some(gen_cfg(ctx, w, Match::File(n.clone()))),
            3 => {
                let m = match ctx.src.draw(3) {
                    0 => n.rsplit_once('.').map(|x| Match::Ext(x.1.to_string())).filter(|m| m.hits(n)),
                    1 => n.rsplit_once('/').filter(|x| !x.0.is_empty()).map(|x| Match::Dir(x.0.to_string())).filter(|m| m.hits(n)),
                    _ => Some(Match::All),
                };
                m.filter(|m| !matches!(m, Match::Ext(e) if e.contains('/'))).map(|m| gen_cfg(ctx, w, m))
            }
            _ => None,
        };
        if let Some(c) = c {
            let at = ctx.src.idx(cfgs.len() + 1);
            cfgs.insert(at, c);
        }
        if ctx.src.chance(1, 6) {
            // a configuration that is nearly for this file, but is not
            let p = match ctx.src.draw(5) {
                0 => n.strip_prefix('/').map(String::from).unwrap_or(format!("/{n}")),
                1 => n.to_uppercase(),
                2 => format!("{n}/"),
                3 => n.rsplit('/').next().unwrap_or("").to_string(),
                _ => format!("./{n}"),
            };
            if p != *n && !p.is_empty() {
                let c = gen_cfg(ctx, w, Match::File(p));
                let at = ctx.src.idx(cfgs.len() + 1);
                cfgs.insert(at, c);
            }
        }
        files.insert(n.clone(), body(ctx, w));
    }
    // encoded variants of some files
    for n in &chosen {
        let encs = cfgs.iter().find(|c| c.m.hits(n)).map(|c| c.encs.clone()).unwrap_or_default();
        for (e, p) in encs {
            if e != Enc::Identity && ctx.src.chance(3, 4) {
                let b = files[n];
                let v = encode(ctx, w, e, b);
                files.insert(format!("{n}{p}"), v);
            }
        }
    }
    let ok = |w: &World, files: &BTreeMap<String, Body>, cfgs: &[Cfg]| {
        let ws = writes(files, cfgs);
        let mut seen: BTreeMap<Key, Item> = BTreeMap::new();
        // one owner per place, over all encodings
        let mut owners: BTreeMap<(bool, String), String> =
            w.keys.iter().map(|(k, i)| ((k.fallback, k.loc.clone()), i.owner.clone())).collect();
        for (k, i) in ws {
            if w.redirects.contains_key(&k.loc) && !k.fallback {
                return false;
            }
            if owners.insert((k.fallback, k.loc.clone()), i.owner.clone()).is_some_and(|o| o != i.owner) {
                return false;
            }
            if seen.insert(k, i.clone()).is_some_and(|x| x != i) {
                return false;
            }
        }
        files.keys().all(|f| !w.files.contains_key(f))
    };
    if !ok(w, &files, &cfgs) {
        for c in cfgs.iter_mut() {
            c.fallbacks.clear();
            c.aliases.clear();
        }
    }
    if files.is_empty() || !ok(w, &files, &cfgs) {
        return None;
    }
    Some((files, cfgs))
}

fn send(ctx: &mut Ctx, w: &mut World, files: &BTreeMap<String, Body>, cfgs: &[Cfg], del: bool) -> bool {
    let mut order: Vec<(String, Body)> = files.iter().map(|(p, b)| (p.clone(), *b)).collect();
    for i in (1..order.len()).rev() {
        let j = ctx.src.idx(i + 1);
        order.swap(i, j);
    }
    let owned = ctx.src.chance(1, 3);
    let assets: Vec<Asset> =
        order.into_iter().map(|(p, b)| if owned { Asset::new(p, b.to_vec()) } else { Asset::new(p, b) }).collect();
    let cs: Vec<AssetConfig> = cfgs.iter().map(|c| c.real()).collect();
    let name = if del { "delete_assets" } else { "certify_assets" };
    let r = {
        let router = &mut w.router;
        ctx.sut(all(), name, || if del { router.delete_assets(assets, cs) } else { router.certify_assets(assets, cs) })
    };
    match r {
        Some(Ok(())) => true,
        Some(Err(e)) => {
            ctx.violate(&tags(w, &["C19"]), name, format!("{name} of {:?} failed: {e}", files.keys()));
            false
        }
        None => false,
    }
}

fn certify(ctx: &mut Ctx, w: &mut World) {
    let Some((files, cfgs)) = batch(ctx, w) else { return };
    ctx.stat("op.certify");
    ctx.log(format!("certify {:?} with {cfgs:?}", files.iter().map(|(p, b)| (p, b.len())).collect::<Vec<_>>()));
    if !send(ctx, w, &files, &cfgs, false) {
        return;
    }
    put_keys(w, writes(&files, &cfgs));
    for (f, b) in files {
        let c = cfgs.clone();
        w.files.insert(f, (b, c));
    }
    touched(ctx, w);
}

/// All files that were certified with the same list of configurations and belong together.
fn group(w: &World, path: &str) -> (BTreeMap<String, Body>, Vec<Cfg>) {
    let cfgs = w.files[path].1.clone();
    let mut fs: BTreeSet<String> = [path.to_string()].into();
    loop {
        let n = fs.len();
        for f in w.files.keys() {
            for g in w.files.keys() {
                let tied = w.files[f].1.iter().find(|c| c.m.hits(f)).is_some_and(|c| c.encs.iter().any(|(_, p)| format!("{f}{p}") == *g));
                if tied && (fs.contains(f) || fs.contains(g)) {
                    fs.insert(f.clone());
                    fs.insert(g.clone());
                }
            }
        }
        if fs.len() == n {
            break;
        }
    }
    (fs.into_iter().map(|f| (f.clone(), w.files[&f].0)).collect(), cfgs)
}

fn update(ctx: &mut Ctx, w: &mut World) {
    let paths: Vec<String> = w.files.keys().cloned().collect();
    if paths.is_empty() {
        return certify(ctx, w);
    }
    let p = ctx.src.pick(&paths).clone();
    replace(ctx, w, &p);
}
fn replace(ctx: &mut Ctx, w: &mut World, p: &str) {
    let (mut files, mut cfgs) = group(w, p);
    // new contents; sometimes only of some files; sometimes the headers change as well
    let names: Vec<String> = files.keys().cloned().collect();
    for n in &names {
        if ctx.src.chance(4, 5) {
            let b = body(ctx, w);
            files.insert(n.clone(), b);
        }
    }
    if ctx.src.chance(1, 3) {
        for c in cfgs.iter_mut() {
            c.headers = vec![("x-version".into(), w.uniq.to_string())];
        }
    }
    ctx.stat("op.update");
    ctx.log(format!("update {:?}", files.iter().map(|(p, b)| (p, b.len())).collect::<Vec<_>>()));
    if !send(ctx, w, &files, &cfgs, false) {
        return;
    }
    put_keys(w, writes(&files, &cfgs));
    for (f, b) in files {
        w.files.insert(f, (b, cfgs.clone()));
    }
    w.removed = true;
    touched(ctx, w);
}

fn delete(ctx: &mut Ctx, w: &mut World) {
    let paths: Vec<String> = w.files.keys().cloned().collect();
    if paths.is_empty() {
        return;
    }
    let p = ctx.src.pick(&paths).clone();
    let (mut files, cfgs) = group(w, &p);
    let gone: Vec<String> = files.keys().cloned().collect();
    if ctx.src.chance(1, 4) {
        // the caller no longer has the bytes that were certified
        ctx.stat("fault.delete_with_other_content");
        let b = body(ctx, w);
        files.insert(p.clone(), b);
    }
    ctx.stat("op.delete");
    ctx.log(format!("delete {gone:?}"));
    if !send(ctx, w, &files, &cfgs, true) {
        return;
    }
    for f in &gone {
        w.files.remove(f);
    }
    drop_keys(w, |_, i| gone.contains(&i.owner));
    touched(ctx, w);
}

fn redirect(ctx: &mut Ctx, w: &mut World) {
    let from = ctx.src.pick(&EXTRA_URLS).to_string();
    if w.keys.iter().any(|(k, i)| !k.fallback && k.loc == from && !i.owner.starts_with("redirect:")) {
        return;
    }
    let to = ctx.src.pick(&["/", "/index.html", "https://example.com/x?y=z", "/new path"]).to_string();
    let permanent = ctx.src.chance(1, 2);
    ctx.stat("op.redirect");
    ctx.log(format!("redirect {from} -> {to} permanent={permanent}"));
    let kind = if permanent { AssetRedirectKind::Permanent } else { AssetRedirectKind::Temporary };
    let c = vec![AssetConfig::Redirect { from: from.clone(), to: to.clone(), kind }];
    let r = {
        let router = &mut w.router;
        ctx.sut(all(), "certify redirect", || router.certify_assets(Vec::<Asset>::new(), c))
    };
    if let Some(Err(e)) = r {
        ctx.violate(&tags(w, &[]), "redirect", format!("certifying a redirect failed: {e}"));
        return;
    }
    if w.redirects.insert(from.clone(), (to.clone(), permanent)).is_some() {
        w.removed = true;
    }
    put_keys(w, vec![redirect_item(&from, &to, permanent)]);
    touched(ctx, w);
}
fn redirect_item(from: &str, to: &str, permanent: bool) -> (Key, Item) {
    (
        Key { fallback: false, loc: from.into(), enc: None },
        Item {
            owner: format!("redirect:{from}"),
            status: if permanent { 301 } else { 307 },
            headers: vec![("location".into(), to.into())],
            body: &[],
        },
    )
}
fn delete_redirect(ctx: &mut Ctx, w: &mut World) {
    let fs: Vec<String> = w.redirects.keys().cloned().collect();
    if fs.is_empty() {
        return redirect(ctx, w);
    }
    let from = ctx.src.pick(&fs).clone();
    let (to, permanent) = w.redirects.remove(&from).unwrap();
    ctx.stat("op.delete_redirect");
    ctx.log(format!("delete redirect {from}"));
    let kind = if permanent { AssetRedirectKind::Permanent } else { AssetRedirectKind::Temporary };
    let c = vec![AssetConfig::Redirect { from: from.clone(), to, kind }];
    let r = {
        let router = &mut w.router;
        ctx.sut(all(), "delete redirect", || router.delete_assets(Vec::<Asset>::new(), c))
    };
    if let Some(Err(e)) = r {
        ctx.violate(&tags(w, &[]), "redirect", format!("deleting a redirect failed: {e}"));
        return;
    }
    let o = format!("redirect:{from}");
    drop_keys(w, |_, i| i.owner == o);
    touched(ctx, w);
}

/// The application certifies something of its own in the shared tree, or takes it away.
fn app(ctx: &mut Ctx, w: &mut World) {
    ctx.stat("op.app_entry");
    if !w.app.is_empty() && ctx.src.chance(1, 3) {
        let i = ctx.src.idx(w.app.len());
        let e = w.app.remove(i);
        let t = w.tree.clone();
        if let Some(x) = app_entry(&e) {
            ctx.sut(all(), "app delete", || t.borrow_mut().delete(&x));
        }
        ctx.log(format!("app entry {} removed", e.path));
        touched(ctx, w);
        return;
    }
    let path = ctx.src.pick(&["/api/v1", "/api/v1/x", "/api", "/api/list/", "/metrics"]).to_string();
    if w.app.iter().any(|a| a.path == path) {
        return;
    }
    let wild = ctx.src.chance(1, 3);
    let cel = ctx.src.draw(3) as u8;
    w.uniq += 1;
    let resp = Resp { status: 200, headers: vec![("x-app".into(), w.uniq.to_string())], body: format!("app {}", w.uniq).into_bytes() };
    let mut e = AppEntry { path, wild, cel, resp };
    e.resp.headers.push(("ic-certificateexpression".into(), app_cel(cel)));
    let t = w.tree.clone();
    if let Some(x) = app_entry(&e) {
        ctx.sut(all(), "app insert", || t.borrow_mut().insert(&x));
    }
    ctx.log(format!("app entry {} wild={wild}", e.path));
    w.app.push(e);
    touched(ctx, w);
}
fn app_cel(c: u8) -> String {
    let rc = || DefaultResponseCertification::response_header_exclusions(vec![]);
    match c {
        0 => DefaultCelBuilder::full_certification().with_response_certification(rc()).build().to_string(),
        1 => DefaultCelBuilder::response_only_certification().with_response_certification(rc()).build().to_string(),
        _ => DefaultCelBuilder::skip_certification().to_string(),
    }
}
fn app_entry(e: &AppEntry) -> Option<HttpCertificationTreeEntry<'static>> {
    let rc = || DefaultResponseCertification::response_header_exclusions(vec![]);
    let resp = real_resp(&e.resp);
    let req = real_req(&get(&e.path));
    let c = match e.cel {
        0 => HttpCertification::full(&DefaultCelBuilder::full_certification().with_response_certification(rc()).build(), &req, &resp, None).ok()?,
        1 => HttpCertification::response_only(
            &DefaultCelBuilder::response_only_certification().with_response_certification(rc()).build(),
            &resp,
            None,
        )
        .ok()?,
        _ => HttpCertification::skip(),
    };
    let p = if e.wild { HttpCertificationPath::wildcard(e.path.clone()) } else { HttpCertificationPath::exact(e.path.clone()) };
    Some(HttpCertificationTreeEntry::new(p, c))
}

fn get(url: &str) -> Req {
    Req { method: "GET".into(), url: url.into(), headers: vec![], body: vec![] }
}

/// The canister is upgraded: heap state is lost and rebuilt from what it stored.
fn upgrade(ctx: &mut Ctx, w: &mut World) {
    ctx.stat("fault.upgrade");
    ctx.log("upgrade".into());
    w.tree = Default::default();
    w.router = AssetRouter::with_tree(w.tree.clone());
    let mut groups: Vec<(BTreeMap<String, Body>, Vec<Cfg>)> = vec![];
    let mut left: BTreeSet<String> = w.files.keys().cloned().collect();
    while let Some(p) = left.iter().next().cloned() {
        let g = group(w, &p);
        for f in g.0.keys() {
            left.remove(f);
        }
        groups.push(g);
    }
    for i in (1..groups.len()).rev() {
        let j = ctx.src.idx(i + 1);
        groups.swap(i, j);
    }
    let app_first = ctx.src.chance(1, 2);
    if app_first {
        restore_app(ctx, w);
    }
    for (files, cfgs) in groups {
        if !send(ctx, w, &files, &cfgs, false) {
            return;
        }
    }
    for (from, (to, p)) in w.redirects.clone() {
        let kind = if p { AssetRedirectKind::Permanent } else { AssetRedirectKind::Temporary };
        let router = &mut w.router;
        ctx.sut(all(), "certify redirect", || router.certify_assets(Vec::<Asset>::new(), vec![AssetConfig::Redirect { from, to, kind }]).is_ok());
    }
    if !app_first {
        restore_app(ctx, w);
    }
    touched(ctx, w);
}
fn restore_app(ctx: &mut Ctx, w: &mut World) {
    for e in w.app.clone() {
        if let Some(x) = app_entry(&e) {
            let t = w.tree.clone();
            ctx.sut(all(), "app insert", || t.borrow_mut().insert(&x));
        }
    }
}

fn delete_all(ctx: &mut Ctx, w: &mut World) {
    ctx.stat("op.delete_all");
    ctx.log("delete all".into());
    let router = &mut w.router;
    ctx.sut(all(), "delete_all_assets", || router.delete_all_assets());
    w.files.clear();
    w.redirects.clear();
    drop_keys(w, |_, _| true);
    touched(ctx, w);
    if w.app.is_empty() && w.router.root_hash() != HttpCertificationTree::default().root_hash() {
        ctx.violate(&["C18"], "delete-all-root", "the tree is not empty after everything was deleted".into());
    }
    dead_sweep(ctx, w);
    check_app(ctx, w);
}

/// A message changed the tree: the canister sets its certified data.
fn touched(ctx: &mut Ctx, w: &mut World) {
    w.version += 1;
    w.cert_at = 0;
    let n = w.keys.len().min(12).to_string();
    let d = w.dead.len().min(12).to_string();
    ctx.sig(&["state", &n, &d, &w.app.len().to_string()]);
}

fn certificate(ctx: &mut Ctx, w: &mut World) -> Vec<u8> {
    if w.cert_at == 0 || w.now - w.cert_at > 60 * S {
        let router = &w.router;
        let root = ctx.sut(all(), "root_hash", || router.root_hash()).unwrap_or_default();
        let st = ic::canister_state(w.now, &[(w.id.clone(), root.to_vec())], false);
        let st = st.reveal(&[ic::time_path(), ic::data_path(&w.id)]);
        w.cert = ic::seal(ctx, &w.ledger, K_ROOT, st, None).encode();
        w.cert_at = w.now;
        ctx.stat("op.round");
    }
    w.cert.clone()
}

/// What the documentation says a request is answered with.
enum Want {
    Is(Key, Core),
    Nothing,
    /// a byte range the router does not announce: an error, or any right answer
    Open,
}

fn client_encodings(req: &Req) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = vec![];
    if let Some(h) = header(&req.headers, "accept-encoding") {
        for e in h.split(',') {
            let mut p = e.split(';').map(|x| x.trim().to_ascii_lowercase());
            let name = p.next().unwrap_or_default();
            let zero = p.any(|x| x.strip_prefix("q=").is_some_and(|q| q.trim().parse::<f32>() == Ok(0.0)));
            if let Some(k) = ENCS.iter().find(|k| k.name() == name).filter(|_| !zero) {
                if !v.contains(&k.name()) {
                    v.push(k.name());
                }
            }
        }
    }
    v.sort_by_key(|n| ENCS.iter().position(|e| e.name() == *n));
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Range {
    None,
    /// bytes=N-
    From(usize),
    /// any other form with this begin
    Odd(usize),
    Bad,
}
fn range_of(req: &Req) -> Range {
    let Some(h) = header(&req.headers, "range") else { return Range::None };
    let Some(x) = h.trim().strip_prefix("bytes=") else { return Range::Bad };
    let Some((a, b)) = x.split_once('-') else { return Range::Bad };
    let Ok(n) = a.parse::<usize>() else { return Range::Bad };
    if b.is_empty() {
        return Range::From(n);
    }
    match b.parse::<usize>() {
        Ok(m) if m >= n => Range::Odd(n),
        _ => Range::Bad,
    }
}

fn want(w: &World, req: &Req) -> Want {
    let Some(p) = url::split(&req.url) else { return Want::Open };
    let path = p.path;
    let range = range_of(req);
    if range == Range::Bad {
        return Want::Open;
    }
    let mut encs: Vec<Option<&'static str>> = client_encodings(req).into_iter().map(Some).collect();
    encs.push(None);
    for enc in &encs {
        let k = Key { fallback: false, loc: path.clone(), enc: *enc };
        if let Some(i) = w.keys.get(&k) {
            if i.body.len() > CHUNK {
                return match range {
                    Range::None => Want::Is(k, item_core(i, Some(0))),
                    Range::From(n) if n > 0 && n % CHUNK == 0 && n < i.body.len() => Want::Is(k, item_core(i, Some(n))),
                    _ => Want::Open,
                };
            }
            return Want::Is(k, item_core(i, None));
        }
    }
    for s in scopes(&path) {
        for enc in &encs {
            let k = Key { fallback: true, loc: s.clone(), enc: *enc };
            if let Some(i) = w.keys.get(&k) {
                return Want::Is(k, item_core(i, None));
            }
        }
    }
    Want::Nothing
}

/// May this response legitimately be shown for this request in the current state?
fn acceptable(w: &World, req: &Req, c: &Core) -> bool {
    let Some(p) = url::split(&req.url) else { return false };
    let sc = scopes(&p.path);
    w.keys.iter().any(|(k, i)| {
        let at = if k.fallback { sc.contains(&k.loc) } else { k.loc == p.path };
        if !at || !(c.status == 206 || c.status == i.status) {
            return false;
        }
        if item_is(i, None, c) {
            return true;
        }
        !k.fallback
            && starts(i.body.len()).into_iter().any(|a| {
                let r = header(&req.headers, "range");
                let asked = if a == 0 { r.is_none() } else { r == Some(&format!("bytes={a}-")) };
                asked && item_is(i, Some(a), c)
            })
    })
}

fn gateway(ctx: &mut Ctx, w: &World, req: &Req, resp: &Resp) -> Option<Result<Resp, String>> {
    let clk = Clock { now: w.now as u128, offset: 300 * S as u128, min_version: 2, edge: false };
    let (rq, rs) = (real_req(req), real_resp(resp));
    let (id, key) = (w.id.clone(), keys()[K_ROOT].der());
    ctx.stat("verify.total");
    let r = ctx.sut(all(), "verify", move || {
        verify_request_response_pair(rq, rs, &id, clk.now, clk.offset, &key, clk.min_version)
    })?;
    Some(match r {
        Ok(v) => match v.response {
            Some(x) => Ok(Resp { status: x.status_code.unwrap_or(0), headers: x.headers, body: x.body }),
            None => Err("accepted without a response".into()),
        },
        Err(e) => Err(format!("{e}")),
    })
}

fn gen_request(ctx: &mut Ctx, w: &World) -> Req {
    let mut locs: Vec<String> = w.keys.iter().map(|(k, _)| k.loc.clone()).collect();
    locs.dedup();
    let path = match ctx.src.draw(12) {
        0..=5 if !locs.is_empty() => ctx.src.pick(&locs).clone(),
        6 if !w.dead.is_empty() => ctx.src.pick(&w.dead).0.loc.clone(),
        7 | 8 if !locs.is_empty() => {
            let l = ctx.src.pick(&locs).clone();
            format!("{}/{}", l.trim_end_matches('/'), ctx.src.pick(&["x", "deep/er", "", "index.html", "b", "b/c"]))
        }
        9 => ctx.src.pick(&SCOPES).to_string(),
        10 => ctx.src.pick(&EXTRA_URLS).to_string(),
        _ => path_url(*ctx.src.pick(&NAMES)),
    };
    // much deeper than anything certified
    let path = if ctx.src.chance(1, if w.profile == "C17" { 80 } else { 1000 }) {
        let n = *ctx.src.pick(&[30usize, 300, 3000]);
        let seg = *ctx.src.pick(&["/a", "/b/c", "/x-y", "/docs"]);
        ctx.stat("request.deep");
        format!("{}{}", path.trim_end_matches('/'), seg.repeat(n))
    } else {
        path
    };
    let path = if path.is_empty() { "/".to_string() } else { path };
    let mut url: String = path
        .split('/')
        .map(|s| crate::world::enc_seg(s, if ctx.src.chance(1, 10) { ctx.src.seed() } else { 0 }))
        .collect::<Vec<_>>()
        .join("/");
    if w.profile == "C17" && ctx.src.chance(1, 300) {
        url.push_str(*ctx.src.pick(&["?a=b", "?", "?x=%20y&x=z"]));
    }
    let mut headers = vec![];
    if ctx.src.chance(2, 3) {
        let mut l: Vec<String> = vec![];
        let mut n = ctx.src.draw(5);
        if n == 4 && ctx.src.chance(1, 2) {
            n += ctx.src.draw(12);
        }
        for i in 0..n {
            let mut e = ctx.src.pick(&["br", "gzip", "zstd", "deflate", "identity", "foo", "gzip", "br"]).to_string();
            if n > 4 && i < 8 && ctx.src.chance(1, 2) {
                e = ctx.src.pick(&["compress", "x-gzip", "dcb", "dcz", "exi", "aes128gcm"]).to_string();
            }
            if l.iter().any(|x| x.split(';').next().unwrap().trim().eq_ignore_ascii_case(&e)) {
                continue;
            }
            if ctx.src.chance(1, 8) {
                e = flip_case(&e, ctx.src.seed());
            }
            if ctx.src.chance(1, 3) {
                e.push_str(*ctx.src.pick(&[";q=0.5", "; q=1.0", ";q=0.1", ";q=1", ";q=0", "; q=0.0", ";q=0.000", ";q=0.001"]));
            }
            l.push(e);
        }
        let sep = *ctx.src.pick(&[", ", ",", " , "]);
        let name = if ctx.src.chance(1, 4) { flip_case("accept-encoding", ctx.src.seed()) } else { "Accept-Encoding".into() };
        headers.push((name, l.join(sep)));
    }
    if ctx.src.chance(1, 6) {
        headers.push(("user-agent".into(), "sim".into()));
    }
    // byte ranges
    let segs = w.keys.iter().filter(|(k, _)| !k.fallback && k.loc == path).map(|(_, i)| starts(i.body.len()).len()).max().unwrap_or(0);
    let large = segs > 0;
    let odd = w.profile == "C17";
    if large {
        let r = match ctx.src.draw(40) {
            0..=25 => Some(format!("bytes={}-", CHUNK * (1 + ctx.src.idx(segs.max(2) - 1)))),
            26 if odd => Some(ctx.src.pick(&["bytes=0-", "bytes=0-99", "bytes=2000000-3999999"]).to_string()),
            27 if odd => Some(ctx.src.pick(&["bytes=77-", "bytes=1999999-", "bytes=90000000-", "bytes=1-1"]).to_string()),
            _ => None,
        };
        headers.extend(r.map(|r| (if ctx.src.chance(1, 3) { flip_case("range", ctx.src.seed()) } else { "Range".into() }, r)));
    } else if odd && ctx.src.chance(1, 8) {
        let r = ctx.src.pick(&["bytes=0-", "bytes=0-10", "bytes=5-", "bytes=2000000-", "bytes=-5", "bytes=a-b", "lines=1-2", "bytes=0-1,3-4"]);
        headers.push(("Range".into(), r.to_string()));
    }
    let url = if odd && ctx.src.chance(1, 400) { url.replacen('/', "//", 2) } else { url };
    Req { method: "GET".into(), url, headers, body: vec![] }
}

fn call(ctx: &mut Ctx, w: &mut World, req: &Req) -> Option<Result<Resp, String>> {
    let cert = certificate(ctx, w);
    let rq = real_req(req);
    let router = &w.router;
    let r = ctx.sut(all(), "serve_asset", || router.serve_asset(&cert, &rq))?;
    Some(r.map(|r| from_real(&r)).map_err(|e| format!("{e}")))
}

/// One request to the router; its answer is judged and then verified by the gateway.
fn request(ctx: &mut Ctx, w: &mut World) {
    let req = gen_request(ctx, w);
    ask(ctx, w, &req);
}
fn ask(ctx: &mut Ctx, w: &mut World, req: &Req) -> Option<Resp> {
    let got = call(ctx, w, req)?;
    ctx.stat("op.request");
    let wanted = want(w, req);
    let hs: Vec<String> = req.headers.iter().map(|(k, v)| format!("{k}: {v}")).collect();
    let shown = format!("GET {} [{}]", req.url, hs.join("; "));
    ctx.log(format!("{shown} -> {}", got.as_ref().map(|r| brief(&core_of(r))).unwrap_or_else(|e| e.clone())));
    let odd_range = matches!(range_of(req), Range::Odd(_) | Range::From(0)) || matches!(wanted, Want::Open);
    let odd_path = url::split(&req.url).is_some_and(|p| p.path.contains("//"));
    let chunk = matches!(&wanted, Want::Is(_, c) if c.status == 206);
    let more: &[&str] = if chunk { &["C19"] } else { &[] };
    ctx.sig(&[
        "serve",
        match &wanted {
            Want::Is(k, c) => match (k.fallback, c.status) {
                (true, _) => "fallback",
                (_, 206) => "chunk",
                (_, 200) => "exact",
                _ => "redirect",
            },
            Want::Nothing => "none",
            Want::Open => "open",
        },
        match &wanted {
            Want::Is(k, _) => k.enc.unwrap_or("-"),
            _ => "",
        },
        if got.is_ok() { "ok" } else { "err" },
        &format!("{}", client_encodings(req).len()),
        if w.removed { "r" } else { "" },
    ]);
    let resp = match (got, &wanted) {
        (Err(_), Want::Nothing) | (Err(_), Want::Open) => return None,
        (Err(e), Want::Is(k, c)) => {
            ctx.violate(&tags(w, more), "not-served", format!("{shown}: {k:?} is live ({}) but the router says {e}", brief(c)));
            return None;
        }
        (Ok(r), _) => r,
    };
    let core = core_of(&resp);
    let stale = w.dead.iter().any(|(_, i)| item_is(i, None, &core) || starts(i.body.len()).iter().any(|a| item_is(i, Some(*a), &core)));
    let mut t = tags(w, more);
    if core.status == 206 {
        t.push("C19");
    }
    let live = match &wanted {
        Want::Is(_, c) => *c == core,
        Want::Nothing => false,
        Want::Open => true,
    };
    if !live {
        if stale {
            t.push("C18");
        }
        let exp = match &wanted {
            Want::Is(k, c) => format!("{k:?} {}", brief(c)),
            _ => "nothing".into(),
        };
        let class = if stale { "stale-served" } else { "wrong-served" };
        ctx.violate(&t, class, format!("{shown}: expected {exp}; served {}", brief(&core)));
        return None;
    }
    ctx.stat("check.served");
    if let Want::Is(k, c) = &wanted {
        ctx.stat(if k.fallback { "serve.fallback" } else if c.status == 206 { "serve.chunk" } else { "serve.exact" });
        if k.enc.is_some() {
            ctx.stat("serve.encoded");
        }
    }
    match gateway(ctx, w, req, &resp)? {
        Ok(v) => {
            ctx.stat("verify.accepted");
            let mut c = core_of(&v);
            c.headers.retain(|(k, _)| k != "ic-certificate");
            if c != core {
                ctx.violate(&t, "verified-differs", format!("{shown}: verification returned {} for {}", brief(&c), brief(&core)));
            }
        }
        Err(e) => {
            let class = if odd_range {
                "range-form"
            } else if odd_path {
                "unnormalised-path"
            } else if req.url.contains('?') {
                "query-string"
            } else {
                "unverifiable"
            };
            ctx.violate(&t, class, format!("{shown}: the served response {} does not verify: {e}", brief(&core)));
            return None;
        }
    }
    let (fallback, loc) = match &wanted {
        Want::Is(k, _) => (k.fallback, k.loc.clone()),
        _ => return Some(resp),
    };
    w.served.push(Served { req: req.clone(), resp: resp.clone(), loc, fallback, version: w.version });
    if w.served.len() > 24 {
        w.served.remove(0);
    }
    Some(resp)
}

fn check_app(ctx: &mut Ctx, w: &mut World) {
    for e in w.app.clone() {
        let cert = certificate(ctx, w);
        let req = get(&if e.wild { format!("{}/sub", e.path.trim_end_matches('/')) } else { e.path.clone() });
        if e.wild && w.app.iter().any(|o| o.path != e.path && (format!("{}/sub", e.path.trim_end_matches('/'))).starts_with(&o.path)) && w.app.iter().any(|o| o.path.len() > e.path.len() && o.path.starts_with(&e.path)) {
            continue;
        }
        let Some(entry) = app_entry(&e) else { continue };
        let t = w.tree.clone();
        let mut r = real_resp(&e.resp);
        let done = ctx.sut(all(), "app witness", || {
            let p = real_req(&req).get_path().ok()?;
            let wit = t.borrow().witness(&entry, &p).ok()?;
            add_v2_certificate_header(&cert, &mut r, &wit, &entry.path.to_expr_path());
            Some(from_real(&r))
        });
        let Some(Some(resp)) = done else { continue };
        ctx.stat("check.app_entry");
        let (rq, rs) = (real_req(&req), real_resp(&resp));
        let (id, key, now) = (w.id.clone(), keys()[K_ROOT].der(), w.now as u128);
        let v = ctx.sut(all(), "verify", move || verify_request_response_pair(rq, rs, &id, now, 300 * S as u128, &key, 2).map_err(|e| e.to_string()));
        if let Some(Err(x)) = v {
            ctx.violate(&["C18"], "app-entry-lost", format!("the application's own entry {} no longer verifies: {x}", e.path));
        }
    }
}

/// The certification entry of something that was certified, built from the outside.
fn entry_of(k: &Key, i: &Item, at: Option<usize>, cel_req: bool) -> Option<(HttpCertificationTreeEntry<'static>, Resp)> {
    let c = item_core(i, at);
    let rc = DefaultResponseCertification::response_header_exclusions(vec![]);
    let cel = DefaultCelBuilder::full_certification()
        .with_request_headers(if at.is_some() { vec!["range"] } else { vec![] })
        .with_response_certification(rc)
        .build();
    let mut req = get("/");
    if let Some(a) = at.filter(|a| *a > 0 && cel_req) {
        req.headers.push(("range".into(), format!("bytes={a}-")));
    }
    let mut resp = Resp { status: c.status, headers: c.headers, body: c.body };
    resp.headers.push(("ic-certificateexpression".into(), cel.to_string()));
    let cert = HttpCertification::full(&cel, &real_req(&req), &real_resp(&resp), None).ok()?;
    let p = if k.fallback { HttpCertificationPath::wildcard(k.loc.clone()) } else { HttpCertificationPath::exact(k.loc.clone()) };
    Some((HttpCertificationTreeEntry::new(p, cert), resp))
}

/// Nothing that was removed may still be in the tree.
fn dead_sweep(ctx: &mut Ctx, w: &mut World) {
    let from = w.dead.len().saturating_sub(40);
    for (k, i) in w.dead[from..].to_vec() {
        let mut ats: Vec<Option<usize>> = vec![None];
        ats.extend(starts(i.body.len()).into_iter().map(Some));
        for at in ats {
            let c = item_core(&i, at);
            // certified again since, here or through another name of the same place
            if w.keys.iter().any(|(k2, i2)| k2.loc == k.loc && k2.fallback == k.fallback && item_is(i2, at, &c)) {
                continue;
            }
            for with_req in [true, false] {
                if !with_req && !at.is_some_and(|a| a > 0) {
                    continue;
                }
                let t = w.tree.clone();
                let hit = ctx.sut(all(), "witness", || {
                    let (e, resp) = entry_of(&k, &i, at, with_req)?;
                    let wit = t.borrow().witness(&e, if k.loc.is_empty() { "/" } else { &k.loc }).ok()?;
                    Some((to_ref(&wit), e.path.to_expr_path(), resp))
                });
                let Some(Some((tree, path, resp))) = hit else { continue };
                ctx.stat("check.dead_evidence");
                let mut p: Vec<Vec<u8>> = path.iter().map(|s| s.as_bytes().to_vec()).collect();
                p.extend(hashes(&resp, at.filter(|a| *a > 0 && with_req)));
                if matches!(tree.lookup(&p), Look::Found(T::Leaf(_))) {
                    let mut t = vec!["C18"];
                    if at.is_some() {
                        t.push("C19");
                    }
                    ctx.violate(&t, "evidence-left", format!("the tree still proves {k:?} {} after it was removed", brief(&c)));
                    return;
                }
            }
        }
    }
}
/// The three hashes below an expression path, computed independently.
fn hashes(resp: &Resp, range: Option<usize>) -> Vec<Vec<u8>> {
    use crate::refimpl::{cel, hashes::sha, verify};
    let text = header(&resp.headers, "ic-certificateexpression").unwrap_or_default();
    let mut req = get("/");
    if let Some(a) = range {
        req.headers.push(("range".into(), format!("bytes={a}-")));
    }
    match cel::parse(text) {
        Some(cel::Cel::Full { headers, query, resp: rc }) => vec![
            sha(text.as_bytes()).to_vec(),
            verify::request_hash(&headers, &query, &req).map(|h| h.to_vec()).unwrap_or_default(),
            verify::response_hash(&rc, resp).to_vec(),
        ],
        _ => vec![],
    }
}

/// A byzantine replica shows something that is no longer certified, with the best evidence the
/// present tree can give.
fn replay(ctx: &mut Ctx, w: &mut World) {
    let from_dead = !w.dead.is_empty() && ctx.src.chance(2, 3);
    let (req, resp, entry) = if from_dead {
        let (k, i) = ctx.src.pick(&w.dead).clone();
        let st = starts(i.body.len());
        let at = if st.is_empty() || ctx.src.chance(1, 4) { None } else { Some(*ctx.src.pick(&st)) };
        let with_req = !ctx.src.chance(1, 4);
        let Some((e, resp)) = entry_of(&k, &i, at, with_req) else { return };
        let mut req = get(if k.loc.is_empty() { "/" } else { &k.loc });
        req.url = req.url.split('/').map(|s| crate::world::enc_seg(s, 0)).collect::<Vec<_>>().join("/");
        if k.fallback && ctx.src.chance(1, 2) {
            req.url = format!("{}/none", req.url.trim_end_matches('/'));
        }
        if let Some(a) = at.filter(|a| *a > 0 && with_req) {
            req.headers.push(("range".into(), format!("bytes={a}-")));
        }
        (req, resp, e)
    } else {
        let old: Vec<Served> = w.served.iter().filter(|s| s.version < w.version).cloned().collect();
        if old.is_empty() {
            return;
        }
        let s = ctx.src.pick(&old).clone();
        let c = core_of(&s.resp);
        let k = Key { fallback: s.fallback, loc: s.loc.clone(), enc: None };
        let at = (c.status == 206).then(|| range_start(&c)).flatten();
        let bytes: Body = Box::leak(c.body.clone().into_boxed_slice());
        let mut hs = c.headers.clone();
        hs.retain(|(k, _)| k != "content-length");
        let i = Item { owner: String::new(), status: c.status, headers: hs, body: bytes };
        // rebuilt as a plain entry with the very headers that were served
        let Some((_, mut resp)) = entry_of(&k, &i, None, true) else { return };
        let cel_text = header(&s.resp.headers, "ic-certificateexpression").unwrap_or_default().to_string();
        for h in resp.headers.iter_mut().filter(|h| h.0 == "ic-certificateexpression") {
            h.1 = cel_text.clone();
        }
        let rc = DefaultResponseCertification::response_header_exclusions(vec![]);
        let cel = DefaultCelBuilder::full_certification()
            .with_request_headers(if at.is_some() { vec!["range"] } else { vec![] })
            .with_response_certification(rc)
            .build();
        let Ok(cert) = HttpCertification::full(&cel, &real_req(&s.req), &real_resp(&resp), None) else { return };
        let p = if s.fallback { HttpCertificationPath::wildcard(s.loc.clone()) } else { HttpCertificationPath::exact(s.loc.clone()) };
        (s.req.clone(), resp, HttpCertificationTreeEntry::new(p, cert))
    };
    ctx.stat("fault.replay_old_response");
    let cert = certificate(ctx, w);
    let t = w.tree.clone();
    let rq = real_req(&req);
    let mut r = real_resp(&resp);
    let made = ctx.sut(all(), "witness", || {
        let p = rq.get_path().ok()?;
        let wit = t.borrow().witness(&entry, &p).ok()?;
        add_v2_certificate_header(&cert, &mut r, &wit, &entry.path.to_expr_path());
        Some(from_real(&r))
    });
    let Some(Some(shown)) = made else { return };
    judge(ctx, w, &req, &shown, "replay");
}
fn range_start(c: &Core) -> Option<usize> {
    let v = c.headers.iter().find(|h| h.0 == "content-range")?;
    v.1.strip_prefix("bytes ")?.split('-').next()?.parse().ok()
}

fn judge(ctx: &mut Ctx, w: &World, req: &Req, resp: &Resp, how: &str) {
    let core = core_of(resp);
    let ok = acceptable(w, req, &core);
    let Some(v) = gateway(ctx, w, req, resp) else { return };
    ctx.stat("check.adversarial");
    ctx.stat(if v.is_ok() { "verify.accepted" } else { "verify.rejected" });
    ctx.log(format!("{how}: GET {} {} -> {}", req.url, brief(&core), if v.is_ok() { "accepted" } else { "rejected" }));
    ctx.sig(&[how, if ok { "fine" } else { "bad" }, if v.is_ok() { "acc" } else { "rej" }, if core.status == 206 { "chunk" } else { "" }]);
    if v.is_ok() && !ok {
        let mut t = vec!["C18"];
        if core.status == 206 {
            t.push("C19");
        } else if how == "splice" {
            t.push("C17");
        }
        let class = format!("{how}-accepted");
        ctx.violate(&t, &class, format!("GET {} {:?}: verification accepts {} which is not certified for this request now", req.url, req.headers, brief(&core)));
    }
}

/// A byzantine replica answers one request with (parts of) the answer to another.
fn splice(ctx: &mut Ctx, w: &mut World) {
    // fresh answers of the present state to choose from
    let ks: Vec<(Key, Item)> = w.keys.iter().map(|(k, i)| (k.clone(), i.clone())).collect();
    if ks.is_empty() {
        return;
    }
    let mut ans: Vec<(Req, Resp)> = vec![];
    let (k0, _) = ctx.src.pick(&ks).clone();
    for (k, i) in &ks {
        if ans.len() > 8 || (k.loc != k0.loc && !ctx.src.chance(1, 6)) {
            continue;
        }
        let mut ats = vec![0usize];
        ats.extend(starts(i.body.len()).into_iter().skip(1));
        for a in ats {
            let mut req = get(if k.loc.is_empty() { "/" } else { &k.loc });
            req.url = req.url.split('/').map(|s| crate::world::enc_seg(s, 0)).collect::<Vec<_>>().join("/");
            if let Some(e) = k.enc {
                req.headers.push(("accept-encoding".into(), e.into()));
            }
            if a > 0 {
                req.headers.push(("range".into(), format!("bytes={a}-")));
            }
            if let Some(Ok(r)) = call(ctx, w, &req) {
                ans.push((req, r));
            }
        }
    }
    for s in w.served.clone() {
        if s.loc == k0.loc && ctx.src.chance(1, 2) {
            // an old answer with its old certificate would be accepted while that one is fresh
            let cert = certificate(ctx, w);
            let mut r = s.resp;
            for h in r.headers.iter_mut().filter(|h| h.0.eq_ignore_ascii_case("ic-certificate")) {
                let Some((_, rest)) = h.1.split_once(", ") else { continue };
                h.1 = format!("certificate=:{}:, {rest}", STANDARD.encode(&cert));
            }
            ans.push((s.req, r));
        }
    }
    if ans.is_empty() {
        return;
    }
    let (req, mine) = ctx.src.pick(&ans).clone();
    let (_, other) = ctx.src.pick(&ans).clone();
    let mut r = mine.clone();
    ctx.stat("fault.splice");
    match ctx.src.draw(7) {
        0 | 1 => r = other,
        2 => r.body = other.body,
        3 => {
            // certified content of the other with the evidence for this one
            let ev = header(&mine.headers, "ic-certificate").unwrap_or_default().to_string();
            r = other;
            for h in r.headers.iter_mut().filter(|h| h.0.eq_ignore_ascii_case("ic-certificate")) {
                h.1 = ev.clone();
            }
        }
        4 => {
            let name = *ctx.src.pick(&["content-range", "content-encoding", "content-length", "content-type"]);
            r.headers.retain(|h| !h.0.eq_ignore_ascii_case(name));
            if let Some(v) = header(&other.headers, name) {
                r.headers.push((name.into(), v.to_string()));
            }
        }
        5 => r.status = if r.status == 206 { 200 } else { 206 },
        _ => {
            if r.body.is_empty() {
                r.body.push(0)
            } else {
                let i = ctx.src.idx(r.body.len());
                r.body[i] ^= 1;
            }
        }
    }
    judge(ctx, w, &req, &r, "splice");
}

/// A client downloads an asset through its gateway over a lossy network.
fn fetch(ctx: &mut Ctx, w: &mut World) {
    let ks: Vec<Key> = w.keys.iter().filter(|(k, i)| !k.fallback && !i.owner.starts_with("redirect:") && i.body.len() + 10 > CHUNK).map(|(k, _)| k.clone()).collect();
    let Some(k) = (!ks.is_empty()).then(|| ctx.src.pick(&ks).clone()) else {
        return certify(ctx, w);
    };
    let loss = ctx.src.draw(4) * 12;
    let dup = ctx.src.draw(3) * 15;
    let reorder = ctx.src.chance(2, 3);
    let byz = if ctx.src.chance(1, 2) { 15 } else { 0 };
    let upd = if ctx.src.chance(1, 3) { 6 } else { 0 };
    let url = k.loc.split('/').map(|s| crate::world::enc_seg(s, 0)).collect::<Vec<_>>().join("/");
    ctx.log(format!("fetch {k:?} loss {loss}% dup {dup}% reorder {reorder} byzantine {byz}%"));
    ctx.stat("op.fetch");
    let mk = |a: usize| {
        let mut r = get(&url);
        if let Some(e) = k.enc {
            r.headers.push(("accept-encoding".into(), e.into()));
        }
        if a > 0 {
            r.headers.push(("range".into(), format!("bytes={a}-")));
        }
        r
    };
    // client state
    let mut total: Option<usize> = None;
    let mut have: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    // the version being downloaded: certified root and encoding
    let mut root: Option<Vec<u8>> = None;
    let mut enc: Option<&'static str> = None;
    let mut wanted: Vec<usize> = vec![0];
    // (delivery time, sequence, is reply, offset, reply)
    let mut net: BTreeMap<(u64, u64), (usize, Option<(Resp, bool)>)> = BTreeMap::new();
    let mut seq = 0u64;
    let t0 = w.now;
    let mut sends = 0u32;
    let mut changed = false;
    let limit = 60;
    // faults stop after this many sends; then the download must end soon
    let calm = 20 + ctx.src.draw(10) as u32;
    let mut done = false;
    while !done && !ctx.stop && sends < limit {
        // (re)send everything outstanding
        if net.is_empty() {
            let mut ws = wanted.clone();
            if reorder {
                for i in (1..ws.len()).rev() {
                    let j = ctx.src.idx(i + 1);
                    ws.swap(i, j);
                }
            }
            for a in ws {
                sends += 1;
                let faulty = sends < calm;
                if faulty && ctx.src.draw(100) < loss {
                    ctx.stat("fault.request_lost");
                    continue;
                }
                let n = if faulty && ctx.src.draw(100) < dup { 2 } else { 1 };
                if n == 2 {
                    ctx.stat("fault.request_duplicated");
                }
                for _ in 0..n {
                    seq += 1;
                    let d = if reorder { ctx.src.draw(400) } else { 20 };
                    net.insert((w.now + d * 1_000_000, seq), (a, None));
                }
            }
            w.now += 500_000_000;
            continue;
        }
        let (at, what) = net.pop_first().map(|(k, v)| (k.0, v)).unwrap();
        w.now = w.now.max(at);
        let faulty = sends < calm;
        match what {
            (a, None) => {
                // the request reaches a replica
                if faulty && ctx.src.draw(100) < upd {
                    ctx.stat("fault.update_during_download");
                    let f = w.keys.get(&k).map(|i| i.owner.clone());
                    if let Some(f) = f {
                        replace(ctx, w, &f);
                    }
                    changed = true;
                    if !w.keys.contains_key(&k) || ctx.stop {
                        return;
                    }
                }
                let req = mk(a);
                let Some(got) = call(ctx, w, &req) else { return };
                let mut resp = match (got, want(w, &req)) {
                    (Ok(r), _) => r,
                    (Err(_), Want::Open) | (Err(_), Want::Nothing) => {
                        // there is no such range any more: start again
                        ctx.stat("op.download_restarted");
                        have.clear();
                        net.clear();
                        (total, root, wanted) = (None, None, vec![0]);
                        continue;
                    }
                    (Err(e), Want::Is(..)) => {
                        ctx.violate(&["C17", "C19"], "not-served", format!("{url} from {a}: the router says {e}"));
                        return;
                    }
                };
                let honest = !(faulty && ctx.src.draw(100) < byz);
                if !honest {
                    // another chunk, another encoding or an older version instead
                    ctx.stat("fault.byzantine_chunk");
                    match ctx.src.draw(4) {
                        0 => {
                            let n = w.keys.get(&k).map(|i| starts(i.body.len()).len()).unwrap_or(0).max(1);
                            let b = CHUNK * ctx.src.idx(n);
                            if let Some(Ok(r)) = call(ctx, w, &mk(b)) {
                                resp = r;
                            }
                        }
                        1 => {
                            if let Some(s) = w.served.iter().rev().find(|s| s.loc == k.loc && s.version < w.version) {
                                resp = s.resp.clone();
                            }
                        }
                        2 => {
                            let n = resp.body.len().max(1);
                            let i = ctx.src.idx(n);
                            if let Some(x) = resp.body.get_mut(i) {
                                *x ^= 0x10;
                            }
                        }
                        _ => {
                            if resp.body.len() > 1 {
                                resp.body.pop();
                            }
                        }
                    }
                } else {
                    w.served.push(Served { req: req.clone(), resp: resp.clone(), loc: k.loc.clone(), fallback: false, version: w.version });
                    if w.served.len() > 24 {
                        w.served.remove(0);
                    }
                }
                if faulty && ctx.src.draw(100) < loss {
                    ctx.stat("fault.reply_lost");
                    continue;
                }
                let n = if faulty && ctx.src.draw(100) < dup { 2 } else { 1 };
                if n == 2 {
                    ctx.stat("fault.reply_duplicated");
                }
                for _ in 0..n {
                    seq += 1;
                    let d = if reorder { ctx.src.draw(400) } else { 20 };
                    net.insert((w.now + d * 1_000_000, seq), (a, Some((resp.clone(), honest))));
                }
            }
            (a, Some((resp, honest))) => {
                let req = mk(a);
                let Some(v) = gateway(ctx, w, &req, &resp) else { return };
                let Ok(v) = v else {
                    ctx.stat("verify.rejected");
                    // an honest answer of the present state must verify
                    let core = core_of(&resp);
                    let fresh = honest && matches!(want(w, &req), Want::Is(_, c) if c == core) && {
                        let ev = header(&resp.headers, "ic-certificate").and_then(Evidence::parse);
                        ev.is_some_and(|e| e.tree.digest().to_vec() == w.router.root_hash().to_vec())
                    };
                    if fresh {
                        let e = v.unwrap_err();
                        ctx.violate(&["C17", "C19"], "unverifiable", format!("{url} from {a}: {} does not verify: {e}", brief(&core)));
                    }
                    continue;
                };
                ctx.stat("verify.accepted");
                ctx.stat("check.chunk");
                let core = core_of(&v);
                let ev = header(&resp.headers, "ic-certificate").and_then(Evidence::parse);
                let r = ev.map(|e| e.tree.digest().to_vec());
                let name = core.headers.iter().find(|h| h.0 == "content-encoding").map(|h| h.1.as_str());
                let e = ENCS.iter().map(|e| e.name()).find(|n| Some(*n) == name);
                if root.is_some() && (root != r || enc != e) {
                    // content changed under way: start again
                    ctx.stat("op.download_restarted");
                    have.clear();
                    total = None;
                    root = None;
                    wanted = vec![0];
                    if a != 0 {
                        net.clear();
                        continue;
                    }
                }
                (root, enc) = (r, e);
                let (start, len) = if core.status == 206 {
                    let cr = core.headers.iter().find(|h| h.0 == "content-range").map(|h| h.1.clone()).unwrap_or_default();
                    let p = cr.strip_prefix("bytes ").and_then(|x| {
                        let (r, t) = x.split_once('/')?;
                        let (s, e) = r.split_once('-')?;
                        Some((s.parse::<usize>().ok()?, e.parse::<usize>().ok()?, t.parse::<usize>().ok()?))
                    });
                    match p {
                        Some((s, e, t)) if s <= e && e < t && core.body.len() == e - s + 1 && s == a => (s, t),
                        _ => {
                            ctx.violate(&["C19"], "content-range", format!("asked from {a}: verified {} has no fitting content range", brief(&core)));
                            return;
                        }
                    }
                } else if core.status == 200 {
                    (0, core.body.len())
                } else {
                    ctx.violate(&["C19"], "status", format!("{} for a large asset", core.status));
                    return;
                };
                if total.is_some_and(|t| t != len) {
                    ctx.violate(&["C19"], "total", format!("chunks of one version announce {total:?} and {len} bytes"));
                    return;
                }
                total = Some(len);
                have.insert(start, core.body);
                wanted = starts(len).into_iter().filter(|s| !have.contains_key(s)).collect();
                if have.len() > 1 || len <= CHUNK || wanted.is_empty() {
                    let mut out = vec![];
                    for (s, b) in &have {
                        if *s == out.len() {
                            out.extend_from_slice(b);
                        }
                    }
                    if out.len() == len {
                        done = true;
                        // the version this root certified: the present one, or one that has been replaced
                        let now = root.as_deref() == Some(w.router.root_hash().as_slice());
                        let k = Key { enc, ..k.clone() };
                        let live = w.keys.get(&k).is_some_and(|i| i.body == out);
                        let ok = live || (!now && w.dead.iter().any(|(k2, i)| *k2 == k && i.body == out));
                        ctx.stat("check.download");
                        if !ok {
                            ctx.violate(&["C19"], "reassembly", format!("the verified chunks of {url} put together ({len} bytes) are not the asset"));
                            return;
                        }
                    }
                }
            }
        }
    }
    let sz = total.unwrap_or(0) / CHUNK;
    ctx.sig(&["fetch", &sz.to_string(), k.enc.unwrap_or("-"), if changed { "changed" } else { "" }, if done { "done" } else { "open" }, &(sends.min(30) / 3).to_string()]);
    if !done && !ctx.stop {
        ctx.violate(&["C19"], "no-progress", format!("the download of {url} did not finish in {sends} requests although faults had stopped"));
    }
    ctx.log(format!("fetched in {sends} requests, {} ms", (w.now - t0) / 1_000_000));
}

/// The public maps show exactly what is certified.
fn maps(ctx: &mut Ctx, w: &mut World) {
    ctx.stat("check.asset_maps");
    let mut want: BTreeMap<(bool, String, Option<String>, Option<usize>), Core> = BTreeMap::new();
    for (k, i) in &w.keys {
        let e = k.enc.map(|s| s.to_string());
        want.insert((k.fallback, k.loc.clone(), e.clone(), None), item_core(i, None));
        if !k.fallback {
            for a in starts(i.body.len()) {
                want.insert((false, k.loc.clone(), e.clone(), Some(a)), item_core(i, Some(a)));
            }
        }
    }
    fn listed(r: &'static AssetRouter<'static>) -> BTreeMap<(bool, String, Option<String>, Option<usize>), Core> {
        let one = |f: bool, ((p, e, a), r): ((&str, Option<&str>, Option<usize>), &ic_http_certification::HttpResponse<'static>)| {
            ((f, p.to_string(), e.map(|e| e.to_string()), a), core_of(&from_real(r)))
        };
        let mut m = BTreeMap::new();
        m.extend(r.get_assets().iter().map(|x| one(false, x)));
        m.extend(r.get_fallback_assets().iter().map(|x| one(true, x)));
        m
    }
    let router: &AssetRouter<'static> = &w.router;
    let got = ctx.sut(all(), "asset maps", || {
        let mut m: BTreeMap<(bool, String, Option<String>, Option<usize>), Core> = BTreeMap::new();
        let (a, f) = (router.get_assets(), router.get_fallback_assets());
        let n = (a.len(), f.len(), a.is_empty(), f.is_empty());
        for (k, i) in &w.keys {
            let enc = k.enc.map(|n| ENCS.iter().find(|e| e.name() == n).unwrap().real());
            let mut ats = vec![None];
            if !k.fallback {
                ats.extend(starts(i.body.len()).into_iter().map(Some));
            }
            for at in ats {
                let r = if k.fallback { f.get(k.loc.clone(), enc, at) } else { a.get(k.loc.clone(), enc, at) };
                if let Some(r) = r {
                    m.insert((k.fallback, k.loc.clone(), k.enc.map(|s| s.to_string()), at), core_of(&from_real(r)));
                }
            }
        }
        (m, n)
    });
    let Some((m, n)) = got else { return };
    if m != want {
        let d = want.iter().find(|(k, v)| m.get(*k) != Some(v));
        ctx.violate(&tags(w, &["C19"]), "asset-map", format!("the asset maps lack or misstate {:?}", d.map(|(k, v)| (k, brief(v)))));
        return;
    }
    {
        let Some(l) = ctx.sut(all(), "asset map iterator", || {
            // `iter` asks for a borrow as long as the contents live; nothing of it outlives this call
            listed(unsafe { &*(&w.router as *const AssetRouter<'static>) })
        }) else { return };
        if l != want {
            let k = l.keys().find(|k| !want.contains_key(*k)).or(want.keys().find(|k| l.get(*k) != want.get(*k)));
            ctx.violate(&tags(w, &["C18", "C19"]), "asset-map-iter", format!("iterating over the asset maps adds, lacks or misstates {k:?}"));
            return;
        }
    }
    let exact = want.keys().filter(|k| !k.0).count();
    if n != (exact, want.len() - exact, exact == 0, want.len() == exact) {
        ctx.violate(&tags(w, &["C18", "C19"]), "asset-map-size", format!("the asset maps hold {n:?} entries, {exact} and {} are live", want.len() - exact));
    }
    if w.router.root_hash() != w.tree.borrow().root_hash() {
        ctx.violate(&tags(w, &[]), "root-hash", "the router's root hash is not that of its tree".into());
    }
}

/// A batch the router must refuse leaves everything as it was.
fn bad_batch(ctx: &mut Ctx, w: &mut World) {
    ctx.stat("fault.invalid_batch");
    let before = w.router.root_hash();
    let del = ctx.src.chance(1, 3);
    let path = ctx.src.pick(&w.names.clone()).clone();
    let b = body(ctx, w);
    let bad = AssetConfig::Pattern { pattern: "a{b".into(), content_type: None, headers: vec![], encodings: vec![] };
    let router = &mut w.router;
    let r = ctx.sut(all(), "invalid batch", || {
        let a = vec![Asset::new(path, b)];
        if del {
            router.delete_assets(a, vec![bad]).is_err()
        } else {
            router.certify_assets(a, vec![bad]).is_err()
        }
    });
    if r == Some(false) || w.router.root_hash() != before {
        ctx.violate(&tags(w, &["C18"]), "invalid-batch", "a batch with an invalid pattern was accepted or changed the tree".into());
    }
}

/// At the end: every live location is served and verifies, the maps agree, nothing removed remains.
fn finale(ctx: &mut Ctx, w: &mut World) {
    let mut seen = BTreeSet::new();
    for (k, _) in w.keys.clone() {
        if ctx.stop || seen.len() > 14 {
            break;
        }
        if !seen.insert(k.clone()) {
            continue;
        }
        let p = if k.fallback { format!("{}/zz", k.loc.trim_end_matches('/')) } else { k.loc.clone() };
        let mut req = get(&p);
        req.url = req.url.split('/').map(|s| crate::world::enc_seg(s, 0)).collect::<Vec<_>>().join("/");
        if let Some(e) = k.enc {
            req.headers.push(("accept-encoding".into(), e.into()));
        }
        ask(ctx, w, &req);
    }
    if !ctx.stop {
        maps(ctx, w);
        dead_sweep(ctx, w);
        check_app(ctx, w);
    }
}
