//! The deployment simulator: canisters, subnets, byzantine replicas, network, gateways.
use crate::attacks;
use crate::ctx::Ctx;
use crate::ic::*;
use crate::refimpl::canister::Entry;
use crate::refimpl::cel::Cel;
use crate::refimpl::rtree::{Look, T};
use crate::refimpl::verify::*;
use crate::world::*;
use ic_cbor::CertificateToCbor;
use ic_certificate_verification::VerifyCertificate;
use ic_certification::Certificate;
use ic_http_certification::HttpCertificationTree;
use ic_response_verification::{types::VerificationInfo, verify_request_response_pair};
use std::rc::Rc;

pub const MIN: u128 = 60_000_000_000;

const OPS: [&str; 16] = [
    "advance", "round", "insert", "delete", "clear", "upgrade", "trap", "request", "deliver", "attack", "corrupt",
    "check", "clock", "migrate", "edge", "final",
];

fn op_weights(p: &str) -> [u32; 16] {
    //    adv rnd ins del clr upg trp req dlv att cor chk clk mig edg fin
    match p {
        "C02" => [4, 6, 18, 8, 1, 3, 3, 22, 30, 4, 0, 2, 3, 2, 1, 1],
        "C03" => [2, 4, 16, 4, 1, 1, 1, 14, 12, 44, 0, 1, 0, 0, 0, 0],
        "C06" => [2, 4, 14, 5, 1, 1, 1, 14, 14, 40, 0, 1, 0, 0, 0, 0],
        "C07" => [8, 6, 6, 2, 0, 1, 0, 10, 12, 6, 0, 0, 12, 1, 40, 0],
        "C08" => [3, 5, 6, 2, 0, 1, 0, 12, 14, 46, 1, 0, 1, 8, 1, 0],
        "C10" => [2, 4, 8, 3, 0, 1, 0, 10, 8, 14, 50, 0, 2, 1, 8, 0],
        "C12" => [2, 4, 10, 2, 0, 1, 0, 14, 14, 44, 0, 0, 1, 0, 0, 0],
        "C13" => [2, 5, 30, 20, 2, 4, 5, 6, 8, 6, 0, 22, 0, 0, 0, 1],
        "C21" => [3, 5, 12, 5, 1, 1, 1, 16, 18, 24, 10, 0, 2, 1, 4, 1],
        "C20" => [3, 5, 14, 6, 1, 1, 1, 26, 30, 8, 0, 3, 0, 2, 1, 1],
        _ => [3, 5, 12, 5, 1, 2, 2, 16, 16, 36, 2, 1, 2, 2, 1, 0],
    }
}

fn kind_weights(p: &str) -> [u32; 5] {
    // V2, RefV2, V1, Dual, SkipAll
    match p {
        "C11" => [1, 0, 12, 6, 0],
        "C12" => [5, 1, 5, 8, 1],
        "C06" => [10, 4, 0, 1, 6],
        "C20" => [6, 10, 1, 3, 1],
        "C21" => [8, 3, 5, 3, 1],
        "C13" => [16, 0, 0, 0, 0],
        "C02" => [14, 1, 0, 0, 1],
        "C07" => [6, 2, 2, 1, 2],
        "C03" | "C04" | "C05" => [12, 5, 0, 1, 0],
        _ => [10, 3, 2, 2, 1],
    }
}

const RSIZE: u64 = 256;

pub fn run(ctx: &mut Ctx, profile: &str) {
    if !ctx.src.step() {
        return;
    }
    let mut w = setup(ctx, profile);
    let weights = op_weights(profile);
    while !ctx.stop && ctx.src.step() {
        let last = ctx.src.last();
        let k = ctx.src.kind(&weights, if last { Some(15) } else { None });
        let name = OPS[k];
        ctx.stat(&format!("op.{name}"));
        match name {
            "advance" => advance(ctx, &mut w),
            "round" => {
                let s = ctx.src.idx(w.subnets.len());
                // a stalled subnet skips its turn
                if ctx.src.chance(1, 12) {
                    ctx.stat("fault.subnet_stall");
                } else {
                    w.round(ctx, s);
                }
            }
            "insert" => {
                if let Some(c) = pick_canister(ctx, &w) {
                    insert(ctx, &mut w, c);
                }
            }
            "delete" => delete(ctx, &mut w),
            "clear" => clear(ctx, &mut w),
            "upgrade" => upgrade(ctx, &mut w),
            "trap" => trap(ctx, &mut w),
            "request" => {
                if let Some(m) = request(ctx, &mut w) {
                    w.flight.push(m);
                }
            }
            "deliver" => deliver_one(ctx, &mut w),
            "attack" => attack(ctx, &mut w, false),
            "corrupt" => attack(ctx, &mut w, true),
            "check" => {
                let c = ctx.src.idx(w.canisters.len());
                check_state(ctx, &mut w, c);
            }
            "clock" => clock_fault(ctx, &mut w),
            "migrate" => migrate(ctx, &mut w),
            "edge" => edge(ctx, &mut w),
            _ => finale(ctx, &mut w),
        }
    }
    ctx.out.sim_ns = w.now.saturating_sub(w.t0);
}

fn setup(ctx: &mut Ctx, profile: &str) -> World {
    let n = if ctx.thorough { 30 + ctx.src.draw(90) } else { 20 + ctx.src.draw(40) };
    ctx.src.set_budget(n as usize + 1);
    let base = 1_700_000_000_000_000_000u64;
    let t0 = if profile == "C07" || profile == "C10" {
        match ctx.src.draw(8) {
            0 => ctx.src.draw(1000),
            1 => 3 * MIN as u64 + ctx.src.draw(MIN as u64 * 4),
            2 => u64::MAX - ctx.src.draw(1000),
            3 => u64::MAX - ctx.src.draw(10 * MIN as u64),
            _ => base,
        }
    } else {
        base
    };
    let ns = 1 + ctx.src.idx(3);
    let rogue = ns; // a registered but malicious subnet
    let mut subnets = vec![];
    let root_at = ctx.src.idx(ns + 1); // == ns: no canister on the root subnet
    for i in 0..=ns {
        let lo = i as u64 * RSIZE;
        let mut ranges = vec![(canister_id(lo), canister_id(lo + RSIZE - 1))];
        if ctx.src.chance(1, 3) {
            // several ranges with gaps; single-element ranges
            ranges = vec![
                (canister_id(lo), canister_id(lo + 1)),
                (canister_id(lo + 3), canister_id(lo + 3)),
                (canister_id(lo + 5), canister_id(lo + RSIZE - 1)),
            ];
        }
        if ctx.src.chance(1, 8) {
            ranges = (0..4 + ctx.src.draw(44)).map(|k| (canister_id(lo + 5 * k), canister_id(lo + 5 * k + ctx.src.draw(4)))).collect();
            ctx.stat("noise.many_ranges");
        }
        if ctx.src.chance(1, 5) {
            ranges.reverse();
        }
        let root = i == root_at && i != rogue;
        subnets.push(Subnet {
            id: subnet_id(i as u64),
            key: if root {
                K_ROOT
            } else if i == rogue {
                K_EVIL
            } else {
                K_SUBNET + i
            },
            ranges,
            root,
        });
    }
    let mut w = World {
        profile: profile.into(),
        now: t0,
        t0,
        ledger: Ledger::default(),
        delegations: vec![None; subnets.len()],
        subnets,
        canisters: vec![],
        rounds: vec![],
        snaps: vec![],
        flight: vec![],
        archive: vec![],
        gws: vec![],
        uniq: 0,
        attacks: 0,
        noise: ctx.src.chance(1, 2),
        unset: ctx.src.chance(1, 3),
    };
    let nc = 1 + ctx.src.idx(if profile == "C13" { 2 } else { 4 });
    for _ in 0..nc {
        // the rogue subnet hosts none of them: nothing it signs for a canister is genuine
        let s = ctx.src.idx(ns);
        // ids at the edges of ranges are the interesting ones
        let r = w.subnets[s].ranges.clone();
        let r = ctx.src.pick(&r).clone();
        let id = match ctx.src.draw(3) {
            0 => r.0,
            1 => r.1,
            _ => r.0,
        };
        if w.canisters.iter().any(|c| c.id == id) {
            continue;
        }
        let kinds = [Kind::V2, Kind::RefV2, Kind::V1, Kind::Dual, Kind::SkipAll];
        let kind = kinds[ctx.src.weighted(&kind_weights(profile))];
        let mut c = Canister {
            id,
            subnet: s,
            kind,
            tree: HttpCertificationTree::default(),
            live: vec![],
            v1: Default::default(),
            dead: vec![],
        };
        if kind == Kind::SkipAll {
            let s = ctx.sut(&["C06"], "skip_cel", || real_cel_string(&Cel::Skip)).unwrap_or_default();
            let resp = Resp { status: 200, headers: vec![], body: vec![] };
            c.live.push(Rc::new(Entry { segs: vec![], wild: true, cel: Cel::Skip, cel_str: s, req: None, resp }));
        }
        w.canisters.push(c);
    }
    for s in 0..w.subnets.len() {
        w.make_delegation(ctx, s);
    }
    let ng = 1 + ctx.src.idx(3);
    for _ in 0..ng {
        let offset = match ctx.src.draw(6) {
            0 => MIN,
            1 if profile == "C07" => *ctx.src.pick(&[0, 1, 1000, u64::MAX as u128, 1 << 63]),
            _ => 5 * MIN,
        };
        let min_version = match profile {
            "C12" | "C21" => *ctx.src.pick(&[1u8, 2, 2, 0, 3]),
            "C11" => 1,
            _ => *ctx.src.pick(&[1u8, 1, 2, 0]),
        };
        let skew = (ctx.src.draw(2000) as i128 - 1000) * 1_000_000;
        w.gws.push(Gateway { skew: if ctx.src.chance(1, 2) { skew } else { 0 }, offset, min_version });
    }
    let desc = format!(
        "config subnets={} root={} canisters={:?} gateways={} t0={}",
        w.subnets.len(),
        root_at,
        w.canisters.iter().map(|c| (c.subnet, c.kind)).collect::<Vec<_>>(),
        ng,
        t0
    );
    ctx.log(desc);
    w
}

fn advance(ctx: &mut Ctx, w: &mut World) {
    let d = match ctx.src.draw(5) {
        0 => ctx.src.draw(2_000_000_000),
        1 => ctx.src.draw(60) * 1_000_000_000,
        2 => MIN as u64 * (1 + ctx.src.draw(4)),
        3 => 5 * MIN as u64,
        _ => ctx.src.draw(30) * MIN as u64,
    };
    w.now = w.now.saturating_add(d);
    ctx.log(format!("advance {d} ns"));
}

fn pick_canister(ctx: &mut Ctx, w: &World) -> Option<usize> {
    Some(ctx.src.idx(w.canisters.len()))
}

pub fn insert(ctx: &mut Ctx, w: &mut World, c: usize) -> Option<()> {
    let kind = w.canisters[c].kind;
    if matches!(kind, Kind::V1) || (kind == Kind::Dual && ctx.src.chance(1, 2)) {
        let p = gen_v1_path(ctx);
        w.uniq += 1;
        let body = match ctx.src.draw(4) {
            0 => vec![],
            1 => gzip(format!("asset {}", w.uniq).as_bytes()),
            2 if ctx.src.chance(1, 4) => {
                // decoding takes several steps
                let n = *ctx.src.pick(&[1023usize, 1024, 1025, 2048, 5000, 10_240, 70_000, 70_001, 300_000]);
                let n = if ctx.src.chance(1, 40) { 11 << 20 } else { n };
                ctx.stat("noise.long_v1_body");
                format!("{}{}", "s".repeat(n), w.uniq).into_bytes()
            }
            _ => format!("asset {}", w.uniq).into_bytes(),
        };
        ctx.log(format!("c{c} v1 insert {p}"));
        w.canisters[c].v1.insert(p, body);
        return Some(());
    }
    if kind == Kind::SkipAll {
        return Some(());
    }
    let like = {
        let l = &w.canisters[c].live;
        let d = &w.canisters[c].dead;
        if !l.is_empty() && ctx.src.chance(3, 5) {
            Some(ctx.src.pick(l).clone())
        } else if !d.is_empty() && ctx.src.chance(1, 3) {
            Some(ctx.src.pick(d).clone())
        } else {
            None
        }
    };
    // sometimes bring back exactly the same entry (idempotent or resurrecting insert)
    let e = match &like {
        Some(e) if ctx.src.chance(1, 8) => e.clone(),
        _ => Rc::new(w.gen_entry(ctx, kind, like.as_deref())?),
    };
    insert_entry(ctx, w, c, e)
}

pub fn insert_entry(ctx: &mut Ctx, w: &mut World, c: usize, e: Rc<Entry>) -> Option<()> {
    if w.canisters[c].kind == Kind::V2 {
        let mut t = w.canisters[c].tree.clone();
        let e2 = e.clone();
        let t = ctx.sut(&["C13", "C02"], "insert", move || {
            t.insert(&real_entry(&e2));
            t
        })?;
        w.canisters[c].tree = t;
    }
    ctx.log(format!("c{c} insert {:?} {:?}", e.expr_path(), e.cel));
    let tp = e.tree_path();
    // another entry with the same tree path is the same certification
    let can = &mut w.canisters[c];
    if !can.live.iter().any(|x| x.tree_path() == tp) {
        can.live.push(e);
    }
    can.dead.retain(|x| x.tree_path() != tp);
    if w.w("C13") {
        check_state(ctx, w, c);
    }
    Some(())
}

fn delete(ctx: &mut Ctx, w: &mut World) {
    let c = ctx.src.idx(w.canisters.len());
    let kind = w.canisters[c].kind;
    match kind {
        Kind::V1 => {
            let keys: Vec<String> = w.canisters[c].v1.keys().cloned().collect();
            if !keys.is_empty() {
                let k = ctx.src.pick(&keys).clone();
                w.canisters[c].v1.remove(&k);
            }
            return;
        }
        Kind::SkipAll => return,
        _ => {}
    }
    let absent = ctx.src.chance(1, 5);
    let e = if absent {
        // never inserted, or already deleted
        let d = w.canisters[c].dead.clone();
        let l = w.canisters[c].live.clone();
        if !d.is_empty() && ctx.src.chance(1, 2) {
            ctx.src.pick(&d).clone()
        } else {
            let like = if l.is_empty() { None } else { Some(ctx.src.pick(&l).clone()) };
            match w.gen_entry(ctx, kind, like.as_deref()) {
                Some(e) => Rc::new(e),
                None => return,
            }
        }
    } else {
        let l = w.canisters[c].live.clone();
        if l.is_empty() {
            return;
        }
        ctx.src.pick(&l).clone()
    };
    if kind == Kind::V2 {
        let mut t = w.canisters[c].tree.clone();
        let e2 = e.clone();
        let Some(t) = ctx.sut(&["C13", "C02"], "delete", move || {
            t.delete(&real_entry(&e2));
            t
        }) else {
            return;
        };
        w.canisters[c].tree = t;
    }
    ctx.log(format!("c{c} delete {:?} {:?} absent={absent}", e.expr_path(), e.cel));
    let tp = e.tree_path();
    let can = &mut w.canisters[c];
    can.live.retain(|x| x.tree_path() != tp);
    if !can.dead.iter().any(|x| x.tree_path() == tp) {
        can.dead.push(e);
        if can.dead.len() > 12 {
            can.dead.remove(0);
        }
    }
    if w.w("C13") {
        check_state(ctx, w, c);
    }
}

fn clear(ctx: &mut Ctx, w: &mut World) {
    let c = ctx.src.idx(w.canisters.len());
    if w.canisters[c].kind == Kind::SkipAll {
        return;
    }
    if w.canisters[c].kind == Kind::V2 {
        let mut t = w.canisters[c].tree.clone();
        let Some(t) = ctx.sut(&["C13"], "clear", move || {
            t.clear();
            t
        }) else {
            return;
        };
        w.canisters[c].tree = t;
    }
    ctx.log(format!("c{c} clear"));
    let can = &mut w.canisters[c];
    let mut old = std::mem::take(&mut can.live);
    can.dead.append(&mut old);
    while can.dead.len() > 12 {
        can.dead.remove(0);
    }
    can.v1.clear();
    if w.w("C13") {
        check_state(ctx, w, c);
    }
}

/// The canister's heap is lost; the tree is rebuilt from its durable list of entries.
fn upgrade(ctx: &mut Ctx, w: &mut World) {
    let c = ctx.src.idx(w.canisters.len());
    let can = &mut w.canisters[c];
    if can.kind != Kind::V2 {
        return;
    }
    let mut order = can.live.clone();
    for i in (1..order.len()).rev() {
        let j = ctx.src.idx(i + 1);
        order.swap(i, j);
    }
    let o2 = order.clone();
    if let Some(t) = ctx.sut(&["C13", "C02"], "rebuild", move || {
        let mut t = HttpCertificationTree::default();
        for e in &o2 {
            t.insert(&real_entry(e));
        }
        t
    }) {
        w.canisters[c].tree = t;
    }
    w.canisters[c].live = order;
    ctx.stat("fault.upgrade_rebuild");
    ctx.log(format!("c{c} upgrade"));
    if w.w("C13") {
        check_state(ctx, w, c);
    }
}

/// A message that mutates the tree traps half way: its effects are rolled back.
fn trap(ctx: &mut Ctx, w: &mut World) {
    let c = ctx.src.idx(w.canisters.len());
    if w.canisters[c].kind != Kind::V2 {
        return;
    }
    let saved = w.canisters[c].clone();
    let n = 1 + ctx.src.draw(3);
    for _ in 0..n {
        if ctx.stop {
            return;
        }
        if ctx.src.chance(1, 2) {
            insert(ctx, w, c);
        } else if !w.canisters[c].live.is_empty() {
            let i = ctx.src.idx(w.canisters[c].live.len());
            let e = w.canisters[c].live.remove(i);
            let mut t = w.canisters[c].tree.clone();
            if let Some(t) = ctx.sut(&["C13"], "delete", move || {
                t.delete(&real_entry(&e));
                t
            }) {
                w.canisters[c].tree = t;
            }
        }
    }
    w.canisters[c] = saved;
    ctx.stat("fault.trap_rollback");
    ctx.log(format!("c{c} trap: rolled back"));
    if w.w("C13") {
        check_state(ctx, w, c);
    }
}

/// C13: the tree certifies exactly the live entries.
pub fn check_state(ctx: &mut Ctx, w: &mut World, c: usize) {
    if w.canisters[c].kind != Kind::V2 || ctx.stop {
        return;
    }
    let can = w.canisters[c].clone();
    let tags = &["C13"];
    let (tree, live) = (can.tree.clone(), can.live.clone());
    let Some(root) = ctx.sut(tags, "root_hash", || tree.root_hash()) else { return };
    let mut acc = T::Pruned(root);
    for e in &live {
        let p = path_str(&e.segs);
        let p = if p.is_empty() { "/".to_string() } else { p };
        let Some(wit) = ctx.sut(tags, "witness", || tree.witness(&real_entry(e), &p)) else { return };
        let wit = match wit {
            Ok(x) => to_ref(&x),
            Err(err) => {
                ctx.violate(tags, "no-witness", format!("no witness for live entry {:?}: {err}", e.expr_path()));
                continue;
            }
        };
        if wit.digest() != root {
            ctx.violate(tags, "witness-digest", format!("witness of {:?} does not reconstruct to the root hash", e.expr_path()));
            continue;
        }
        if !matches!(wit.lookup(&e.tree_path()), Look::Found(_)) {
            ctx.violate(
                tags,
                "live-unprovable",
                format!("live entry {:?} is not in its own witness", e.expr_path()),
            );
        }
        acc = T::merge(&acc, &wit);
    }
    if ctx.stop {
        return;
    }
    // nothing outside the live set can be proven
    for e in &can.dead {
        let p = path_str(&e.segs);
        let p = if p.is_empty() { "/".to_string() } else { p };
        let Some(wit) = ctx.sut(tags, "witness-dead", || tree.witness(&real_entry(e), &p)) else { return };
        if let Ok(x) = wit {
            let x = to_ref(&x);
            if x.digest() != root {
                ctx.violate(tags, "witness-digest", format!("witness of deleted {:?} has another root", e.expr_path()));
                continue;
            }
            if let Look::Found(_) = x.lookup(&e.tree_path()) {
                ctx.violate(tags, "dead-provable", format!("deleted entry {:?} can still be proven", e.expr_path()));
            }
            acc = T::merge(&acc, &x);
        }
    }
    let mut want: Vec<Vec<Vec<u8>>> = live.iter().map(|e| e.tree_path()).collect();
    want.sort();
    want.dedup();
    let mut got: Vec<Vec<Vec<u8>>> = acc.leaves().into_iter().map(|x| x.0).collect();
    got.sort();
    if want != got {
        ctx.violate(
            tags,
            "leaf-set",
            format!("certified leaves ({}) are not the live entries ({})", got.len(), want.len()),
        );
    }
    if acc.digest() != root {
        ctx.violate(tags, "digest", "the live entries' tree does not hash to the root hash".into());
    }
    if live.is_empty() {
        // an empty tree is the same however it became empty
        let Some(r0) = ctx.sut(tags, "root_hash", || HttpCertificationTree::default().root_hash()) else { return };
        if r0 != root {
            ctx.violate(tags, "empty-root", "emptied tree differs from a new one".into());
        }
    }
    ctx.stat("check.c13_state");
}

pub fn gzip(b: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
pub fn deflate(b: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::fast());
    e.write_all(b).unwrap();
    e.finish().unwrap()
}

pub fn gen_v1_path(ctx: &mut Ctx) -> String {
    if ctx.src.chance(1, 3) {
        return "/index.html".into();
    }
    let s = gen_segs(ctx, 2);
    let p = path_str(&s);
    if p.is_empty() {
        "/".into()
    } else {
        p
    }
}

/// A snapshot of some canister that is worth asking about; makes content and a round if needed.
pub fn some_snap(ctx: &mut Ctx, w: &mut World, c: usize) -> Option<usize> {
    if w.canisters[c].live.is_empty() && w.canisters[c].v1.is_empty() {
        insert(ctx, w, c)?;
    }
    let mine: Vec<usize> = (0..w.snaps.len()).filter(|i| w.snaps[*i].canister == c).collect();
    let stale = |w: &World, i: usize| w.snaps[i].entries.is_empty() && w.snaps[i].v1.is_empty();
    match mine.last() {
        Some(l) if !stale(w, *l) && !ctx.src.chance(1, 4) => {
            // a lagging replica answers from an older state
            if mine.len() > 1 && ctx.src.chance(1, 6) {
                ctx.stat("fault.lagging_replica");
                let i = mine[ctx.src.idx(mine.len())];
                return (!stale(w, i)).then_some(i);
            }
            Some(*l)
        }
        _ => {
            let s = w.canisters[c].subnet;
            w.round(ctx, s)?;
            let i = (0..w.snaps.len()).rev().find(|i| w.snaps[*i].canister == c)?;
            (!stale(w, i)).then_some(i)
        }
    }
}

/// A request path answered by this entry, if possible.
pub fn segs_for(ctx: &mut Ctx, e: &Entry) -> Vec<String> {
    let mut s = e.segs.clone();
    if e.wild {
        let mut n = ctx.src.draw(4);
        if ctx.src.chance(1, 12) {
            n += ctx.src.draw(16);
        }
        if n > 0 || s.is_empty() {
            if s.last().map(|x| x.is_empty()).unwrap_or(false) {
                s.pop();
            }
            for _ in 0..n {
                s.push(ctx.src.pick(&SEG_POOL[..5]).to_string());
            }
            if n > 0 && ctx.src.chance(1, 6) {
                // names which also have a meaning in expression paths
                let i = s.len() - 1 - ctx.src.idx(n as usize);
                s[i] = ctx.src.pick(&["<*>", "<$>", "http_expr"]).to_string();
                ctx.stat("noise.reserved_segment");
            }
            if s.is_empty() || ctx.src.chance(1, 4) {
                s.push(String::new());
            }
        }
    }
    s
}

pub fn url_for(ctx: &mut Ctx, segs: &[String], query: Option<String>) -> String {
    let extra = if ctx.src.chance(1, 4) { ctx.src.seed() } else { 0 };
    let p = path_str(&segs.iter().map(|s| enc_seg(s, extra)).collect::<Vec<_>>());
    let p = if p.is_empty() { "/".to_string() } else { p };
    let host = if ctx.src.chance(1, 6) { *ctx.src.pick(&["https://canister.example", "http://h", "https://CANISTER.example:8443", "https://127.0.0.1:1"]) } else { "" };
    // an absolute URL needs no slash to name the root
    let p = if p == "/" && !host.is_empty() && ctx.src.chance(1, 2) { String::new() } else { p };
    format!("{host}{p}{}", query.map(|q| format!("?{q}")).unwrap_or_default())
}

pub fn request_for(ctx: &mut Ctx, e: &Entry, segs: &[String]) -> Req {
    match (&e.cel, &e.req) {
        (Cel::Full { headers, query, .. }, Some(r)) => {
            let q = r.url.split_once('?').map(|x| x.1.to_string());
            let mut hs = r.headers.clone();
            // uncertified parts may be anything
            hs.retain(|(k, _)| headers.iter().any(|h| h.eq_ignore_ascii_case(k)) || !ctx.src.chance(1, 3));
            if ctx.src.chance(1, 3) {
                let f = ctx.src.seed();
                for (i, h) in hs.iter_mut().enumerate() {
                    h.0 = flip_case(&h.0, f >> i);
                }
                hs.reverse();
                ctx.stat("noise.request_header_case_order");
            }
            if ctx.src.chance(1, 3) {
                if let Some(n) = other_name(ctx, headers, "X-Uncertified-Request") {
                    let at = ctx.src.idx(hs.len() + 1);
                    hs.insert(at, (n, "1".into()));
                }
            }
            let q = q.map(|q| {
                if ctx.src.chance(1, 3) {
                    if let Some(n) = other_name(ctx, query, "zz") {
                        ctx.stat("noise.uncertified_query");
                        let mut v: Vec<&str> = q.split('&').filter(|x| !x.is_empty()).collect();
                        if q.split('&').any(|x| x.is_empty()) && !q.is_empty() {
                            v = q.split('&').collect();
                        }
                        let extra = n + *ctx.src.pick(&["=1", "", "="]);
                        let at = ctx.src.idx(v.len() + 1);
                        v.insert(at, &extra);
                        return v.join("&");
                    }
                }
                q
            });
            Req { method: r.method.clone(), url: url_for(ctx, segs, q), headers: hs, body: r.body.clone() }
        }
        _ => {
            let q = gen_query(ctx);
            Req {
                method: ctx.src.pick(&["GET", "HEAD", "POST"]).to_string(),
                url: url_for(ctx, segs, q),
                headers: gen_headers(ctx, &REQ_HDR_POOL, 2),
                body: if ctx.src.chance(1, 5) { b"rb".to_vec() } else { vec![] },
            }
        }
    }
}

pub fn put_header(ctx: &mut Ctx, r: &mut Resp, name: &str, val: String) {
    let at = ctx.src.idx(r.headers.len() + 1);
    let name = if ctx.src.chance(1, 4) { flip_case(name, ctx.src.seed()) } else { name.to_string() };
    r.headers.insert(at, (name, val));
}

/// What has to be shown for an entry to be accepted for a request path.
pub fn needed(e: &Entry, segs: &[String]) -> Vec<Vec<Vec<u8>>> {
    let b = |p: &[String], t: &str| -> Vec<Vec<u8>> {
        let mut v = vec![b"http_expr".to_vec()];
        v.extend(p.iter().map(|s| s.as_bytes().to_vec()));
        v.push(t.as_bytes().to_vec());
        v
    };
    let mut out = vec![e.tree_path()];
    if e.wild {
        out.push(b(segs, "<$>"));
        for c in wildcard_candidates(segs) {
            if c == e.segs {
                break;
            }
            out.push(b(&c, "<*>"));
        }
    }
    out
}

fn request(ctx: &mut Ctx, w: &mut World) -> Option<Msg> {
    let c = ctx.src.idx(w.canisters.len());
    honest(ctx, w, c)
}

/// A client asks; an honest replica answers from one certified state.
pub fn honest(ctx: &mut Ctx, w: &mut World, c: usize) -> Option<Msg> {
    let snap = some_snap(ctx, w, c)?;
    let es = w.snaps[snap].entries.clone();
    let e = if es.is_empty() { None } else { Some(ctx.src.pick(&es).clone()) };
    honest_at(ctx, w, snap, e)
}

pub fn honest_at(ctx: &mut Ctx, w: &mut World, snap: usize, e: Option<Rc<Entry>>) -> Option<Msg> {
    let c = w.snaps[snap].canister;
    let kind = w.canisters[c].kind;
    let gw = ctx.src.idx(w.gws.len());
    let minimal = !ctx.src.chance(1, 4);
    let cert = w.cert(ctx, snap, minimal);
    let mut msg = Msg {
        canister: c,
        snap,
        entry: None,
        req: Req { method: "GET".into(), url: "/".into(), headers: vec![], body: vec![] },
        resp: Resp { status: 200, headers: vec![], body: vec![] },
        gw,
        sent_at: w.now,
        benign: true,
        muts: vec![],
        opaque: false,
    };
    let v1 = kind == Kind::V1 || (kind == Kind::Dual && (e.is_none() || ctx.src.chance(1, 2)));
    if v1 {
        return honest_v1(ctx, w, snap, cert, msg);
    }
    let e = e?;
    let es = w.snaps[snap].entries.clone();
    let segs = segs_for(ctx, &e);
    let b = World::best(&es, &segs);
    if b.is_empty() {
        return None;
    }
    let e = if b.iter().any(|x| Rc::ptr_eq(x, &e)) { e } else { (*ctx.src.pick(&b)).clone() };
    msg.req = request_for(ctx, &e, &segs);
    match kind {
        Kind::V2 => {
            let (tree, e2, req) = (w.snaps[snap].tree.clone(), e.clone(), msg.req.clone());
            let cb = cert.encode();
            match ctx.sut(&["C02", "C13"], "serve", move || add_header_real(&tree, &e2, &req, &cb))? {
                Ok(r) => msg.resp = r,
                Err(err) => {
                    ctx.violate(
                        &["C02", "C13"],
                        "cannot-serve",
                        format!("no evidence for certified {:?} on {}: {err}", e.expr_path(), msg.req.url),
                    );
                    return None;
                }
            }
        }
        Kind::SkipAll => {
            let mut r = Resp {
                status: *ctx.src.pick(&[200, 404, 500]),
                headers: gen_headers(ctx, &HDR_POOL, 3),
                body: vec![1, 2, 3],
            };
            r.headers.retain(|h| !h.0.is_empty());
            let cb = cert.encode();
            msg.resp = ctx.sut(&["C06", "C02"], "add_skip_certification_header", move || add_skip_real(&r, cb))?;
        }
        _ => {
            let full = w.full(ctx, snap)?;
            let tree = match ctx.src.draw(4) {
                0 => full,
                1 => full.prove(&needed(&e, &segs), true),
                _ => full.prove(&needed(&e, &segs), false),
            };
            let ev = Evidence { cert, tree, version: 2, expr_path: Some(e.expr_path()) };
            let mut r = e.resp.clone();
            let mut s = ev.print();
            // other implementations order and space the fields differently
            if ctx.src.chance(1, 3) {
                let mut f: Vec<&str> = s.split(", ").collect();
                let k = ctx.src.idx(f.len());
                f.rotate_left(k);
                s = f.join(if ctx.src.chance(1, 2) { "," } else { ", " });
            }
            put_header(ctx, &mut r, "IC-Certificate", s);
            msg.resp = r;
        }
    }
    if matches!(e.cel, Cel::Skip) && kind != Kind::SkipAll && ctx.src.chance(1, 2) {
        // uncertified content may change freely, e.g. it is generated per request
        msg.resp.status = *ctx.src.pick(&[200, 503]);
        msg.resp.body = b"dynamic".to_vec();
        msg.resp.headers.push(("X-Dyn".into(), "1".into()));
    }
    ctx.log(format!("c{c} serve {:?} for {} from snap {snap}", e.expr_path(), msg.req.url));
    msg.entry = Some(e);
    Some(msg)
}

fn honest_v1(ctx: &mut Ctx, w: &mut World, snap: usize, cert: Cert, mut msg: Msg) -> Option<Msg> {
    let v1 = w.snaps[snap].v1.clone();
    if v1.is_empty() {
        return None;
    }
    let keys: Vec<&String> = v1.keys().collect();
    let (path, stored) = if v1.contains_key("/index.html") && ctx.src.chance(1, 4) {
        ("/nosuch/asset".to_string(), "/index.html".to_string())
    } else {
        let k = (*ctx.src.pick(&keys)).clone();
        (k.clone(), k)
    };
    let body = v1[&stored].clone();
    let full = w.full(ctx, snap)?;
    let want = vec![
        vec![b"http_assets".to_vec(), path.as_bytes().to_vec()],
        vec![b"http_assets".to_vec(), stored.as_bytes().to_vec()],
    ];
    let tree = if ctx.src.chance(1, 4) { full } else { full.prove(&want, false) };
    let ev = Evidence { cert, tree, version: 1, expr_path: None };
    let mut s = ev.print();
    if ctx.src.chance(2, 3) {
        s = s.replace(", version=1", "");
    }
    let q = gen_query(ctx);
    let segs: Vec<String> = crate::refimpl::url::segments(&path);
    msg.req.url = url_for(ctx, &segs, q);
    let mut r = Resp { status: *ctx.src.pick(&[200, 404, 206]), headers: gen_headers(ctx, &["ETag", "X-Foo"], 2), body: body.clone() };
    match ctx.src.draw(5) {
        0 => {
            r.body = gzip(&body);
            r.headers.push(("Content-Encoding".into(), "gzip".into()));
        }
        1 => {
            r.body = deflate(&body);
            r.headers.push(("content-encoding".into(), "deflate".into()));
        }
        2 => {
            r.headers.push(("Content-Encoding".into(), "identity".into()));
        }
        3 if body.starts_with(&[0x1f, 0x8b]) => {
            // the certified bytes are the encoded ones
            r.headers.push(("Content-Encoding".into(), "gzip".into()));
        }
        _ => {}
    }
    put_header(ctx, &mut r, "IC-Certificate", s);
    msg.resp = r;
    ctx.log(format!("c{} serve v1 {path} from snap {snap}", msg.canister));
    Some(msg)
}

fn deliver_one(ctx: &mut Ctx, w: &mut World) {
    let m = if w.flight.is_empty() {
        match request(ctx, w) {
            Some(m) => m,
            None => return,
        }
    } else {
        // reordering: any message in flight may arrive next
        let i = ctx.src.idx(w.flight.len());
        if i > 0 {
            ctx.stat("fault.reorder");
        }
        match ctx.src.draw(12) {
            0 => {
                w.flight.swap_remove(i);
                ctx.stat("fault.drop");
                return;
            }
            1 => {
                ctx.stat("fault.duplicate");
                w.flight[i].clone()
            }
            2 => {
                ctx.stat("fault.delay");
                advance(ctx, w);
                w.flight.swap_remove(i)
            }
            _ => w.flight.swap_remove(i),
        }
    };
    let mut m = m;
    if ctx.src.chance(1, 4) {
        attacks::benign(ctx, w, &mut m);
    }
    let clk = clock_of(w, m.gw);
    deliver(ctx, w, &m, clk);
    archive(w, m);
}

fn archive(w: &mut World, m: Msg) {
    w.archive.push(m);
    if w.archive.len() > 24 {
        w.archive.remove(0);
    }
}

fn attack(ctx: &mut Ctx, w: &mut World, corrupt: bool) {
    let pool = w.flight.len() + w.archive.len();
    let mut m = if pool > 0 && ctx.src.chance(3, 4) {
        let i = ctx.src.idx(pool);
        if i < w.flight.len() {
            w.flight[i].clone()
        } else {
            ctx.stat("fault.replay");
            w.archive[i - w.flight.len()].clone()
        }
    } else {
        match request(ctx, w) {
            Some(m) => {
                archive(w, m.clone());
                m
            }
            None => return,
        }
    };
    w.attacks += 1;
    let n = if corrupt { 1 + ctx.src.draw(4) } else { [1, 1, 1, 2, 2, 3][ctx.src.idx(6)] };
    for _ in 0..n {
        if ctx.stop {
            return;
        }
        if corrupt {
            attacks::corrupt(ctx, &mut m);
        } else {
            attacks::tamper(ctx, w, &mut m);
        }
    }
    let clk = clock_of(w, m.gw);
    deliver(ctx, w, &m, clk);
}

fn clock_fault(ctx: &mut Ctx, w: &mut World) {
    let g = ctx.src.idx(w.gws.len());
    let off = w.gws[g].offset.min(1 << 100) as i128;
    w.gws[g].skew = match ctx.src.draw(6) {
        0 => 0,
        1 => off - ctx.src.draw(3) as i128,
        2 => -off + ctx.src.draw(3) as i128,
        3 => off * 2,
        4 => -off * 2,
        _ => (ctx.src.draw(20) as i128 - 10) * MIN as i128,
    };
    ctx.stat("fault.clock_jump");
    let s = w.gws[g].skew;
    ctx.log(format!("gateway {g} clock skew {s}"));
}

/// Canister ranges move between subnets; the canister is hosted elsewhere from now on.
fn migrate(ctx: &mut Ctx, w: &mut World) {
    let ns = w.subnets.len() - 1;
    match ctx.src.draw(3) {
        0 => {
            // delegation refresh
            let s = ctx.src.idx(ns + 1);
            w.make_delegation(ctx, s);
        }
        1 => {
            // split a range away from this canister's neighbours
            let c = ctx.src.idx(w.canisters.len());
            let id = w.canisters[c].id.clone();
            let s = w.canisters[c].subnet;
            let mut r = w.subnets[s].ranges.clone();
            r.retain(|x| !(x.0 <= id && id <= x.1));
            let others: Vec<Vec<u8>> =
                w.canisters.iter().filter(|x| x.subnet == s && x.id != id).map(|x| x.id.clone()).collect();
            r.push((id.clone(), id.clone()));
            for o in others {
                if !r.iter().any(|x| x.0 <= o && o <= x.1) {
                    r.push((o.clone(), o));
                }
            }
            w.subnets[s].ranges = r;
            w.make_delegation(ctx, s);
        }
        _ => {
            let c = ctx.src.idx(w.canisters.len());
            let to = ctx.src.idx(ns);
            let from = w.canisters[c].subnet;
            if to == from {
                return;
            }
            let id = w.canisters[c].id.clone();
            let all: Vec<Vec<u8>> =
                w.canisters.iter().filter(|x| x.subnet == from && x.id != id).map(|x| x.id.clone()).collect();
            let mut r = w.subnets[from].ranges.clone();
            r.retain(|x| !(x.0 <= id && id <= x.1));
            for o in all {
                if !r.iter().any(|x| x.0 <= o && o <= x.1) {
                    r.push((o.clone(), o));
                }
            }
            w.subnets[from].ranges = r;
            w.subnets[to].ranges.push((id.clone(), id));
            w.canisters[c].subnet = to;
            w.make_delegation(ctx, from);
            w.make_delegation(ctx, to);
            ctx.stat("fault.canister_migration");
        }
    }
    ctx.log("registry change".into());
}

#[derive(Clone, Copy, Debug)]
pub struct Clock {
    pub now: u128,
    pub offset: u128,
    pub min_version: u8,
    pub edge: bool,
}

pub fn clock_of(w: &World, g: usize) -> Clock {
    Clock { now: w.gw_now(g), offset: w.gws[g].offset, min_version: w.gws[g].min_version, edge: false }
}

/// Delivers an honest message at a gateway whose clock stands exactly at a boundary.
fn edge(ctx: &mut Ctx, w: &mut World) {
    let m = if !w.archive.is_empty() && ctx.src.chance(1, 2) {
        ctx.src.pick(&w.archive).clone()
    } else {
        match request(ctx, w) {
            Some(m) => {
                archive(w, m.clone());
                m
            }
            None => return,
        }
    };
    let t = w.rounds[w.snaps[m.snap].round].time as u128;
    let offset = match ctx.src.draw(8) {
        0 => 0,
        1 => 1,
        2 => t,
        3 => t + 1,
        4 => u64::MAX as u128,
        5 => u128::MAX,
        6 => ctx.src.draw(1000) as u128,
        _ => 5 * MIN,
    };
    let j = ctx.src.draw(5) as i128 - 2;
    let near = |x: u128| if j < 0 { x.saturating_sub(-j as u128) } else { x.saturating_add(j as u128) };
    let now = match ctx.src.draw(7) {
        0 => near(t),
        1 | 2 => near(t.saturating_add(offset)),
        3 | 4 => near(t.saturating_sub(offset)),
        5 => ctx.src.draw(3) as u128,
        _ => u128::MAX - ctx.src.draw(3) as u128,
    };
    ctx.stat("fault.clock_at_boundary");
    let clk = Clock { now, offset, min_version: w.gws[m.gw].min_version, edge: true };
    deliver(ctx, w, &m, clk);
}

/// Faults stop: fresh delegations and rounds, correct clocks. Everything certified must verify,
/// nothing deleted may.
fn finale(ctx: &mut Ctx, w: &mut World) {
    ctx.log("faults stop".into());
    w.unset = false;
    for g in &mut w.gws {
        g.skew = 0;
        g.offset = 5 * MIN;
        g.min_version = 1;
    }
    w.now = w.now.saturating_add(MIN as u64);
    for s in 0..w.subnets.len() {
        w.make_delegation(ctx, s);
        if w.round(ctx, s).is_none() {
            return;
        }
    }
    for c in 0..w.canisters.len() {
        let Some(snap) = (0..w.snaps.len()).rev().find(|i| w.snaps[*i].canister == c) else { continue };
        let es = w.snaps[snap].entries.clone();
        for e in es.iter().take(8) {
            if ctx.stop {
                return;
            }
            // the entry's own path: it has to be reachable unless a better match exists
            if let Some(m) = honest_at(ctx, w, snap, Some(e.clone())) {
                let clk = clock_of(w, m.gw);
                deliver(ctx, w, &m, clk);
                ctx.stat("check.liveness_after_faults");
            }
        }
        // old evidence glued to the new certificate
        let old: Vec<Msg> = w.archive.iter().filter(|m| m.canister == c && m.benign).cloned().collect();
        for mut m in old.into_iter().take(4) {
            if ctx.stop {
                return;
            }
            if let Some(mut ev) = attacks::ev_of(&m) {
                ev.cert = w.cert(ctx, snap, true);
                attacks::set_ev(&mut m, &ev);
                m.benign = false;
                m.muts.push("old-evidence-new-cert");
                let clk = clock_of(w, m.gw);
                deliver(ctx, w, &m, clk);
            }
        }
        check_state(ctx, w, c);
    }
}

// ---------------------------------------------------------------------------------------------
// Verdicts

fn in_window(t: u64, clk: &Clock) -> bool {
    (t as u128).abs_diff(clk.now) <= clk.offset
}

/// Did the canister, in a certified state inside the window, certify this (v2)?
fn truth_v2(w: &World, m: &Msg, clk: &Clock, skip: bool) -> bool {
    let Some(segs) = req_segs(&m.req) else { return false };
    let Some(expr) = header(&m.resp.headers, "ic-certificateexpression") else { return false };
    w.snaps.iter().any(|s| {
        s.canister == m.canister
            && in_window(w.rounds[s.round].time, clk)
            && s.entries.iter().any(|e| {
                e.cel_str == expr
                    && World::legit(&s.entries, e, &segs)
                    && match &e.cel {
                        Cel::Skip => skip,
                        Cel::Response(rc) => !skip && same_content(rc, e, m),
                        Cel::Full { headers, query, resp } => {
                            !skip
                                && same_content(resp, e, m)
                                && same_request(headers, query, e.req.as_ref().unwrap(), &m.req)
                        }
                    }
            })
    })
}

fn same_content(rc: &crate::refimpl::cel::RespCert, e: &Entry, m: &Msg) -> bool {
    e.resp.status == m.resp.status
        && e.resp.body == m.resp.body
        && sorted(covered_headers(rc, &e.resp)) == sorted(covered_headers(rc, &m.resp))
}

fn truth_v1(w: &World, m: &Msg, clk: &Clock) -> bool {
    let Some(p) = crate::refimpl::url::split(&m.req.url) else { return false };
    let enc = header(&m.resp.headers, "content-encoding");
    let dec = decode_body(&m.resp.body, enc);
    w.snaps.iter().any(|s| {
        s.canister == m.canister
            && in_window(w.rounds[s.round].time, clk)
            && [p.path.as_str(), "/index.html"]
                .iter()
                .filter_map(|k| s.v1.get(*k))
                .any(|b| Some(b) == dec.as_ref() || (enc.is_some() && *b == m.resp.body))
    })
}

pub fn real_verify(
    m: &Msg,
    canister: &[u8],
    clk: &Clock,
    key: &[u8],
) -> Result<VerificationInfo, ic_response_verification::ResponseVerificationError> {
    verify_request_response_pair(
        real_req(&m.req),
        real_resp(&m.resp),
        canister,
        clk.now,
        clk.offset,
        key,
        clk.min_version,
    )
}

fn err_name<E: std::fmt::Debug>(e: &E) -> String {
    format!("{e:?}").chars().take_while(|c| c.is_ascii_alphanumeric()).collect()
}

fn content_headers(h: &Hdrs) -> Hdrs {
    let mut v: Hdrs = h
        .iter()
        .map(|(k, v)| (k.to_ascii_lowercase(), v.clone()))
        .filter(|(k, _)| k != "ic-certificate" && k != "ic-certificateexpression")
        .collect();
    v.sort();
    v
}

/// Hands a message to a gateway and judges its verdict.
pub fn deliver(ctx: &mut Ctx, w: &mut World, m: &Msg, clk: Clock) {
    if ctx.stop {
        return;
    }
    let id = w.canisters[m.canister].id.clone();
    let kind = w.canisters[m.canister].kind;
    let key = keys()[K_ROOT].der();
    let rv = {
        let l = &w.ledger;
        let bls = |pk: &[u8], sig: &[u8], root: &[u8; 32]| l.ok(pk, sig, root);
        let env = Env {
            canister: &id,
            now: clk.now,
            offset: clk.offset,
            root_key: &key,
            min_version: clk.min_version,
            bls_ok: &bls,
        };
        verify(&m.req, &m.resp, &env)
    };
    let ev = attacks::ev_of(m);
    let skip_entry = m.entry.as_ref().map(|e| e.cel == Cel::Skip).unwrap_or(false);
    let v2 = m.entry.is_some();
    let mut crash: Vec<&str> = vec!["C10"];
    if m.benign {
        crash.push(if !v2 {
            "C11"
        } else if skip_entry {
            "C06"
        } else {
            "C02"
        });
    }
    if clk.edge {
        crash.push("C07");
    }
    let (m2, id2, key2) = (m.clone(), id.clone(), key.clone());
    let Some((real, use_)) = ctx.sut_metered(&crash, "verify", move || real_verify(&m2, &id2, &clk, &key2)) else {
        return;
    };
    let size = m.resp.body.len() + m.resp.headers.iter().map(|h| h.0.len() + h.1.len()).sum::<usize>() + m.req.url.len();
    if use_.peak > (64 << 20) + 200 * size as u64 {
        ctx.violate(&["C10"], "memory", format!("verifying {size} bytes took {} bytes of memory", use_.peak));
    }
    ctx.stat("verify.total");
    if m.muts.is_empty() {
        ctx.stat("verify.honest");
    }
    let verdict = match &real {
        Ok(_) => "ok".to_string(),
        Err(e) => err_name(e),
    };
    let rr = match &rv {
        Ok(_) => "ok".to_string(),
        Err(v) => format!("{v:?}"),
    };
    ctx.stat(if real.is_ok() { "verify.accepted" } else { "verify.rejected" });
    ctx.log(format!("deliver c{} {} muts={:?} -> {verdict} (reference {rr})", m.canister, m.req.url, m.muts));
    let ks = format!("{kind:?}");
    if crate::js::wanted(&w.profile) {
        let a = crate::js::Asked {
            req: &m.req,
            resp: &m.resp,
            status: m.resp.status as f64,
            canister: &id,
            now: clk.now,
            offset: clk.offset,
            key: &key,
            min: clk.min_version,
        };
        crate::js::compare(ctx, &a, &real);
        if ctx.src.chance(1, 12) {
            let status = *ctx.src.pick(&[0.0, 1.0, 99.0, 1000.0, 65535.0, 65736.0, -1.0, 1e300]);
            crate::js::odd(ctx, &crate::js::Asked { status, ..a });
        }
    }
    ctx.sig(&[&ks, &m.muts.join("+"), &verdict, &rr, m.entry.as_ref().map(|e| if e.wild { "w" } else { "x" }).unwrap_or("-")]);
    match real {
        Ok(info) => accepted(ctx, w, m, &clk, &info, &rv, ev.as_ref()),
        Err(e) => rejected(ctx, w, m, &clk, &e, &rv, ev.as_ref(), v2, skip_entry, kind),
    }
}

fn accepted(
    ctx: &mut Ctx,
    w: &World,
    m: &Msg,
    clk: &Clock,
    info: &VerificationInfo,
    rv: &Result<Accepted, Vec<Reason>>,
    ev: Option<&Evidence>,
) {
    let none = vec![];
    let why = match rv {
        Ok(_) => &none,
        Err(v) => v,
    };
    let desc = |s: &str| format!("{s}; canister {}, request {} {}, mutations {:?}, reference says {why:?}", m.canister, m.req.method, m.req.url, m.muts);
    let ver = info.verification_version as u64;
    if ver < clk.min_version as u64 {
        ctx.violate(&["C12"], "below-minimum", desc(&format!("accepted version {ver} below the minimum {}", clk.min_version)));
    }
    if ver != 1 && ver != 2 {
        ctx.violate(&["C12"], "unsupported-version", desc(&format!("accepted unsupported version {ver}")));
    }
    // whatever else the network did to the header: the version must be one that it names
    let hs: Vec<&String> = m.resp.headers.iter().filter(|h| h.0.eq_ignore_ascii_case("ic-certificate")).map(|h| &h.1).collect();
    if let [h] = hs[..] {
        let named: Vec<&str> = h.split(',').map(|f| f.trim()).filter_map(|f| f.strip_prefix("version=")).collect();
        let plain = |v: &str| !v.is_empty() && v.bytes().all(|b| b.is_ascii_digit()) && !(v.len() > 1 && v.starts_with('0'));
        let wrong = match named[..] {
            [] => ver != 1 && !h.to_ascii_lowercase().contains("version"),
            _ => named.iter().all(|v| plain(v)) && !named.contains(&ver.to_string().as_str()),
        };
        if wrong {
            ctx.violate(&["C12"], "not-the-named-version", desc(&format!("verified as version {ver}, the header names {named:?}")));
        }
    }
    if !m.opaque {
        if let Some(ev) = ev {
            if ev.version as u64 != ver {
                ctx.violate(&["C12"], "other-version", desc(&format!("evidence names version {}, verified as {ver}", ev.version)));
            }
        }
        let hard: &[(Reason, &[&str], &str)] = &[
            (Reason::MinVersion, &["C12"], "below-minimum"),
            (Reason::UnsupportedVersion, &["C12"], "unsupported-version"),
            (Reason::Time, &["C07"], "outside-window"),
            (Reason::Nested, &["C08"], "nested-delegation"),
            (Reason::DelegationSignature, &["C08"], "delegation-signature"),
            (Reason::Range, &["C08"], "canister-range"),
            (Reason::SubnetKey, &["C08"], "subnet-key"),
            (Reason::Signature, &["C08"], "certificate-signature"),
            (Reason::CertifiedData, &["C08"], "certified-data"),
            (Reason::Digest, &["C01", "C08"], "tree-digest"),
        ];
        if !why.contains(&Reason::Malformed) {
            for (r, tags, class) in hard {
                if why.contains(r) {
                    ctx.violate(tags, class, desc("accepted"));
                }
            }
        }
    }
    let has = |r: Reason| why.contains(&r);
    match (&info.response, ver) {
        (None, _) => {
            if !truth_v2(w, m, clk, true) {
                let mut t = vec!["C06"];
                if has(Reason::ExprPath) || has(Reason::Precedence) {
                    t.push("C03");
                }
                ctx.violate(&t, "skip-not-certified", desc("skipped verification without the canister's certified consent"));
            }
        }
        (Some(r), 1) => {
            let ok1 = truth_v1(w, m, clk);
            let ref_ok = m.opaque || !has(Reason::V1Body);
            if !ok1 || !ref_ok {
                let mut t = vec!["C11"];
                if m.entry.is_some() {
                    t.push("C12");
                }
                ctx.violate(&t, "v1-not-certified", desc("accepted a body the canister did not certify for this path"));
            }
            if r.status_code.is_some() || !r.headers.is_empty() || r.body != m.resp.body {
                ctx.violate(&["C11", "C05"], "v1-content", desc("returned more than the body as verified"));
            }
        }
        (Some(r), _) => {
            if !truth_v2(w, m, clk, false) {
                let mut t = vec!["C01"];
                if has(Reason::ExprPath) || has(Reason::Precedence) {
                    t.push("C03");
                }
                if has(Reason::RequestHash) {
                    t.push("C04");
                }
                if has(Reason::ResponseHash) {
                    t.push("C05");
                }
                if has(Reason::ExprHash) {
                    t.push("C06");
                }
                ctx.violate(&t, "not-certified", desc("accepted a response the canister never certified"));
            }
            let expr = header(&m.resp.headers, "ic-certificateexpression").and_then(crate::refimpl::cel::parse);
            match expr {
                Some(Cel::Skip) => {
                    ctx.violate(&["C06"], "skip-content", desc("returned content as verified for a skip expression"))
                }
                Some(Cel::Response(rc)) | Some(Cel::Full { resp: rc, .. }) => {
                    let want = content_headers(&covered_headers(&rc, &m.resp));
                    let got = content_headers(&r.headers);
                    if r.status_code != Some(m.resp.status) || r.body != m.resp.body || want != got {
                        ctx.violate(
                            &["C05"],
                            "returned-content",
                            desc(&format!("returned status {:?} headers {got:?}, certified {} {want:?}", r.status_code, m.resp.status)),
                        );
                    }
                }
                None => {}
            }
        }
    }
    ctx.stat("check.accepted_judged");
}

#[allow(clippy::too_many_arguments)]
fn rejected(
    ctx: &mut Ctx,
    w: &World,
    m: &Msg,
    clk: &Clock,
    err: &ic_response_verification::ResponseVerificationError,
    rv: &Result<Accepted, Vec<Reason>>,
    ev: Option<&Evidence>,
    v2: bool,
    skip: bool,
    kind: Kind,
) {
    let desc = |s: &str| {
        format!(
            "{s}: {}; canister {} ({kind:?}), request {} {}, mutations {:?}",
            format!("{err:?}").chars().take(300).collect::<String>(),
            m.canister,
            m.req.method,
            m.req.url,
            m.muts
        )
    };
    // the reference itself must accept what honest parties made
    if m.benign {
        let t = w.rounds[w.snaps[m.snap].round].time;
        let ver = if v2 { 2 } else { 1 };
        if !in_window(t, clk) || ver < clk.min_version {
            ctx.stat("check.rejected_expected");
            return;
        }
        if let Err(why) = rv {
            let by_lib = matches!(kind, Kind::V2 | Kind::SkipAll);
            let tags: &[&str] = if by_lib { &["C20", "C02", "C13"] } else { &["C20"] };
            if by_lib {
                ctx.violate(tags, "evidence-invalid", desc(&format!("the library's own evidence is wrong ({why:?})")));
            } else {
                ctx.out.harness_error = Some(format!("reference rejects its own evidence: {why:?} {}", m.req.url));
            }
            return;
        }
        let mut tags: Vec<&str> = vec![];
        let mut class = "honest-rejected";
        // where does it fail?
        let id = &w.canisters[m.canister].id;
        let key = keys()[K_ROOT].der();
        let cert = ev.map(|e| e.cert.encode()).unwrap_or_default();
        let only_cert = |now: u128, off: u128| -> bool {
            let (id, key, cert) = (id.clone(), key.clone(), cert.clone());
            std::panic::catch_unwind(move || match Certificate::from_cbor(&cert) {
                Ok(c) => c.verify(&id, &key, &now, &off).is_ok(),
                Err(_) => false,
            })
            .unwrap_or(false)
        };
        if !only_cert(clk.now, clk.offset) {
            if only_cert(t as u128, 300_000_000_000) {
                tags.push("C07");
                class = "in-window-rejected";
            } else {
                tags.push("C08");
                class = "certificate-rejected";
            }
        }
        if clk.min_version > 0 {
            let c0 = Clock { min_version: 0, ..*clk };
            let (m2, id2) = (m.clone(), id.clone());
            if let Some(Ok(_)) = ctx.sut(&["C10"], "verify", move || real_verify(&m2, &id2, &c0, &key)) {
                tags.push("C12");
                class = "minimum-met-rejected";
            }
        }
        if !v2 {
            tags.push("C11");
        } else {
            tags.push("C02");
            if skip {
                tags.push("C06");
            }
            if kind == Kind::RefV2 || kind == Kind::Dual {
                tags.push("C20");
            }
            if matches!(m.entry.as_ref().map(|e| &e.cel), Some(Cel::Full { .. })) {
                tags.push("C04");
            }
        }
        for x in &m.muts {
            if x.starts_with("b-resp") {
                tags.push("C05");
            }
            if x.starts_with("b-req") {
                tags.push("C04");
            }
            if x.starts_with("b-field") {
                tags.push("C20");
            }
            if x.starts_with("b-version") {
                tags.push("C12");
            }
        }
        ctx.violate(&tags, class, desc("an honest response was rejected"));
        return;
    }
    if m.opaque {
        return;
    }
    // altered, but still what the specification accepts
    if let Ok(a) = rv {
        let mut tags = vec!["C20"];
        if a.version == 1 {
            tags = vec!["C11"];
        } else if a.content.is_none() {
            tags.push("C06");
        }
        ctx.stat("check.altered_but_valid");
        ctx.violate(&tags, "valid-rejected", desc("evidence valid by the specification was rejected"));
    }
}

