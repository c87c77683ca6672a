//! Histories of the certified maps and of pruned hash trees, with traps, upgrades, byzantine
//! pruning and corruption in transit, refined against ordered maps.
use crate::ctx::Ctx;
use crate::prng::{hash_str, mix};
use crate::refimpl::cbor::{self, Val};
use crate::refimpl::hashes::H;
use crate::refimpl::rtree::{fork, lab, Look, T};
use crate::world::to_ref;
use ic_cbor::{CertificateToCbor, HashTreeToCbor};
use ic_certification::hash_tree::{Hash, HashTree as GTree, HashTreeNode};
use ic_certification::{
    merge_hash_trees, AsHashTree, Certificate, Delegation, HashTree, Label, LookupResult, NestedTree, RbTree,
    SubtreeLookupResult,
};
use std::collections::BTreeMap;

type Key = Vec<u8>;
type Map = BTreeMap<Key, Vec<u8>>;
type Rb = RbTree<Key, Vec<u8>>;
type Tag = &'static [&'static str];

pub fn run(ctx: &mut Ctx, profile: &str) {
    if !ctx.src.step() {
        return;
    }
    match profile {
        "C14" => rb(ctx, &["C14"]),
        "C15" => nested(ctx, &["C15"]),
        "C16" => trees(ctx, &["C16"]),
        _ => wire(ctx, &["C20"]),
    }
}

/// A family of keys: short alphabets make keys nest, collide and border on each other.
struct Keys {
    style: u64,
}
impl Keys {
    fn new(ctx: &mut Ctx) -> Keys {
        Keys { style: ctx.src.draw(6) }
    }
    fn gen(&self, ctx: &mut Ctx) -> Key {
        match if self.style == 4 { ctx.src.draw(5) } else { self.style } {
            0 => {
                let n = ctx.src.draw(5);
                (0..n).map(|_| *ctx.src.pick(&[b'a', b'b', 0, 0xff, 0x7f, 0xfe])).collect()
            }
            1 => {
                let v = ctx.src.draw(64) as u16;
                v.to_be_bytes().to_vec()
            }
            2 => {
                let n = 1 + ctx.src.draw(3);
                let mut s = String::new();
                for _ in 0..n {
                    s += *ctx.src.pick(&["a", "asset", "s", "http", "<$>", "<*>", "z"]);
                }
                s.into_bytes()
            }
            3 => {
                let i = ctx.src.draw(24);
                crate::refimpl::hashes::sha(&i.to_le_bytes()).to_vec()
            }
            _ => {
                // long keys which differ only in the end
                let n = *ctx.src.pick(&[23usize, 24, 31, 63, 64, 200, 255, 256, 300]);
                long_key(n, ctx.src.draw(48))
            }
        }
    }
}
fn long_key(n: usize, i: u64) -> Key {
    let mut k = vec![b'p'; n];
    k.extend_from_slice(&(i as u16).to_be_bytes());
    k
}

fn value(ctx: &mut Ctx) -> Vec<u8> {
    match ctx.src.draw(6) {
        0 => vec![],
        1 => vec![ctx.src.draw(3) as u8],
        2 => ctx.src.seed().to_le_bytes().to_vec(),
        3 => crate::refimpl::hashes::sha(&ctx.src.draw(4).to_le_bytes()).to_vec(),
        4 => vec![0x5a; ctx.src.draw(300) as usize],
        _ => format!("v{}", ctx.src.draw(50)).into_bytes(),
    }
}

/// A key next to this one: its neighbours in byte order, extensions and truncations.
fn near(ctx: &mut Ctx, k: &[u8]) -> Key {
    let mut k = k.to_vec();
    match ctx.src.draw(6) {
        0 => {}
        1 => k.push(0),
        2 => {
            k.pop();
        }
        3 => k.push(0xff),
        4 => {
            if let Some(x) = k.last_mut() {
                *x = x.wrapping_add(1)
            }
        }
        _ => {
            if let Some(x) = k.last_mut() {
                *x = x.wrapping_sub(1)
            }
        }
    }
    k
}

fn probes(ctx: &mut Ctx, m: &[Key], keys: &Keys, extra: &[Key]) -> Vec<Key> {
    let mut v: Vec<Key> = extra.to_vec();
    if m.len() <= 24 {
        v.extend(m.iter().cloned());
    } else {
        for _ in 0..24 {
            v.push(ctx.src.pick(m).clone());
        }
    }
    for _ in 0..6 {
        v.push(keys.gen(ctx));
    }
    for e in extra {
        let k = near(ctx, e);
        v.push(k);
    }
    for _ in 0..6 {
        if !m.is_empty() {
            let k = ctx.src.pick(m).clone();
            let k = near(ctx, &k);
            v.push(k);
        }
    }
    v.push(vec![]);
    v.sort();
    v.dedup();
    v
}

fn hx(k: &[u8]) -> String {
    if k.len() > 16 {
        format!("{}..({})", cbor_hex(&k[..6]), k.len())
    } else {
        cbor_hex(k)
    }
}
fn cbor_hex(k: &[u8]) -> String {
    k.iter().map(|b| format!("{b:02x}")).collect()
}
fn hp(p: &[Key]) -> String {
    p.iter().map(|k| hx(k)).collect::<Vec<_>>().join("/")
}

fn shape(t: &T) -> u64 {
    match t {
        T::Empty => 1,
        T::Fork(a, b) => mix(shape(a).rotate_left(7) ^ shape(b).wrapping_mul(31) ^ 2),
        T::Labeled(_, x) => mix(shape(x) ^ 3),
        T::Leaf(_) => 4,
        T::Pruned(_) => 5,
    }
}
fn note(ctx: &mut Ctx, op: &str, t: &T) {
    let s = format!("{:x}", shape(t));
    ctx.sig(&[op, &s]);
}
fn fork_depth(t: &T) -> u32 {
    match t {
        T::Fork(a, b) => 1 + fork_depth(a).max(fork_depth(b)),
        _ => 0,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Must {
    Value,
    Key,
    Nothing,
}

/// How a witness reaches the reader.
fn transit(ctx: &mut Ctx, tag: Tag, w: &HashTree, must: bool) -> Option<(HashTree, bool)> {
    match ctx.src.draw(5) {
        0 | 1 => Some((w.clone(), must)),
        2 => {
            // the canister-side encoder, the verifier-side decoder
            ctx.stat("check.encode_decode");
            let b = ctx.sut(tag, "serialize", || serde_cbor::to_vec(w))?.ok()?;
            let b = if ctx.src.chance(1, 2) { [&[0xd9, 0xd9, 0xf7][..], &b].concat() } else { b };
            match ctx.sut(tag, "from_cbor", || HashTree::from_cbor(&b))? {
                Ok(x) => {
                    if x != *w {
                        ctx.violate(tag, "codec-changed-tree", format!("decoding the encoded tree gives another tree: {w:?} became {x:?}"));
                    }
                    Some((x, must))
                }
                Err(e) => {
                    ctx.violate(tag, "codec-rejects-tree", format!("the encoded tree is not decodable: {e:?}"));
                    None
                }
            }
        }
        3 => {
            // a byzantine replica hides more of the tree
            ctx.stat("fault.byzantine_prune");
            let t = to_ref(w);
            let n = 1 + ctx.src.draw(8);
            let p = t.prune(&mut |_| ctx.src.chance(1, n + 2));
            let b = cbor::self_described(&p.to_val());
            match ctx.sut(tag, "from_cbor", || HashTree::from_cbor(&b))? {
                Ok(x) => Some((x, false)),
                Err(e) => {
                    ctx.violate(tag, "codec-rejects-tree", format!("a specification encoding is not decodable: {e:?}"));
                    None
                }
            }
        }
        _ => {
            // corruption in transit: undetected only if nothing a reader sees has changed
            ctx.stat("fault.corrupt_bytes");
            let mut b = cbor::self_described(&to_ref(w).to_val());
            for _ in 0..1 + ctx.src.draw(2) {
                let i = ctx.src.idx(b.len());
                b[i] ^= 1 << ctx.src.draw(8);
            }
            match ctx.sut(tag, "from_cbor", || HashTree::from_cbor(&b))? {
                Ok(x) if x.digest() == w.digest() => Some((x, false)),
                _ => None,
            }
        }
    }
}

/// A reader who trusts only the root hash looks the probes up in a witness.
fn read(ctx: &mut Ctx, tag: Tag, what: &str, w: &HashTree, root: &Hash, m: &Map, probes: &[Key], must: &dyn Fn(&[u8]) -> Must) {
    ctx.stat(&format!("check.witness_{what}"));
    if ctx.sut(tag, "digest", || w.digest() == *root) == Some(false) || to_ref(w).digest() != *root {
        ctx.violate(tag, "witness-digest", format!("the {what} witness does not reconstruct to the root hash"));
        return;
    }
    let Some((w, must_hold)) = transit(ctx, tag, w, true) else { return };
    if to_ref(&w).digest() != *root {
        ctx.violate(tag, "witness-digest", format!("the {what} witness does not reconstruct to the root hash after transit"));
        return;
    }
    for q in probes {
        let need = if must_hold { must(q) } else { Must::Nothing };
        let Some(r) = ctx.sut(tag, "lookup_path", || match w.lookup_path([q]) {
            LookupResult::Found(v) => (0, v.to_vec()),
            LookupResult::Absent => (1, vec![]),
            LookupResult::Unknown => (2, vec![]),
            LookupResult::Error => (3, vec![]),
        }) else {
            return;
        };
        let Some(s) = ctx.sut(tag, "lookup_subtree", || match w.lookup_subtree([q.as_slice()]) {
            SubtreeLookupResult::Found(t) => (0, Some(t.digest())),
            SubtreeLookupResult::Absent => (1, None),
            SubtreeLookupResult::Unknown => (2, None),
        }) else {
            return;
        };
        let truth = m.get(q);
        let bad = match (&r.0, truth) {
            (0, Some(v)) => r.1 != *v,
            (0, None) => true,
            (1, Some(_)) => true,
            (2, _) => need == Must::Value,
            (3, _) => true,
            _ => false,
        } || match (&s.0, truth) {
            (0, Some(v)) => s.1 != Some(v.root_hash()),
            (0, None) => true,
            (1, Some(_)) => true,
            (2, _) => need != Must::Nothing,
            _ => false,
        };
        if bad {
            let names = ["found", "absent", "unknown", "error"];
            ctx.violate(
                tag,
                &format!("reader-{}", names[r.0]),
                format!(
                    "from the {what} witness a reader concludes {}/{} about key {} (must show {:?}); the map has {:?}",
                    names[r.0], names[s.0], hx(q), need, truth.map(|v| hx(v))
                ),
            );
            return;
        }
    }
}

// ------------------------------------------------------------------------------------------- C14

fn rb_state(ctx: &mut Ctx, tag: Tag, t: &Rb, m: &Map, op: &str, full: bool) {
    let n = m.len();
    if n > 80 && !full && !ctx.src.chance(1, 12) {
        return;
    }
    ctx.stat("check.map_state");
    let Some((h, tree)) = ctx.sut(tag, "root_hash", || (t.root_hash(), t.as_hash_tree())) else { return };
    let rt = to_ref(&tree);
    note(ctx, op, &rt);
    if rt.digest() != h {
        ctx.violate(tag, "root-hash", format!("after {op} root_hash is not the digest of the tree of {n} entries"));
        return;
    }
    let got: Map = rt.leaves().into_iter().map(|(mut p, v)| (p.remove(0), v)).collect();
    if got != *m {
        ctx.violate(tag, "tree-content", format!("after {op} the hash tree has {} entries, the map should have {n}", got.len()));
        return;
    }
    let bound = 4.0 * ((n + 1) as f64).log2() + 2.0;
    if fork_depth(&rt) as f64 > bound {
        ctx.violate(tag, "depth", format!("after {op} depth {} with {n} entries", fork_depth(&rt)));
        return;
    }
    if !full {
        return;
    }
    let Some(items) = ctx.sut(tag, "iter", || t.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>()) else { return };
    let want: Vec<(Key, Vec<u8>)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    if items != want {
        ctx.violate(tag, "iteration", format!("after {op} iteration differs from an ordered map: {} items, expected {}", items.len(), want.len()));
        return;
    }
    let mut seen: Vec<(Key, Vec<u8>)> = vec![];
    {
        let cell = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
        let c2 = cell.clone();
        ctx.sut(tag, "for_each", || t.for_each(move |k, v| c2.borrow_mut().push((k.to_vec(), v.clone()))));
        seen.append(&mut cell.borrow_mut());
    }
    if seen != want {
        ctx.violate(tag, "iteration", format!("after {op} for_each differs from an ordered map"));
        return;
    }
    if ctx.sut(tag, "is_empty", || t.is_empty()).is_some_and(|e| e != m.is_empty()) {
        ctx.violate(tag, "is-empty", format!("is_empty is wrong with {n} entries"));
    }
    for (k, v) in m {
        if ctx.sut(tag, "get", || t.get(k).cloned()) != Some(Some(v.clone())) {
            ctx.violate(tag, "get", format!("after {op} get({}) is wrong", hx(k)));
            return;
        }
    }
}

fn some_key(ctx: &mut Ctx, m: &Map, keys: &Keys) -> Key {
    if !m.is_empty() && ctx.src.chance(2, 3) {
        let i = ctx.src.idx(m.len());
        let k = m.keys().nth(i).unwrap().clone();
        if ctx.src.chance(1, 4) {
            return near(ctx, &k);
        }
        return k;
    }
    keys.gen(ctx)
}

fn rb_witness(ctx: &mut Ctx, tag: Tag, t: &Rb, m: &Map, keys: &Keys) {
    let Some(root) = ctx.sut(tag, "root_hash", || t.root_hash()) else { return };
    let all: Vec<Key> = m.keys().cloned().collect();
    let k = some_key(ctx, m, keys);
    match ctx.src.draw(6) {
        0 | 1 => {
            let Some(w) = ctx.sut(tag, "witness", || t.witness(&k)) else { return };
            let pr = probes(ctx, &all, keys, &[k.clone()]);
            read(ctx, tag, "key", &w, &root, m, &pr, &|q| if q == k { Must::Value } else { Must::Nothing });
        }
        2 | 3 => {
            let k2 = some_key(ctx, m, keys);
            let (a, b) = if k <= k2 { (k, k2) } else { (k2, k) };
            let values = ctx.src.chance(1, 2);
            let Some(w) = ctx.sut(tag, "range", || if values { t.value_range(&a, &b) } else { t.key_range(&a, &b) }) else { return };
            let pr = probes(ctx, &all, keys, &[a.clone(), b.clone()]);
            let need = if values { Must::Value } else { Must::Key };
            let what = if values { "value_range" } else { "key_range" };
            read(ctx, tag, what, &w, &root, m, &pr, &|q| if *q >= *a && *q <= *b { need } else { Must::Nothing });
        }
        4 => {
            let mut p = k;
            let cut = ctx.src.idx(p.len() + 1);
            p.truncate(p.len() - cut);
            let Some(w) = ctx.sut(tag, "keys_with_prefix", || t.keys_with_prefix(&p)) else { return };
            let mut ex = vec![p.clone()];
            for _ in 0..3 {
                let mut x = p.clone();
                x.extend(keys.gen(ctx));
                ex.push(x);
            }
            let pr = probes(ctx, &all, keys, &ex);
            read(ctx, tag, "prefix", &w, &root, m, &pr, &|q| if q.starts_with(&p) { Must::Key } else { Must::Nothing });
        }
        _ => {
            let Some(w) = ctx.sut(tag, "keys", || t.keys()) else { return };
            let pr = probes(ctx, &all, keys, &[k]);
            read(ctx, tag, "keys", &w, &root, m, &pr, &|_| Must::Key);
        }
    }
}

fn rb(ctx: &mut Ctx, tag: Tag) {
    let n = if ctx.thorough { 60 + ctx.src.draw(160) } else { 40 + ctx.src.draw(80) };
    ctx.src.set_budget(n as usize + 1);
    let keys = Keys::new(ctx);
    let mut t: Rb = RbTree::new();
    let mut m: Map = BTreeMap::new();
    let mut saved: Vec<(Rb, Map)> = vec![];
    let mut outer: RbTree<Key, Rb> = RbTree::new();
    let mut om: BTreeMap<Key, Map> = BTreeMap::new();
    while !ctx.stop && ctx.src.step() {
        let last = ctx.src.last();
        let op = ctx.src.kind(&[26, 6, 18, 5, 3, 2, 4, 3, 6, 22, 6, 8, 3], if last { Some(8) } else { None });
        match op {
            0 => {
                let (k, v) = (keys.gen(ctx), value(ctx));
                ctx.log(format!("insert {} {}", hx(&k), hx(&v)));
                ctx.stat("op.insert");
                ctx.sut(tag, "insert", || t.insert(k.clone(), v.clone()));
                m.insert(k.clone(), v.clone());
                if ctx.sut(tag, "get", || t.get(&k).cloned()) != Some(Some(v)) {
                    ctx.violate(tag, "get", format!("get({}) after insert is wrong", hx(&k)));
                }
                rb_state(ctx, tag, &t, &m, "insert", false);
            }
            1 => {
                let k = some_key(ctx, &m, &keys);
                let v = value(ctx);
                ctx.log(format!("modify {}", hx(&k)));
                ctx.stat("op.modify");
                let mut called = 0;
                ctx.sut(tag, "modify", || {
                    t.modify(&k, |x| {
                        called += 1;
                        *x = v.clone()
                    })
                });
                if let Some(x) = m.get_mut(&k) {
                    *x = v;
                }
                if called != m.contains_key(&k) as u32 {
                    ctx.violate(tag, "modify", format!("modify({}) called the update {called} times", hx(&k)));
                }
                rb_state(ctx, tag, &t, &m, "modify", false);
            }
            2 => {
                let k = some_key(ctx, &m, &keys);
                ctx.log(format!("delete {}", hx(&k)));
                ctx.stat("op.delete");
                ctx.sut(tag, "delete", || t.delete(&k));
                m.remove(&k);
                if ctx.sut(tag, "get", || t.get(&k).is_some()) != Some(false) {
                    ctx.violate(tag, "get", format!("get({}) after delete finds it", hx(&k)));
                }
                rb_state(ctx, tag, &t, &m, "delete", false);
            }
            3 => {
                // a message that traps: its writes roll back
                ctx.stat("fault.trap_rollback");
                let keep = t.clone();
                for _ in 0..1 + ctx.src.draw(3) {
                    let k = some_key(ctx, &m, &keys);
                    let del = ctx.src.chance(1, 2);
                    let v = value(ctx);
                    ctx.sut(tag, "insert/delete", || if del { t.delete(&k) } else { t.insert(k, v) });
                }
                t = keep;
                rb_state(ctx, tag, &t, &m, "rollback", false);
            }
            4 => {
                // upgrade: rebuilt from the entries that were saved, in some order
                ctx.stat("fault.upgrade_rebuild");
                let mut e: Vec<(Key, Vec<u8>)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                match ctx.src.draw(3) {
                    0 => {}
                    1 => e.reverse(),
                    _ => {
                        for i in (1..e.len()).rev() {
                            let j = ctx.src.idx(i + 1);
                            e.swap(i, j);
                        }
                    }
                }
                if ctx.src.chance(1, 3) {
                    // the same map over the hashes of the values, and keys of another type
                    let h: Vec<(Key, H)> = e.iter().map(|(k, v)| (k.clone(), crate::refimpl::hashes::sha(v))).collect();
                    let same = ctx.sut(tag, "hash values", || {
                        let a: RbTree<Box<[u8]>, Hash> = h.iter().map(|(k, v)| (k.clone().into_boxed_slice(), *v)).collect();
                        let b: Rb = h.iter().map(|(k, v)| (k.clone(), v.to_vec())).collect();
                        let (x, y) = (to_ref(&a.as_hash_tree()), to_ref(&b.as_hash_tree()));
                        let gets = h.iter().all(|(k, v)| a.get(k) == Some(v) && to_ref(&a.witness(k)) == to_ref(&b.witness(k)));
                        a.root_hash() == b.root_hash() && x == y && x.digest() == a.root_hash() && gets
                    });
                    if same == Some(false) {
                        ctx.violate(tag, "hash-values", "a map of hashes differs from the map of the same bytes".into());
                    }
                }
                let old = t.clone();
                if let Some(x) = ctx.sut(tag, "from_iter", || e.into_iter().collect::<Rb>()) {
                    t = x;
                }
                if ctx.sut(tag, "eq", || old == t && old.cmp(&t) == std::cmp::Ordering::Equal) != Some(true) {
                    ctx.violate(tag, "eq", "maps with the same entries compare different".into());
                }
                rb_state(ctx, tag, &t, &m, "rebuild", true);
            }
            5 => {
                ctx.stat("op.snapshot");
                saved.push((t.clone(), m.clone()));
                if saved.len() > 4 {
                    saved.remove(0);
                }
            }
            6 => {
                // bulk load or unload, in runs that stress one side of the tree
                let big = ctx.src.chance(1, 8);
                let c = 1 + ctx.src.draw(if big { 400 } else { 24 });
                let order = ctx.src.draw(3);
                let del = ctx.src.chance(1, 3);
                let base = ctx.src.draw(200);
                let pre = *ctx.src.pick(&[0usize, 0, 0, 1, 30, 62, 100, 254]);
                let vals = ctx.src.draw(3);
                ctx.log(format!("bulk {} of {c} from {base} order {order}", if del { "delete" } else { "insert" }));
                ctx.stat(if del { "op.bulk_delete" } else { "op.bulk_insert" });
                for i in 0..c {
                    let j = match order {
                        0 => base + i,
                        1 => base + c - i,
                        _ => base + (i * 37) % c.max(1),
                    };
                    let k = long_key(pre, j);
                    let v = match vals {
                        0 => k.clone(),
                        1 => vec![],
                        _ => crate::refimpl::hashes::sha(&k).to_vec(),
                    };
                    ctx.sut(tag, "bulk", || if del { t.delete(&k) } else { t.insert(k.clone(), v.clone()) });
                    if del {
                        m.remove(&k);
                    } else {
                        m.insert(k, v);
                    }
                }
                rb_state(ctx, tag, &t, &m, "bulk", true);
            }
            7 => {
                // delete down to nothing or nearly so
                ctx.stat("op.drain");
                let n = ctx.src.idx(m.len() + 1);
                for _ in 0..n {
                    if m.is_empty() {
                        break;
                    }
                    let i = ctx.src.idx(m.len());
                    let k = m.keys().nth(i).unwrap().clone();
                    ctx.sut(tag, "delete", || t.delete(&k));
                    m.remove(&k);
                    rb_state(ctx, tag, &t, &m, "drain", false);
                    if ctx.stop {
                        break;
                    }
                }
                rb_state(ctx, tag, &t, &m, "drain", true);
            }
            8 => {
                ctx.stat("op.full_check");
                rb_state(ctx, tag, &t, &m, "check", true);
                if ctx.src.chance(1, 2) {
                    for _ in 0..4 {
                        rb_witness(ctx, tag, &t, &m, &keys);
                    }
                }
            }
            9 => rb_witness(ctx, tag, &t, &m, &keys),
            10 => {
                if let Some((st, sm)) = (!saved.is_empty()).then(|| ctx.src.pick(&saved).clone()) {
                    // evidence of an older state stays true about that state
                    ctx.stat("fault.stale_state");
                    rb_witness(ctx, tag, &st, &sm, &keys);
                    let want = (m == sm, m.cmp(&sm), m.partial_cmp(&sm));
                    if ctx.sut(tag, "cmp", || (t == st, t.cmp(&st), t.partial_cmp(&st))).is_some_and(|g| g != want) {
                        ctx.violate(tag, "cmp", "comparison of two maps differs from ordered maps".into());
                    }
                    if ctx.src.chance(1, 4) {
                        // restart from the snapshot
                        ctx.stat("fault.restore_snapshot");
                        t = st;
                        m = sm;
                    }
                }
            }
            11 => {
                // a map of maps
                ctx.stat("op.nested_map");
                let k = keys.gen(ctx);
                match ctx.src.draw(4) {
                    0 | 1 => {
                        let (k2, v) = (keys.gen(ctx), value(ctx));
                        if !om.contains_key(&k) {
                            ctx.sut(tag, "insert", || outer.insert(k.clone(), RbTree::new()));
                        }
                        ctx.sut(tag, "modify", || outer.modify(&k, |x| x.insert(k2.clone(), v.clone())));
                        om.entry(k).or_default().insert(k2, v);
                    }
                    2 => {
                        let k2 = om.get(&k).and_then(|x| x.keys().next().cloned()).unwrap_or_default();
                        ctx.sut(tag, "modify", || outer.modify(&k, |x| x.delete(&k2)));
                        if let Some(x) = om.get_mut(&k) {
                            x.remove(&k2);
                        }
                    }
                    _ => {
                        if ctx.src.chance(1, 3) {
                            ctx.sut(tag, "delete", || outer.delete(&k));
                            om.remove(&k);
                        }
                    }
                }
                let Some((h, tr)) = ctx.sut(tag, "root_hash", || (outer.root_hash(), outer.as_hash_tree())) else { continue };
                if to_ref(&tr).digest() != h {
                    ctx.violate(tag, "root-hash", "root_hash of a map of maps is not the digest of its tree".into());
                    continue;
                }
                let ok: Vec<Key> = om.keys().cloned().collect();
                let a = if ok.is_empty() || ctx.src.chance(1, 4) { keys.gen(ctx) } else { ctx.src.pick(&ok).clone() };
                let b = some_key(ctx, om.get(&a).unwrap_or(&Map::new()), &keys);
                let Some(w) = ctx.sut(tag, "nested_witness", || outer.nested_witness(&a, |x| x.witness(&b))) else { continue };
                ctx.stat("check.nested_witness");
                let rt = to_ref(&w);
                if rt.digest() != h || w.digest() != h {
                    ctx.violate(tag, "witness-digest", "a nested witness does not reconstruct to the root hash".into());
                    continue;
                }
                let got = ctx.sut(tag, "lookup_path", || format!("{:?}", w.lookup_path([&a, &b])));
                let want = match om.get(&a).and_then(|x| x.get(&b)) {
                    Some(v) => format!("{:?}", LookupResult::Found(v)),
                    None => format!("{:?}", LookupResult::Absent),
                };
                if got.is_some_and(|g| g != want) {
                    ctx.violate(tag, "nested-witness", format!("a nested witness shows the wrong result for {}/{}", hx(&a), hx(&b)));
                }
            }
            _ => {
                // gets of keys that may or may not be there
                ctx.stat("op.get");
                for _ in 0..6 {
                    let k = some_key(ctx, &m, &keys);
                    if ctx.sut(tag, "get", || t.get(&k).cloned()).is_some_and(|g| g != m.get(&k).cloned()) {
                        ctx.violate(tag, "get", format!("get({}) differs from an ordered map", hx(&k)));
                    }
                }
                ctx.sut(tag, "debug", || format!("{t:?}").len());
            }
        }
    }
}

// ------------------------------------------------------------------------------------------- C15

type PathMap = BTreeMap<Vec<Key>, Vec<u8>>;
type Nest = NestedTree<Key, Vec<u8>>;

fn model_insert(m: &mut PathMap, p: &[Key], v: Vec<u8>) {
    // a value at a proper prefix gives way, and so does everything below the path
    m.retain(|q, _| !(p.starts_with(q) || q.starts_with(p)));
    m.insert(p.to_vec(), v);
}
fn model_delete(m: &mut PathMap, p: &[Key]) {
    m.retain(|q, _| !q.starts_with(p));
}

fn nested_state(ctx: &mut Ctx, tag: Tag, t: &Nest, m: &PathMap, op: &str) -> Option<T> {
    ctx.stat("check.nested_state");
    let (h, tree) = ctx.sut(tag, "root_hash", || (t.root_hash(), t.as_hash_tree()))?;
    let rt = to_ref(&tree);
    note(ctx, op, &rt);
    if rt.digest() != h || tree.digest() != h {
        ctx.violate(tag, "root-hash", format!("after {op} root_hash is not the digest of the tree"));
        return None;
    }
    let got: PathMap = rt.leaves().into_iter().collect();
    if got != *m {
        ctx.violate(tag, "tree-content", format!("after {op} the tree has {:?}, expected {:?}", got.keys().map(|k| hp(k)).collect::<Vec<_>>(), m.keys().map(|k| hp(k)).collect::<Vec<_>>()));
        return None;
    }
    // nothing else is left over: no empty branches
    fn stray(t: &T, top: bool) -> bool {
        match t {
            T::Empty => !top,
            T::Fork(a, b) => stray(a, false) || stray(b, false),
            T::Labeled(_, x) => stray(x, false),
            _ => false,
        }
    }
    if stray(&rt, true) {
        ctx.violate(tag, "empty-branch", format!("after {op} an empty branch is left in the tree"));
        return None;
    }
    let mut lp = ctx.sut(tag, "list_paths", || tree.list_paths())?;
    lp.sort();
    let want: Vec<Vec<Label>> = m.keys().map(|p| p.iter().map(|k| Label::from(k.as_slice())).collect()).collect();
    if lp != want {
        ctx.violate(tag, "list-paths", format!("after {op} list_paths differs"));
    }
    Some(rt)
}

fn some_path(ctx: &mut Ctx, m: &PathMap, pool: &[Key]) -> Vec<Key> {
    if !m.is_empty() && ctx.src.chance(3, 4) {
        let i = ctx.src.idx(m.len());
        let mut p = m.keys().nth(i).unwrap().clone();
        match ctx.src.draw(8) {
            0 | 1 | 2 => return p,
            3 => {
                let n = ctx.src.idx(p.len() + 1);
                p.truncate(n);
            }
            4 => {
                let k = ctx.src.pick(pool).clone();
                p.push(k);
            }
            5 => {
                if !p.is_empty() {
                    let i = ctx.src.idx(p.len());
                    p[i] = ctx.src.pick(pool).clone();
                }
            }
            6 => {
                if !p.is_empty() {
                    let i = ctx.src.idx(p.len());
                    p[i] = near(ctx, &p[i].clone());
                }
            }
            _ => {
                if let Some(x) = p.last_mut() {
                    *x = ctx.src.pick(pool).clone()
                }
            }
        }
        return p;
    }
    let n = 1 + ctx.src.draw(4);
    (0..n).map(|_| ctx.src.pick(pool).clone()).collect()
}

/// What a reader may conclude about a path, and (with `must`) has to.
fn read_path(ctx: &mut Ctx, tag: Tag, what: &str, w: &HashTree, m: &PathMap, p: &[Key], must: bool) {
    let Some(r) = ctx.sut(tag, "lookup_path", || match w.lookup_path(p) {
        LookupResult::Found(v) => (0, v.to_vec()),
        LookupResult::Absent => (1, vec![]),
        LookupResult::Unknown => (2, vec![]),
        LookupResult::Error => (3, vec![]),
    }) else {
        return;
    };
    let Some(s) = ctx.sut(tag, "lookup_subtree", || match w.lookup_subtree(p) {
        SubtreeLookupResult::Found(t) => (0, Some(t)),
        SubtreeLookupResult::Absent => (1, None),
        SubtreeLookupResult::Unknown => (2, None),
    }) else {
        return;
    };
    let truth = m.get(p);
    let inner = truth.is_none() && (p.is_empty() || m.keys().any(|q| q.starts_with(p)));
    let names = ["found", "absent", "unknown", "error"];
    let bad = match r.0 {
        0 => truth != Some(&r.1),
        // at an empty map there is nothing
        1 => truth.is_some() || (inner && !m.is_empty()),
        2 => must && !inner,
        _ => !inner,
    } || match s.0 {
        0 => truth.is_none() && !inner,
        1 => truth.is_some() || inner,
        _ => must,
    };
    let mut bad = bad;
    if let (0, Some(t)) = (s.0, &s.1) {
        // the subtree is the true one
        let mut f: Vec<Label> = vec![];
        let _ = &mut f;
        let rt = to_ref(t);
        for (q, v) in rt.leaves() {
            let full: Vec<Key> = p.iter().cloned().chain(q).collect();
            if m.get(&full) != Some(&v) {
                bad = true;
            }
        }
    }
    if bad {
        ctx.violate(
            tag,
            &format!("reader-{}-{}", names[r.0], names[s.0]),
            format!("from the {what} a reader concludes {}/{} about {} (must know: {must}); the tree has {:?}, inner {inner}", names[r.0], names[s.0], hp(p), truth.map(|v| hx(v))),
        );
    }
}

fn nested(ctx: &mut Ctx, tag: Tag) {
    let n = if ctx.thorough { 60 + ctx.src.draw(140) } else { 40 + ctx.src.draw(70) };
    ctx.src.set_budget(n as usize + 1);
    let keys = Keys::new(ctx);
    let np = 2 + ctx.src.draw(if ctx.thorough { 24 } else { 10 });
    let mut pool: Vec<Key> = (0..np).map(|_| keys.gen(ctx)).collect();
    pool.push(b"<$>".to_vec());
    pool.push(vec![]);
    let mut t: Nest = NestedTree::default();
    let mut m: PathMap = BTreeMap::new();
    let mut saved: Vec<(Nest, PathMap)> = vec![];
    while !ctx.stop && ctx.src.step() {
        let last = ctx.src.last();
        let op = ctx.src.kind(&[30, 18, 2, 4, 3, 4, 24, 12, 6, 4], if last { Some(9) } else { None });
        match op {
            0 => {
                let p = if ctx.src.chance(1, 40) { vec![] } else { some_path(ctx, &m, &pool) };
                let v = value(ctx);
                ctx.log(format!("insert {} {}", hp(&p), hx(&v)));
                ctx.stat("op.insert");
                ctx.sut(tag, "insert", || t.insert(&p, v.clone()));
                model_insert(&mut m, &p, v);
                nested_state(ctx, tag, &t, &m, "insert");
            }
            1 => {
                let p = some_path(ctx, &m, &pool);
                if p.is_empty() && !ctx.src.chance(1, 8) {
                    continue;
                }
                ctx.log(format!("delete {}", hp(&p)));
                ctx.stat(if m.contains_key(&p) { "op.delete_leaf" } else if m.keys().any(|q| q.starts_with(&p)) { "op.delete_subtree" } else { "op.delete_absent" });
                ctx.sut(tag, "delete", || t.delete(&p));
                model_delete(&mut m, &p);
                nested_state(ctx, tag, &t, &m, "delete");
            }
            2 => {
                ctx.log("clear".into());
                ctx.stat("op.clear");
                ctx.sut(tag, "clear", || t.clear());
                m.clear();
                nested_state(ctx, tag, &t, &m, "clear");
            }
            3 => {
                ctx.stat("fault.trap_rollback");
                let keep = t.clone();
                for _ in 0..1 + ctx.src.draw(3) {
                    let p = some_path(ctx, &m, &pool);
                    let del = ctx.src.chance(1, 2);
                    ctx.sut(tag, "insert/delete", || if del { t.delete(&p) } else { t.insert(&p, vec![7]) });
                }
                t = keep;
                nested_state(ctx, tag, &t, &m, "rollback");
            }
            4 => {
                ctx.stat("fault.upgrade_rebuild");
                let mut e: Vec<(Vec<Key>, Vec<u8>)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                for i in (1..e.len()).rev() {
                    let j = ctx.src.idx(i + 1);
                    e.swap(i, j);
                }
                t = NestedTree::default();
                ctx.sut(tag, "insert", || {
                    for (p, v) in e {
                        t.insert(&p, v)
                    }
                });
                nested_state(ctx, tag, &t, &m, "rebuild");
            }
            5 => {
                ctx.stat("op.query");
                for _ in 0..4 {
                    let p = some_path(ctx, &m, &pool);
                    let want = (m.get(&p).cloned(), m.contains_key(&p), p.is_empty() || m.keys().any(|q| q.starts_with(&p)));
                    if let Some(g) = ctx.sut(tag, "query", || (t.get(&p).cloned(), t.contains_leaf(&p), t.contains_path(&p))) {
                        if g != want {
                            ctx.violate(tag, "query", format!("get/contains_leaf/contains_path of {} give {:?}, expected {:?}", hp(&p), (g.0.is_some(), g.1, g.2), (want.0.is_some(), want.1, want.2)));
                        }
                    }
                }
                ctx.sut(tag, "debug", || format!("{t:?}").len());
            }
            6 | 9 => {
                for _ in 0..1 + ctx.src.draw(4) {
                    let p = some_path(ctx, &m, &pool);
                    nested_witness(ctx, tag, &t, &m, &p, &pool);
                }
            }
            7 => {
                // several witnesses of one state merged, as the HTTP certification tree does
                let k = 2 + ctx.src.draw(3);
                let ps: Vec<Vec<Key>> = (0..k).map(|_| some_path(ctx, &m, &pool)).collect();
                let Some(root) = ctx.sut(tag, "root_hash", || t.root_hash()) else { continue };
                ctx.log(format!("merged witness of {}", ps.iter().map(|p| hp(p)).collect::<Vec<_>>().join(" , ")));
                let Some(w) = ctx.sut(tag, "merge", || {
                    let mut w = t.witness(&ps[0]);
                    for p in &ps[1..] {
                        w = merge_hash_trees(w, t.witness(p));
                    }
                    w
                }) else {
                    continue;
                };
                ctx.stat("check.merged_witness");
                if w.digest() != root || to_ref(&w).digest() != root {
                    ctx.violate(tag, "merge-digest", "merging witnesses of one state changed the root hash".into());
                    continue;
                }
                let Some((w, must)) = transit(ctx, tag, &w, true) else { continue };
                for p in &ps {
                    read_path(ctx, tag, "merged witness", &w, &m, p, must);
                }
                for _ in 0..4 {
                    let q = some_path(ctx, &m, &pool);
                    read_path(ctx, tag, "merged witness", &w, &m, &q, false);
                }
            }
            _ => {
                ctx.stat("op.snapshot");
                if !saved.is_empty() && ctx.src.chance(1, 2) {
                    let (st, sm) = ctx.src.pick(&saved).clone();
                    ctx.stat("fault.stale_state");
                    let p = some_path(ctx, &sm, &pool);
                    nested_witness(ctx, tag, &st, &sm, &p, &pool);
                } else {
                    saved.push((t.clone(), m.clone()));
                    if saved.len() > 3 {
                        saved.remove(0);
                    }
                }
            }
        }
    }
}

fn nested_witness(ctx: &mut Ctx, tag: Tag, t: &Nest, m: &PathMap, p: &[Key], pool: &[Key]) {
    ctx.log(format!("witness {}", hp(p)));
    ctx.stat("check.nested_witness");
    let Some((root, w)) = ctx.sut(tag, "witness", || (t.root_hash(), t.witness(p))) else { return };
    if w.digest() != root || to_ref(&w).digest() != root {
        ctx.violate(tag, "witness-digest", format!("the witness of {} does not reconstruct to the root hash", hp(p)));
        return;
    }
    let Some((w, must)) = transit(ctx, tag, &w, true) else { return };
    read_path(ctx, tag, "witness", &w, m, p, must);
    for _ in 0..6 {
        let q = some_path(ctx, m, pool);
        read_path(ctx, tag, "witness", &w, m, &q, false);
        // everything below a witnessed path is shown
        if must && q.starts_with(p) {
            read_path(ctx, tag, "witness", &w, m, &q, true);
        }
    }
}

// ------------------------------------------------------------------------------------------- C16

/// A well-ordered tree of arbitrary shape, with empty nodes anywhere.
fn gen_tree(ctx: &mut Ctx, keys: &Keys, depth: u32, budget: &mut i64) -> T {
    *budget -= 1;
    if depth == 0 || *budget < 0 {
        return T::Leaf(value(ctx));
    }
    match ctx.src.draw(10) {
        0 => return T::Empty,
        1 | 2 => return T::Leaf(value(ctx)),
        _ => {}
    }
    let n = 1 + ctx.src.draw(6);
    let mut ks: Vec<Key> = (0..n).map(|_| keys.gen(ctx)).collect();
    ks.sort();
    ks.dedup();
    let mut items: Vec<T> = vec![];
    for k in ks {
        while ctx.src.chance(1, 6) {
            items.push(T::Empty);
        }
        let sub = gen_tree(ctx, keys, depth - 1, budget);
        items.push(lab(&k, sub));
    }
    while ctx.src.chance(1, 6) {
        items.push(T::Empty);
    }
    // any binary shape over the sequence
    while items.len() > 1 {
        let i = ctx.src.idx(items.len() - 1);
        let b = items.remove(i + 1);
        let a = items.remove(i);
        items.insert(i, fork(a, b));
    }
    items.pop().unwrap()
}

fn to_real(t: &T) -> HashTree {
    use ic_certification::hash_tree as ht;
    match t {
        T::Empty => ht::empty(),
        T::Fork(a, b) => ht::fork(to_real(a), to_real(b)),
        T::Labeled(l, x) => ht::label(Label::from(l.as_slice()), to_real(x)),
        T::Leaf(v) => ht::leaf(v.clone()),
        T::Pruned(h) => ht::pruned(*h),
    }
}

fn all_paths(t: &T) -> Vec<Vec<Key>> {
    fn go(t: &T, cur: &mut Vec<Key>, out: &mut Vec<Vec<Key>>) {
        match t {
            T::Fork(a, b) => {
                go(a, cur, out);
                go(b, cur, out)
            }
            T::Labeled(l, x) => {
                cur.push(l.clone());
                out.push(cur.clone());
                go(x, cur, out);
                cur.pop();
            }
            _ => {}
        }
    }
    let mut o = vec![vec![]];
    go(t, &mut vec![], &mut o);
    o
}

fn query_paths(ctx: &mut Ctx, t: &T, keys: &Keys) -> Vec<Vec<Key>> {
    let all = all_paths(t);
    let mut v: Vec<Vec<Key>> = vec![vec![]];
    for _ in 0..10 {
        let mut p = ctx.src.pick(&all).clone();
        match ctx.src.draw(6) {
            0 | 1 => {}
            2 => {
                if let Some(x) = p.last_mut() {
                    *x = near(ctx, &x.clone());
                }
            }
            3 => p.push(keys.gen(ctx)),
            4 => {
                if !p.is_empty() {
                    let i = ctx.src.idx(p.len());
                    p[i] = near(ctx, &p[i].clone());
                }
            }
            _ => {
                if let Some(x) = p.last_mut() {
                    *x = keys.gen(ctx);
                }
            }
        }
        v.push(p);
    }
    v
}

fn check_lookup<S: AsRef<[u8]> + Clone + PartialEq + std::fmt::Debug>(
    ctx: &mut Ctx,
    tag: Tag,
    what: &str,
    real: &GTree<S>,
    rt: &T,
    full: &T,
    p: &[Key],
) {
    let Some((r, rv)) = ctx.sut(tag, "lookup_path", || match real.lookup_path(p) {
        LookupResult::Found(v) => ("found", v.to_vec()),
        LookupResult::Absent => ("absent", vec![]),
        LookupResult::Unknown => ("unknown", vec![]),
        LookupResult::Error => ("error", vec![]),
    }) else {
        return;
    };
    let Some((s, sd)) = ctx.sut(tag, "lookup_subtree", || match real.lookup_subtree(p) {
        ic_certification::hash_tree::SubtreeLookupResult::Found(t) => ("found", Some(t.digest())),
        ic_certification::hash_tree::SubtreeLookupResult::Absent => ("absent", None),
        ic_certification::hash_tree::SubtreeLookupResult::Unknown => ("unknown", None),
    }) else {
        return;
    };
    ctx.stat("check.lookup");
    let truth = full.lookup(p);
    let seen = rt.lookup(p);
    // truth: what the full tree says
    let lie = match (r, &truth) {
        ("found", Look::Found(T::Leaf(v))) => *v != rv,
        ("found", _) => true,
        ("absent", Look::Found(T::Empty)) | ("absent", Look::Absent) => false,
        ("absent", _) => true,
        ("error", Look::Found(T::Fork(..) | T::Labeled(..))) => false,
        ("error", _) => true,
        _ => false,
    } || match (s, &truth) {
        ("found", Look::Found(x)) => sd != Some(x.digest()),
        ("found", _) => true,
        ("absent", Look::Absent) => false,
        ("absent", _) => true,
        _ => false,
    };
    if lie {
        ctx.violate(tag, &format!("lookup-lies-{r}-{s}"), format!("{what}: lookup of {} says {r}/{s}; the full tree says {truth:?}; tree {rt:?}", hp(p)));
        return;
    }
    // exactness: unknown only where the pruned tree leaves it open
    let want_p = match &seen {
        Look::Found(T::Leaf(_)) => "found",
        Look::Found(T::Pruned(_)) | Look::Unknown => "unknown",
        Look::Found(T::Empty) | Look::Absent => "absent",
        Look::Found(_) => "error",
    };
    let want_s = match &seen {
        Look::Found(_) => "found",
        Look::Unknown => "unknown",
        Look::Absent => "absent",
    };
    if r != want_p || s != want_s {
        ctx.violate(tag, &format!("lookup-inexact-{r}-{s}"), format!("{what}: lookup of {} says {r}/{s}, what is revealed gives {want_p}/{want_s}; tree {rt:?}", hp(p)));
    }
    ctx.sig(&["lookup", what, r, s, want_p, want_s, &p.len().to_string()]);
}

/// One change that a reader must notice in the digest.
fn tamper(ctx: &mut Ctx, t: &T) -> Option<T> {
    let n = t.size() as u64;
    let at = ctx.src.draw(n);
    let how = ctx.src.draw(6);
    let byte = ctx.src.draw(256) as u8;
    fn go(t: &T, i: &mut u64, how: u64, byte: u8) -> T {
        let here = *i == 0;
        *i = i.wrapping_sub(1);
        if here {
            return match t {
                T::Empty => T::Leaf(vec![]),
                T::Leaf(v) => {
                    let mut v = v.clone();
                    match how {
                        0 => v.push(byte),
                        1 if !v.is_empty() => {
                            v.pop();
                        }
                        2 if v.is_empty() => return T::Empty,
                        _ => match v.last_mut() {
                            Some(x) => *x ^= byte | 1,
                            None => v.push(byte),
                        },
                    }
                    T::Leaf(v)
                }
                T::Labeled(l, x) => {
                    let mut l = l.clone();
                    match how {
                        0 => return (**x).clone(),
                        1 => l.push(byte),
                        2 if !l.is_empty() => {
                            l.pop();
                        }
                        3 => return T::Labeled(l.clone(), Box::new(T::Labeled(l, x.clone()))),
                        _ => match l.first_mut() {
                            Some(x) => *x ^= byte | 1,
                            None => l.push(byte),
                        },
                    }
                    T::Labeled(l, x.clone())
                }
                T::Fork(a, b) => match how {
                    0 => (**a).clone(),
                    1 => (**b).clone(),
                    2 => T::Fork(Box::new(T::Empty), Box::new(t.clone())),
                    _ => T::Fork(b.clone(), a.clone()),
                },
                T::Pruned(h) => {
                    let mut h = *h;
                    h[(byte % 32) as usize] ^= 1 << (how % 8);
                    T::Pruned(h)
                }
            };
        }
        match t {
            T::Fork(a, b) => {
                let a = go(a, i, how, byte);
                let b = go(b, i, how, byte);
                fork(a, b)
            }
            T::Labeled(l, x) => lab(l, go(x, i, how, byte)),
            t => t.clone(),
        }
    }
    let mut i = at;
    let r = go(t, &mut i, how, byte);
    (r != *t).then_some(r)
}

fn trees(ctx: &mut Ctx, tag: Tag) {
    let n = if ctx.thorough { 16 + ctx.src.draw(40) } else { 10 + ctx.src.draw(20) };
    ctx.src.set_budget(n as usize + 1);
    let keys = Keys::new(ctx);
    let mut full = T::Empty;
    let mut cur = T::Empty;
    let mut real = to_real(&cur);
    while !ctx.stop && ctx.src.step() {
        let op = ctx.src.kind(&[10, 14, 26, 8, 10, 6, 4], None);
        match op {
            0 => {
                let mut budget = if ctx.src.chance(1, 10) { 300 } else { 40 };
                full = loop {
                    let d = 1 + ctx.src.draw(4) as u32;
                    let t = gen_tree(ctx, &keys, d, &mut budget);
                    if !matches!(t, T::Leaf(_)) || ctx.src.chance(1, 4) {
                        break t;
                    }
                };
                cur = full.clone();
                real = to_real(&cur);
                ctx.stat("op.new_tree");
                note(ctx, "tree", &cur);
                ctx.log(format!("tree {:016x}", hash_str(&format!("{full:?}"))));
                let Some((d, mut lp)) = ctx.sut(tag, "digest", || (real.digest(), real.list_paths())) else { continue };
                if d != full.digest() {
                    ctx.violate(tag, "digest", format!("digest differs from the specification for {full:?}"));
                }
                let want: Vec<Vec<Label>> = full.leaves().into_iter().map(|(p, _)| p.into_iter().map(Label::from).collect()).collect();
                lp.sort();
                let mut w2 = want;
                w2.sort();
                if lp != w2 {
                    ctx.violate(tag, "list-paths", format!("list_paths differs for {full:?}"));
                }
            }
            1 => {
                // a replica prunes (more of) the tree
                ctx.stat("fault.prune");
                let n = 2 + ctx.src.draw(10);
                let before = cur.digest();
                cur = if ctx.src.chance(1, 3) {
                    let ps = query_paths(ctx, &full, &keys);
                    let k = 1 + ctx.src.idx(3);
                    let deep = ctx.src.chance(1, 2);
                    full.prove(&ps[1..1 + k], deep)
                } else {
                    cur.prune(&mut |_| ctx.src.chance(1, n))
                };
                real = to_real(&cur);
                note(ctx, "prune", &cur);
                if ctx.sut(tag, "digest", || real.digest()) != Some(before) {
                    ctx.violate(tag, "prune-digest", format!("pruning changed the root hash of {cur:?}"));
                }
            }
            2 => {
                for p in query_paths(ctx, &full, &keys) {
                    check_lookup(ctx, tag, "owned", &real, &cur, &full, &p);
                }
            }
            3 => {
                // canister-side encoder to verifier-side decoder
                ctx.stat("check.encode_decode");
                let Some(Ok(mut b)) = ctx.sut(tag, "serialize", || serde_cbor::to_vec(&real)) else { continue };
                if b != cbor::to_vec(&cur.to_val()) {
                    ctx.violate(tag, "encoding", format!("the encoding of {cur:?} is not the specification's"));
                }
                if ctx.src.chance(1, 2) {
                    b = [&[0xd9, 0xd9, 0xf7][..], &b].concat();
                }
                match ctx.sut(tag, "from_cbor", || HashTree::from_cbor(&b)) {
                    Some(Ok(x)) if x == real => {
                        for p in query_paths(ctx, &full, &keys) {
                            check_lookup(ctx, tag, "decoded", &x, &cur, &full, &p);
                        }
                    }
                    Some(x) => ctx.violate(tag, "codec", format!("encoding and decoding gives {x:?} for {cur:?}")),
                    None => {}
                }
            }
            4 => {
                // the borrowing decoders of serde
                ctx.stat("check.serde_decode");
                let b = if ctx.src.chance(1, 2) { cbor::to_vec(&cur.to_val()) } else { cbor::self_described(&cur.to_val()) };
                match ctx.src.draw(3) {
                    0 => match ctx.sut(tag, "serde", || serde_cbor::from_slice::<GTree<Vec<u8>>>(&b)) {
                        Some(Ok(x)) if to_ref_any(&x) == cur => {
                            for p in query_paths(ctx, &full, &keys) {
                                check_lookup(ctx, tag, "serde-owned", &x, &cur, &full, &p);
                            }
                        }
                        Some(x) => ctx.violate(tag, "serde", format!("serde gives {x:?} for {cur:?}")),
                        None => {}
                    },
                    1 => match ctx.sut(tag, "serde", || serde_cbor::from_slice::<GTree<&[u8]>>(&b)) {
                        Some(Ok(x)) if to_ref_any(&x) == cur => {
                            for p in query_paths(ctx, &full, &keys) {
                                check_lookup(ctx, tag, "serde-slice", &x, &cur, &full, &p);
                            }
                        }
                        Some(x) => ctx.violate(tag, "serde", format!("serde (slices) gives {x:?} for {cur:?}")),
                        None => {}
                    },
                    _ => match ctx.sut(tag, "serde", || serde_cbor::from_slice::<GTree<std::borrow::Cow<[u8]>>>(&b)) {
                        Some(Ok(x)) if to_ref_any(&x) == cur => {
                            for p in query_paths(ctx, &full, &keys) {
                                check_lookup(ctx, tag, "serde-cow", &x, &cur, &full, &p);
                            }
                        }
                        Some(x) => ctx.violate(tag, "serde", format!("serde (cow) gives {x:?} for {cur:?}")),
                        None => {}
                    },
                }
            }
            5 => {
                // tampering never keeps the root hash
                if let Some(x) = tamper(ctx, &cur) {
                    ctx.stat("fault.tamper");
                    let same = x.digest() == cur.digest();
                    let r = to_real(&x);
                    if ctx.sut(tag, "digest", || r.digest() == real.digest()).is_some_and(|s| s != same) {
                        ctx.violate(tag, "digest-collision", format!("{x:?} and {cur:?} have the same root hash"));
                    }
                }
            }
            _ => {
                // flipped bits in transit: a different tree has a different root hash
                ctx.stat("fault.corrupt_bytes");
                let mut b = cbor::to_vec(&cur.to_val());
                let i = ctx.src.idx(b.len());
                b[i] ^= 1 << ctx.src.draw(8);
                if let Some(Ok(x)) = ctx.sut(tag, "from_cbor", || HashTree::from_cbor(&b)) {
                    if x.digest() == full.digest() && to_ref(&x).digest() != full.digest() {
                        ctx.violate(tag, "digest-collision", format!("a corrupted encoding decodes to another tree with the same root hash: {x:?}"));
                    }
                }
            }
        }
    }
}

fn to_ref_any<S: AsRef<[u8]> + Clone>(t: &GTree<S>) -> T {
    fn go<S: AsRef<[u8]>>(n: &HashTreeNode<S>) -> T {
        match n {
            HashTreeNode::Empty() => T::Empty,
            HashTreeNode::Fork(x) => fork(go(&x.0), go(&x.1)),
            HashTreeNode::Labeled(l, x) => lab(l.as_bytes(), go(x)),
            HashTreeNode::Leaf(v) => T::Leaf(v.as_ref().to_vec()),
            HashTreeNode::Pruned(h) => T::Pruned(*h),
        }
    }
    go(t.as_ref())
}

// ------------------------------------------------------------------------------------------- C20

/// Certificates between the canister-side encoder, the reference codec and the verifier's decoder.
fn wire(ctx: &mut Ctx, tag: Tag) {
    let n = 8 + ctx.src.draw(16);
    ctx.src.set_budget(n as usize + 1);
    let keys = Keys::new(ctx);
    while !ctx.stop && ctx.src.step() {
        let mut budget = 40;
        let d = 1 + ctx.src.draw(4) as u32;
        let full = gen_tree(ctx, &keys, d, &mut budget);
        let t = if ctx.src.chance(1, 2) { full.prune(&mut |_| ctx.src.chance(1, 6)) } else { full };
        let sig = value(ctx);
        let delegation = ctx.src.chance(1, 2).then(|| (keys.gen(ctx), value(ctx)));
        let real = Certificate {
            tree: to_real(&t),
            signature: sig.clone(),
            delegation: delegation.clone().map(|(s, c)| Delegation { subnet_id: s, certificate: c }),
        };
        ctx.stat("check.certificate_wire");
        note(ctx, "certificate", &t);
        let Some(Ok(b)) = ctx.sut(tag, "serialize", || serde_cbor::to_vec(&real)) else {
            ctx.violate(tag, "certificate-encode", "a certificate cannot be serialised".into());
            continue;
        };
        let mut pairs = vec![("tree", t.to_val()), ("signature", Val::B(sig.clone()))];
        if let Some((s, c)) = &delegation {
            pairs.push(("delegation", Val::M(vec![(Val::T("subnet_id".into()), Val::B(s.clone())), (Val::T("certificate".into()), Val::B(c.clone()))])));
        }
        // map order is free
        for i in (1..pairs.len()).rev() {
            let j = ctx.src.idx(i + 1);
            pairs.swap(i, j);
        }
        let spec = Val::M(pairs.into_iter().map(|(k, v)| (Val::T(k.into()), v)).collect());
        let sb = if ctx.src.chance(1, 3) { cbor::to_vec(&spec) } else { cbor::self_described(&spec) };
        // library bytes mean the same to the reference codec
        let norm = |v: &Val| {
            let mut v = cbor::untag(v.clone());
            fn srt(v: &mut Val) {
                if let Val::M(m) = v {
                    for (_, x) in m.iter_mut() {
                        srt(x)
                    }
                    m.sort_by_key(|(k, _)| format!("{k:?}"));
                }
            }
            srt(&mut v);
            v
        };
        match cbor::read(&b) {
            Some(v) if norm(&v) == norm(&spec) => {}
            v => ctx.violate(tag, "certificate-encode", format!("the encoded certificate means something else: {v:?}")),
        }
        for (who, bytes) in [("library", &b), ("specification", &sb)] {
            match ctx.sut(tag, "from_cbor", || Certificate::from_cbor(bytes)) {
                Some(Ok(c)) if c == real => {}
                Some(c) => ctx.violate(tag, "certificate-decode", format!("a certificate encoded by the {who} decodes to {c:?}")),
                None => {}
            }
            match ctx.sut(tag, "serde", || serde_cbor::from_slice::<Certificate>(bytes)) {
                Some(Ok(c)) if c == real => {}
                Some(c) => ctx.violate(tag, "certificate-serde", format!("a certificate encoded by the {who} is read by serde as {c:?}")),
                None => {}
            }
        }
        // representation-independent hash of arbitrary values
        ctx.stat("check.value_hash");
        rep_hash(ctx, tag);
    }
}

fn rep_hash(ctx: &mut Ctx, tag: Tag) {
    use ic_representation_independent_hash::{representation_independent_hash, Value as RV};
    fn both(ctx: &mut Ctx, depth: u32) -> (RV, RefV) {
        match ctx.src.draw(if depth == 0 { 3 } else { 5 }) {
            0 => {
                let n = match ctx.src.draw(4) {
                    0 => ctx.src.draw(300),
                    1 => u64::MAX - ctx.src.draw(3),
                    2 => 1 << ctx.src.draw(64),
                    _ => ctx.src.seed() << 20,
                };
                (RV::Number(n), RefV::N(n))
            }
            1 => {
                let s: String = (*ctx.src.pick(&["", "a", "ü", "text/html", "\u{0}", ":ic-cert-status"])).to_string();
                (RV::String(s.clone()), RefV::S(s))
            }
            2 => {
                let b = value(ctx);
                (RV::Bytes(b.clone()), RefV::B(b))
            }
            _ => {
                let n = ctx.src.draw(4);
                let (a, b): (Vec<RV>, Vec<RefV>) = (0..n).map(|_| both(ctx, depth - 1)).unzip();
                (RV::Array(a), RefV::A(b))
            }
        }
    }
    let n = ctx.src.draw(6);
    let mut real = vec![];
    let mut spec = vec![];
    for _ in 0..n {
        let k = (*ctx.src.pick(&["a", "b", "etag", "Content-Type", ":ic-cert-method", "", "ü"])).to_string();
        let (r, s) = both(ctx, 2);
        real.push((k.clone(), r));
        spec.push((k, s));
    }
    let want = ref_map_hash(&spec);
    if ctx.sut(tag, "rep_hash", || representation_independent_hash(&real)).is_some_and(|g| g != want) {
        ctx.violate(tag, "rep-hash", format!("the representation-independent hash of {spec:?} differs from the specification"));
    }
}

#[derive(Debug, Clone)]
enum RefV {
    N(u64),
    S(String),
    B(Vec<u8>),
    A(Vec<RefV>),
}
fn ref_val_hash(v: &RefV) -> H {
    use crate::refimpl::hashes::{leb128, sha};
    match v {
        RefV::N(n) => sha(&leb128(*n as u128)),
        RefV::S(s) => sha(s.as_bytes()),
        RefV::B(b) => sha(b),
        RefV::A(a) => sha(&a.iter().flat_map(|x| ref_val_hash(x)).collect::<Vec<u8>>()),
    }
}
fn ref_map_hash(m: &[(String, RefV)]) -> H {
    use crate::refimpl::hashes::sha;
    let mut hs: Vec<Vec<u8>> = m.iter().map(|(k, v)| [sha(k.as_bytes()), ref_val_hash(v)].concat()).collect();
    hs.sort();
    sha(&hs.concat())
}
