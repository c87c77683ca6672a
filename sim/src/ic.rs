//! Simulated Internet Computer: keys, subnets, delegations, certified state. (Stub: the real
//! replica is not part of this repository. BLS signatures are real.)
use crate::ctx::Ctx;
use crate::refimpl::cbor::{self, Val};
use crate::refimpl::hashes::{leb128, sha, H};
use crate::refimpl::rtree::{balanced, fork, lab, T};
use crate::refimpl::verify::{Cert, DER};
use miracl_core_bls12381::bls12381::bls;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::OnceLock;

pub struct Key {
    sk: Vec<u8>,
    pub pk: Vec<u8>,
}
impl Key {
    pub fn der(&self) -> Vec<u8> {
        [DER.as_slice(), &self.pk].concat()
    }
}
pub const K_ROOT: usize = 0;
pub const K_EVIL_ROOT: usize = 1;
pub const K_EVIL: usize = 2;
pub const K_SUBNET: usize = 3;
pub const NKEYS: usize = 8;

static KEYS: OnceLock<Vec<Key>> = OnceLock::new();
/// Key pairs are fixed for the whole program: made once, before any fork.
pub fn keys() -> &'static [Key] {
    KEYS.get_or_init(|| {
        bls::init();
        (0..NKEYS)
            .map(|i| {
                let ikm = sha(format!("sim key {i}").as_bytes());
                let mut sk = vec![0u8; 48];
                let mut pk = vec![0u8; 96];
                bls::key_pair_generate(&ikm, &mut sk, &mut pk);
                Key { sk, pk }
            })
            .collect()
    })
}

pub fn sign_raw(key: usize, root: &H) -> Vec<u8> {
    sign_msg(key, &[b"\x0Dic-state-root".as_slice(), root].concat())
}

/// What a subnet signs in other domains proves nothing about its state.
pub fn sign_msg(key: usize, msg: &[u8]) -> Vec<u8> {
    let mut sig = vec![0u8; 48];
    bls::core_sign(&mut sig, msg, &keys()[key].sk);
    sig
}

#[derive(Clone)]
pub struct Subnet {
    pub id: Vec<u8>,
    pub key: usize,
    pub ranges: Vec<(Vec<u8>, Vec<u8>)>,
    pub root: bool,
}

/// Signature ledger: which (key, root hash) pairs were ever signed.
#[derive(Default)]
pub struct Ledger {
    signed: RefCell<HashMap<(Vec<u8>, H), Vec<u8>>>,
}

impl Ledger {
    pub fn sign(&self, ctx: &mut Ctx, key: usize, root: &H) -> Vec<u8> {
        let k = (keys()[key].pk.clone(), *root);
        if let Some(s) = self.signed.borrow().get(&k) {
            return s.clone();
        }
        ctx.stat("stub.bls_signatures");
        let s = sign_raw(key, root);
        self.signed.borrow_mut().insert(k, s.clone());
        s
    }
    /// Signatures made before the run began.
    pub fn preload(&self, v: Vec<(usize, H, Vec<u8>)>) {
        for (k, root, sig) in v {
            self.signed.borrow_mut().insert((keys()[k].pk.clone(), root), sig);
        }
    }
    /// Ground truth: was this signature made by this key over this root?
    pub fn ok(&self, pk: &[u8], sig: &[u8], root: &H) -> bool {
        match self.signed.borrow().get(&(pk.to_vec(), *root)) {
            None => false,
            Some(s) if s == sig => true,
            // another encoding of the same curve point is not a forgery
            Some(_) => {
                sig.len() == 48 && sig[0] & 0x80 != 0 && {
                    let msg = [b"\x0Dic-state-root".as_slice(), root].concat();
                    bls::core_verify(sig, &msg, pk) == bls::BLS_OK
                }
            }
        }
    }
}

pub fn canister_id(n: u64) -> Vec<u8> {
    let mut v = n.to_be_bytes().to_vec();
    v.extend_from_slice(&[1, 1]);
    v
}
pub fn subnet_id(n: u64) -> Vec<u8> {
    let mut v = sha(&n.to_le_bytes())[..28].to_vec();
    v.push(2);
    v
}

pub fn ranges_cbor(r: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    cbor::self_described(&Val::A(
        r.iter().map(|(a, b)| Val::A(vec![Val::B(a.clone()), Val::B(b.clone())])).collect(),
    ))
}

/// The root subnet's state tree, listing subnets (used for delegations).
pub fn subnet_state(time: u64, subnets: &[Subnet]) -> T {
    let kids = subnets
        .iter()
        .map(|s| {
            let t = balanced(vec![
                (b"canister_ranges".to_vec(), T::Leaf(ranges_cbor(&s.ranges))),
                (b"public_key".to_vec(), T::Leaf(keys()[s.key].der())),
            ]);
            (s.id.clone(), t)
        })
        .collect();
    fork(lab(b"subnet", balanced(kids)), lab(b"time", T::Leaf(leb128(time as u128))))
}

/// A subnet's state tree with the certified data of its canisters.
pub fn canister_state(time: u64, data: &[(Vec<u8>, Vec<u8>)], noise: bool) -> T {
    let kids = data
        .iter()
        .map(|(id, d)| {
            let mut k = vec![(b"certified_data".to_vec(), T::Leaf(d.clone()))];
            if noise {
                k.push((b"module_hash".to_vec(), T::Leaf(sha(id).to_vec())));
                k.push((b"controllers".to_vec(), T::Leaf(vec![])));
            }
            (id.clone(), balanced(k))
        })
        .collect();
    let mut top = vec![
        (b"canister".to_vec(), balanced(kids)),
        (b"time".to_vec(), T::Leaf(leb128(time as u128))),
    ];
    if noise {
        top.push((b"request_status".to_vec(), T::Empty));
        top.push((b"subnet".to_vec(), T::Empty));
    }
    balanced(top)
}

pub fn time_path() -> Vec<Vec<u8>> {
    vec![b"time".to_vec()]
}
pub fn data_path(id: &[u8]) -> Vec<Vec<u8>> {
    vec![b"canister".to_vec(), id.to_vec(), b"certified_data".to_vec()]
}

pub fn seal(ctx: &mut Ctx, l: &Ledger, key: usize, tree: T, delegation: Option<(Vec<u8>, Vec<u8>)>) -> Cert {
    let sig = l.sign(ctx, key, &tree.digest());
    Cert { tree, sig, delegation }
}
