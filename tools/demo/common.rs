//! A miniature Internet Computer for demonstrations: keys, certificates, serving, verifying.
#![allow(dead_code)]
pub use ic_certification::hash_tree::{fork, label, leaf};
pub use ic_certification::HashTree;
use ic_certification::Label;
pub use ic_http_certification::utils::add_v2_certificate_header;
pub use ic_http_certification::*;
pub use ic_response_verification::types::VerificationInfo;
pub use ic_response_verification::{verify_request_response_pair, ResponseVerificationError};
use miracl_core_bls12381::bls12381::bls;
use serde_cbor::Value;
use sha2::{Digest, Sha256};

pub const NOW: u128 = 1_700_000_000_000_000_000;
pub const OFFSET: u128 = 300_000_000_000;
const DER: &[u8; 37] = b"\x30\x81\x82\x30\x1d\x06\x0d\x2b\x06\x01\x04\x01\x82\xdc\x7c\x05\x03\x01\x02\x01\x06\x0c\x2b\x06\x01\x04\x01\x82\xdc\x7c\x05\x03\x02\x01\x03\x61\x00";

pub struct Key {
    sk: Vec<u8>,
    pk: Vec<u8>,
}
impl Key {
    pub fn new(name: &str) -> Key {
        bls::init();
        let (mut sk, mut pk) = (vec![0u8; 48], vec![0u8; 96]);
        bls::key_pair_generate(&Sha256::digest(name.as_bytes()), &mut sk, &mut pk);
        Key { sk, pk }
    }
    pub fn der(&self) -> Vec<u8> {
        [DER.as_slice(), &self.pk].concat()
    }
    pub fn sign(&self, tree: &HashTree) -> Vec<u8> {
        let msg = [b"\x0Dic-state-root".as_slice(), &tree.digest()].concat();
        let mut sig = vec![0u8; 48];
        bls::core_sign(&mut sig, &msg, &self.sk);
        sig
    }
}

pub fn cid(n: u64) -> Vec<u8> {
    let mut v = n.to_be_bytes().to_vec();
    v.extend_from_slice(&[1, 1]);
    v
}
pub fn leb(mut n: u128) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        o.push(if n == 0 { b } else { b | 0x80 });
        if n == 0 {
            return o;
        }
    }
}
fn l(s: &[u8], t: HashTree) -> HashTree {
    label(Label::from(s), t)
}
/// (canister id, certified data) must be sorted by id
pub fn state(time: u128, data: &[(Vec<u8>, Vec<u8>)]) -> HashTree {
    let mut c: Option<HashTree> = None;
    for (id, d) in data.iter().rev() {
        let n = l(id, l(b"certified_data", leaf(d.clone())));
        c = Some(match c {
            None => n,
            Some(r) => fork(n, r),
        });
    }
    fork(l(b"canister", c.unwrap()), l(b"time", leaf(leb(time))))
}
pub fn cert_cbor(tree: &HashTree, sig: &[u8], delegation: Option<(&[u8], &[u8])>) -> Vec<u8> {
    let mut m = std::collections::BTreeMap::new();
    m.insert(Value::Text("tree".into()), serde_cbor::value::to_value(tree).unwrap());
    m.insert(Value::Text("signature".into()), Value::Bytes(sig.to_vec()));
    if let Some((id, c)) = delegation {
        let mut d = std::collections::BTreeMap::new();
        d.insert(Value::Text("subnet_id".into()), Value::Bytes(id.to_vec()));
        d.insert(Value::Text("certificate".into()), Value::Bytes(c.to_vec()));
        m.insert(Value::Text("delegation".into()), Value::Map(d));
    }
    let mut out = vec![0xd9, 0xd9, 0xf7];
    out.extend(serde_cbor::to_vec(&Value::Map(m)).unwrap());
    out
}
/// A certificate of one canister's data signed by the root subnet.
pub fn certify(key: &Key, canister: &[u8], data: &[u8], time: u128) -> Vec<u8> {
    let t = state(time, &[(canister.to_vec(), data.to_vec())]);
    cert_cbor(&t, &key.sign(&t), None)
}
/// A delegation certificate for a subnet.
pub fn delegation(root: &Key, subnet: &[u8], key: &Key, ranges: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let r = Value::Array(
        ranges.iter().map(|(a, b)| Value::Array(vec![Value::Bytes(a.clone()), Value::Bytes(b.clone())])).collect(),
    );
    let mut rc = vec![0xd9, 0xd9, 0xf7];
    rc.extend(serde_cbor::to_vec(&r).unwrap());
    let t = fork(
        l(b"subnet", l(subnet, fork(l(b"canister_ranges", leaf(rc)), l(b"public_key", leaf(key.der()))))),
        l(b"time", leaf(leb(NOW))),
    );
    cert_cbor(&t, &root.sign(&t), None)
}

/// Serves an entry of the tree for a request, with a fresh certificate of the tree.
pub fn serve(key: &Key, canister: &[u8], tree: &HttpCertificationTree, entry: &HttpCertificationTreeEntry, url: &str, resp: &HttpResponse<'static>) -> HttpResponse<'static> {
    let mut r = resp.clone();
    let cert = certify(key, canister, &tree.root_hash(), NOW);
    let w = tree.witness(entry, url).unwrap();
    add_v2_certificate_header(&cert, &mut r, &w, &entry.path.to_expr_path());
    r
}
pub fn verify(key: &Key, canister: &[u8], req: &HttpRequest<'static>, resp: &HttpResponse<'static>) -> Result<VerificationInfo, ResponseVerificationError> {
    verify_request_response_pair(req.clone(), resp.clone(), canister, NOW, OFFSET, &key.der(), 2)
}
pub fn ok_resp(body: &'static [u8], headers: Vec<(String, String)>) -> HttpResponse<'static> {
    HttpResponse::builder().with_status_code(StatusCode::OK).with_body(body).with_headers(headers).build()
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {what}");
        std::process::exit(1);
    }
}
