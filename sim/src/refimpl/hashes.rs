//! SHA-256 helpers and the representation-independent hash (reference).
use sha2::{Digest, Sha256};
pub type H = [u8; 32];

pub fn sha(b: &[u8]) -> H {
    Sha256::digest(b).into()
}
pub fn sha_all(parts: &[&[u8]]) -> H {
    let mut s = Sha256::new();
    for p in parts {
        s.update(p);
    }
    s.finalize().into()
}

pub enum V<'a> {
    S(&'a str),
    N(u64),
}

pub fn leb128(mut n: u128) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 0x80);
    }
}

/// Hash of a multimap: sort (hash key ‖ hash value) pairs, hash their concatenation.
pub fn hash_of_map(m: &[(String, V)]) -> H {
    let mut hs: Vec<[u8; 64]> = m
        .iter()
        .map(|(k, v)| {
            let mut o = [0u8; 64];
            o[..32].copy_from_slice(&sha(k.as_bytes()));
            let vh = match v {
                V::S(s) => sha(s.as_bytes()),
                V::N(n) => sha(&leb128(*n as u128)),
            };
            o[32..].copy_from_slice(&vh);
            o
        })
        .collect();
    hs.sort();
    sha(&hs.concat())
}
