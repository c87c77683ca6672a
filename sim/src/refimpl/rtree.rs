//! Reference hash trees: digest, three-valued lookup, pruning, merging, encoding.
use super::cbor::{self, Val};
use super::hashes::{sha_all, H};

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Empty,
    Fork(Box<T>, Box<T>),
    Labeled(Vec<u8>, Box<T>),
    Leaf(Vec<u8>),
    Pruned(H),
}
use T::*;

pub fn fork(a: T, b: T) -> T {
    Fork(Box::new(a), Box::new(b))
}
pub fn lab(l: &[u8], t: T) -> T {
    Labeled(l.to_vec(), Box::new(t))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Look<'a> {
    Absent,
    Unknown,
    Found(&'a T),
}

impl T {
    pub fn digest(&self) -> H {
        match self {
            Empty => sha_all(&[b"\x11ic-hashtree-empty"]),
            Fork(a, b) => sha_all(&[b"\x10ic-hashtree-fork", &a.digest(), &b.digest()]),
            Labeled(l, t) => sha_all(&[b"\x13ic-hashtree-labeled", l, &t.digest()]),
            Leaf(v) => sha_all(&[b"\x10ic-hashtree-leaf", v]),
            Pruned(h) => *h,
        }
    }

    /// In-order sequence of labelled children and pruned gaps at this node.
    fn flat<'a>(&'a self, out: &mut Vec<&'a T>) {
        match self {
            Fork(a, b) => {
                a.flat(out);
                b.flat(out)
            }
            Empty => {}
            t => out.push(t),
        }
    }

    pub fn child(&self, label: &[u8]) -> Look<'_> {
        let mut f = vec![];
        self.flat(&mut f);
        // a gap can hide the label only if it lies between labels that enclose it
        let mut unknown_since_smaller = false;
        for n in f {
            match n {
                Labeled(l, t) => match l.as_slice().cmp(label) {
                    std::cmp::Ordering::Less => unknown_since_smaller = false,
                    std::cmp::Ordering::Equal => return Look::Found(t),
                    std::cmp::Ordering::Greater => {
                        return if unknown_since_smaller { Look::Unknown } else { Look::Absent }
                    }
                },
                Pruned(_) => unknown_since_smaller = true,
                _ => {}
            }
        }
        if unknown_since_smaller {
            Look::Unknown
        } else {
            Look::Absent
        }
    }

    pub fn lookup<L: AsRef<[u8]>>(&self, path: &[L]) -> Look<'_> {
        let mut t = self;
        for l in path {
            match t.child(l.as_ref()) {
                Look::Found(x) => t = x,
                o => return o,
            }
        }
        Look::Found(t)
    }

    pub fn leaf_at<L: AsRef<[u8]>>(&self, path: &[L]) -> Option<&[u8]> {
        match self.lookup(path) {
            Look::Found(Leaf(v)) => Some(v),
            _ => None,
        }
    }

    pub fn to_val(&self) -> Val {
        match self {
            Empty => Val::A(vec![Val::U(0)]),
            Fork(a, b) => Val::A(vec![Val::U(1), a.to_val(), b.to_val()]),
            Labeled(l, t) => Val::A(vec![Val::U(2), Val::B(l.clone()), t.to_val()]),
            Leaf(v) => Val::A(vec![Val::U(3), Val::B(v.clone())]),
            Pruned(h) => Val::A(vec![Val::U(4), Val::B(h.to_vec())]),
        }
    }

    pub fn from_val(v: &Val) -> Option<T> {
        let Val::A(a) = v else { return None };
        let Val::U(tag) = a.first()? else { return None };
        Some(match (tag, a.len()) {
            (0, 1) => Empty,
            (1, 3) => fork(T::from_val(&a[1])?, T::from_val(&a[2])?),
            (2, 3) => match &a[1] {
                Val::B(l) => lab(l, T::from_val(&a[2])?),
                _ => return None,
            },
            (3, 2) => match &a[1] {
                Val::B(l) => Leaf(l.clone()),
                _ => return None,
            },
            (4, 2) => match &a[1] {
                Val::B(l) => Pruned(l.as_slice().try_into().ok()?),
                _ => return None,
            },
            _ => return None,
        })
    }

    pub fn decode(b: &[u8]) -> Option<T> {
        T::from_val(&cbor::untag(cbor::read(b)?))
    }

    pub fn size(&self) -> usize {
        match self {
            Fork(a, b) => 1 + a.size() + b.size(),
            Labeled(_, t) => 1 + t.size(),
            _ => 1,
        }
    }

    /// All paths to leaves with their values.
    pub fn leaves(&self) -> Vec<(Vec<Vec<u8>>, Vec<u8>)> {
        fn go(t: &T, cur: &mut Vec<Vec<u8>>, out: &mut Vec<(Vec<Vec<u8>>, Vec<u8>)>) {
            match t {
                Fork(a, b) => {
                    go(a, cur, out);
                    go(b, cur, out)
                }
                Labeled(l, t) => {
                    cur.push(l.clone());
                    go(t, cur, out);
                    cur.pop();
                }
                Leaf(v) => out.push((cur.clone(), v.clone())),
                _ => {}
            }
        }
        let mut out = vec![];
        go(self, &mut vec![], &mut out);
        out
    }

    /// Prunes the nodes for which `cut` says so (called in pre-order on every non-pruned node).
    pub fn prune(&self, cut: &mut dyn FnMut(&T) -> bool) -> T {
        if !matches!(self, Pruned(_)) && cut(self) {
            return Pruned(self.digest());
        }
        match self {
            Fork(a, b) => {
                let a = a.prune(cut);
                fork(a, b.prune(cut))
            }
            Labeled(l, t) => lab(l, t.prune(cut)),
            t => t.clone(),
        }
    }

    /// Prunes every subtree that is disjoint from `keep` paths (a path keeps all its prefixes, the
    /// whole subtree below its end if `deep`, and - with `neighbours` - nothing else).
    pub fn reveal(&self, keep: &[Vec<Vec<u8>>]) -> T {
        fn go(t: &T, keep: &[&[Vec<u8>]]) -> T {
            if keep.is_empty() {
                return Pruned(t.digest());
            }
            if keep.iter().any(|k| k.is_empty()) {
                return t.clone();
            }
            match t {
                Fork(a, b) => {
                    let (a, b) = (go(a, keep), go(b, keep));
                    match (&a, &b) {
                        (Pruned(_), Pruned(_)) => Pruned(t.digest()),
                        _ => fork(a, b),
                    }
                }
                Labeled(l, s) => {
                    let sub: Vec<&[Vec<u8>]> =
                        keep.iter().filter(|k| &k[0] == l).map(|k| &k[1..]).collect();
                    if sub.is_empty() {
                        Pruned(t.digest())
                    } else {
                        lab(l, go(s, &sub))
                    }
                }
                t => Pruned(t.digest()),
            }
        }
        let keep: Vec<&[Vec<u8>]> = keep.iter().map(|k| k.as_slice()).collect();
        go(self, &keep)
    }

    /// Prunes to a proof about these paths: present paths stay revealed (with their whole subtree
    /// when `deep`), absent ones keep the labels on both sides of the gap.
    pub fn prove(&self, want: &[Vec<Vec<u8>>], deep: bool) -> T {
        fn show(t: &T, labels: &std::collections::BTreeMap<Vec<u8>, Vec<&[Vec<u8>]>>, deep: bool, all: bool) -> T {
            match t {
                Fork(a, b) => {
                    let (a, b) = (show(a, labels, deep, all), show(b, labels, deep, all));
                    match (&a, &b) {
                        (Pruned(_), Pruned(_)) => Pruned(t.digest()),
                        _ => fork(a, b),
                    }
                }
                Labeled(l, s) => match labels.get(l) {
                    None => Pruned(t.digest()),
                    Some(sub) => lab(l, go(s, sub, deep)),
                },
                Empty => Empty,
                t if all => t.clone(),
                t => Pruned(t.digest()),
            }
        }
        fn go(t: &T, want: &[&[Vec<u8>]], deep: bool) -> T {
            if want.is_empty() {
                return Pruned(t.digest());
            }
            if want.iter().any(|k| k.is_empty()) && (deep || matches!(t, Leaf(_) | Empty)) {
                return t.clone();
            }
            let mut f = vec![];
            t.flat(&mut f);
            let labels: Vec<&Vec<u8>> = f.iter().filter_map(|n| if let Labeled(l, _) = n { Some(l) } else { None }).collect();
            let mut m: std::collections::BTreeMap<Vec<u8>, Vec<&[Vec<u8>]>> = Default::default();
            for w in want.iter().filter(|w| !w.is_empty()) {
                if labels.iter().any(|l| **l == w[0]) {
                    m.entry(w[0].clone()).or_default().push(&w[1..]);
                } else {
                    if let Some(l) = labels.iter().rev().find(|l| ***l < w[0]) {
                        m.entry((*l).clone()).or_default();
                    }
                    if let Some(l) = labels.iter().find(|l| ***l > w[0]) {
                        m.entry((*l).clone()).or_default();
                    }
                }
            }
            if m.is_empty() && matches!(t, Leaf(_)) {
                return t.clone();
            }
            show(t, &m, deep, false)
        }
        let want: Vec<&[Vec<u8>]> = want.iter().map(|k| k.as_slice()).collect();
        go(self, &want, deep)
    }

    /// Union of what two prunings of one tree reveal.
    pub fn merge(a: &T, b: &T) -> T {
        match (a, b) {
            (Pruned(_), x) | (x, Pruned(_)) => x.clone(),
            (Fork(a1, a2), Fork(b1, b2)) => fork(T::merge(a1, b1), T::merge(a2, b2)),
            (Labeled(l, x), Labeled(_, y)) => lab(l, T::merge(x, y)),
            (x, _) => x.clone(),
        }
    }
}

/// Balanced labelled tree over sorted children.
pub fn balanced(mut kids: Vec<(Vec<u8>, T)>) -> T {
    kids.sort_by(|a, b| a.0.cmp(&b.0));
    fn go(k: &[(Vec<u8>, T)]) -> T {
        match k.len() {
            0 => Empty,
            1 => lab(&k[0].0, k[0].1.clone()),
            n => fork(go(&k[..n / 2]), go(&k[n / 2..])),
        }
    }
    go(&kids)
}

/// Builds a full labelled tree from a set of paths with leaf values.
pub fn from_paths(paths: &[(Vec<Vec<u8>>, Vec<u8>)]) -> T {
    let mut groups: std::collections::BTreeMap<Vec<u8>, Vec<(Vec<Vec<u8>>, Vec<u8>)>> = Default::default();
    for (p, v) in paths {
        if p.is_empty() {
            return Leaf(v.clone());
        }
        groups.entry(p[0].clone()).or_default().push((p[1..].to_vec(), v.clone()));
    }
    balanced(groups.into_iter().map(|(k, ps)| (k, from_paths(&ps))).collect())
}
