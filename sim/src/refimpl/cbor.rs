//! Minimal CBOR reader/writer (reference).
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    U(u64),
    B(Vec<u8>),
    T(String),
    A(Vec<Val>),
    M(Vec<(Val, Val)>),
    Tag(u64, Box<Val>),
}

pub fn head(out: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    if n < 24 {
        out.push(m | n as u8)
    } else if n < 256 {
        out.extend_from_slice(&[m | 24, n as u8])
    } else if n < 65536 {
        out.push(m | 25);
        out.extend_from_slice(&(n as u16).to_be_bytes())
    } else if n < (1 << 32) {
        out.push(m | 26);
        out.extend_from_slice(&(n as u32).to_be_bytes())
    } else {
        out.push(m | 27);
        out.extend_from_slice(&n.to_be_bytes())
    }
}

pub fn write(v: &Val, out: &mut Vec<u8>) {
    match v {
        Val::U(n) => head(out, 0, *n),
        Val::B(b) => {
            head(out, 2, b.len() as u64);
            out.extend_from_slice(b)
        }
        Val::T(s) => {
            head(out, 3, s.len() as u64);
            out.extend_from_slice(s.as_bytes())
        }
        Val::A(a) => {
            head(out, 4, a.len() as u64);
            a.iter().for_each(|x| write(x, out))
        }
        Val::M(m) => {
            head(out, 5, m.len() as u64);
            m.iter().for_each(|(k, x)| {
                write(k, out);
                write(x, out)
            })
        }
        Val::Tag(t, x) => {
            head(out, 6, *t);
            write(x, out)
        }
    }
}

pub fn to_vec(v: &Val) -> Vec<u8> {
    let mut o = vec![];
    write(v, &mut o);
    o
}

pub fn self_described(v: &Val) -> Vec<u8> {
    let mut o = vec![0xd9, 0xd9, 0xf7];
    write(v, &mut o);
    o
}

const MAX_DEPTH: usize = 1500;

/// Strict reader: definite lengths, no trailing bytes.
pub fn read(b: &[u8]) -> Option<Val> {
    let mut p = 0;
    let v = read_at(b, &mut p, 0)?;
    if p != b.len() {
        return None;
    }
    Some(v)
}

fn read_at(b: &[u8], p: &mut usize, depth: usize) -> Option<Val> {
    if depth > MAX_DEPTH {
        return None;
    }
    let h = *b.get(*p)?;
    *p += 1;
    let major = h >> 5;
    let info = h & 31;
    let n = match info {
        0..=23 => info as u64,
        24 => take(b, p, 1)?[0] as u64,
        25 => u16::from_be_bytes(take(b, p, 2)?.try_into().ok()?) as u64,
        26 => u32::from_be_bytes(take(b, p, 4)?.try_into().ok()?) as u64,
        27 => u64::from_be_bytes(take(b, p, 8)?.try_into().ok()?),
        _ => return None,
    };
    Some(match major {
        0 => Val::U(n),
        2 => Val::B(take(b, p, n)?.to_vec()),
        3 => Val::T(String::from_utf8(take(b, p, n)?.to_vec()).ok()?),
        4 => {
            let mut a = vec![];
            for _ in 0..n {
                a.push(read_at(b, p, depth + 1)?);
            }
            Val::A(a)
        }
        5 => {
            let mut m = vec![];
            for _ in 0..n {
                let k = read_at(b, p, depth + 1)?;
                let v = read_at(b, p, depth + 1)?;
                m.push((k, v));
            }
            Val::M(m)
        }
        6 => Val::Tag(n, Box::new(read_at(b, p, depth + 1)?)),
        _ => return None,
    })
}

fn take<'a>(b: &'a [u8], p: &mut usize, n: u64) -> Option<&'a [u8]> {
    let n = usize::try_from(n).ok()?;
    let e = p.checked_add(n)?;
    if e > b.len() {
        return None;
    }
    let r = &b[*p..e];
    *p = e;
    Some(r)
}

pub fn untag(v: Val) -> Val {
    match v {
        Val::Tag(55799, x) => *x,
        v => v,
    }
}

impl Val {
    pub fn get(&self, key: &str) -> Option<&Val> {
        match self {
            Val::M(m) => m.iter().find(|(k, _)| matches!(k, Val::T(t) if t == key)).map(|x| &x.1),
            _ => None,
        }
    }
}
