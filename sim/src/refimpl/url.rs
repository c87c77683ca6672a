//! Request URL handling (reference): path, query, percent-decoding.
pub struct Parts {
    pub path: String,
    pub query: Option<String>,
}

pub fn pct_decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let hex = |c: u8| (c as char).to_digit(16).map(|d| d as u8);
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let (Some(h), Some(l)) = (hex(b[i + 1]), hex(b[i + 2])) {
                o.push(h << 4 | l);
                i += 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    String::from_utf8(o).ok()
}

/// Splits a URL (absolute or origin form). `None`: not a URL this reference understands.
pub fn split(url: &str) -> Option<Parts> {
    let has_scheme = url.find("://").filter(|i| {
        url[..*i].bytes().enumerate().all(|(k, c)| c.is_ascii_alphabetic() || k > 0 && (c.is_ascii_digit() || b"+-.".contains(&c)))
    });
    let rest = if let Some(i) = has_scheme {
        let r = &url[i + 3..];
        match r.find(['/', '?', '#']) {
            Some(i) => &r[i..],
            None => "",
        }
    } else if url.starts_with('/') {
        url
    } else if url == "*" {
        // asterisk form
        return Some(Parts { path: "*".into(), query: None });
    } else if !url.is_empty() && !url.contains(['/', '?', '#']) {
        // authority form: no path
        return Some(Parts { path: String::new(), query: None });
    } else {
        return None;
    };
    let rest = rest.split('#').next().unwrap();
    let (p, q) = match rest.find('?') {
        Some(i) => (&rest[..i], Some(rest[i + 1..].to_string())),
        None => (rest, None),
    };
    let p = if p.is_empty() { "/" } else { p };
    Some(Parts { path: pct_decode(p)?, query: q })
}

pub fn segments(path: &str) -> Vec<String> {
    let mut v: Vec<String> = path.split('/').filter(|s| !s.is_empty()).map(String::from).collect();
    if path.ends_with('/') {
        v.push(String::new());
    }
    v
}
