//! Certification expressions (reference): model, printer, parser.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum RespCert {
    Include(Vec<String>),
    Exclude(Vec<String>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Cel {
    Skip,
    Response(RespCert),
    Full { headers: Vec<String>, query: Vec<String>, resp: RespCert },
}

fn list(v: &[String]) -> String {
    let q: Vec<String> = v.iter().map(|s| format!("\"{s}\"")).collect();
    format!("[{}]", q.join(","))
}

impl RespCert {
    /// Is this response header covered?
    pub fn covers(&self, name: &str) -> bool {
        match self {
            RespCert::Include(l) => l.iter().any(|x| x.eq_ignore_ascii_case(name)),
            RespCert::Exclude(l) => !l.iter().any(|x| x.eq_ignore_ascii_case(name)),
        }
    }
    fn print(&self) -> String {
        match self {
            RespCert::Include(l) => format!(
                "response_certification:ResponseCertification{{certified_response_headers:ResponseHeaderList{{headers:{}}}}}",
                list(l)
            ),
            RespCert::Exclude(l) => format!(
                "response_certification:ResponseCertification{{response_header_exclusions:ResponseHeaderList{{headers:{}}}}}",
                list(l)
            ),
        }
    }
}

impl Cel {
    /// The reference canister's own (compact) formatting; white space is not significant.
    pub fn print(&self) -> String {
        match self {
            Cel::Skip => "default_certification(ValidationArgs{no_certification:Empty{}})".into(),
            Cel::Response(r) => format!(
                "default_certification(ValidationArgs{{certification:Certification{{no_request_certification:Empty{{}},{}}}}})",
                r.print()
            ),
            Cel::Full { headers, query, resp } => format!(
                "default_certification(ValidationArgs{{certification:Certification{{request_certification:RequestCertification{{certified_request_headers:{},certified_query_parameters:{}}},{}}}}})",
                list(headers), list(query), resp.print()
            ),
        }
    }
}

#[derive(Debug, Clone)]
enum N {
    S(String),
    L(Vec<N>),
    O(String, Vec<(String, N)>),
    F(String, Vec<N>),
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\r' | b'\t') {
            self.i += 1
        }
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        self.ws();
        if self.b.get(self.i) == Some(&c) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn peek(&mut self) -> Option<u8> {
        self.ws();
        self.b.get(self.i).copied()
    }
    fn ident(&mut self) -> Option<String> {
        self.ws();
        let s = self.i;
        while self.i < self.b.len() && (self.b[self.i] == b'_' || self.b[self.i].is_ascii_alphanumeric()) {
            self.i += 1
        }
        if s == self.i {
            return None;
        }
        Some(String::from_utf8(self.b[s..self.i].to_vec()).ok()?)
    }
    fn seq<X>(&mut self, close: u8, mut f: impl FnMut(&mut Self) -> Option<X>) -> Option<Vec<X>> {
        let mut v = vec![];
        if self.peek()? == close {
            self.eat(close)?;
            return Some(v);
        }
        loop {
            v.push(f(self)?);
            if self.peek()? == b',' {
                self.eat(b',')?;
                if self.peek()? == close {
                    self.eat(close)?;
                    return Some(v);
                }
            } else {
                self.eat(close)?;
                return Some(v);
            }
        }
    }
    fn val(&mut self, depth: usize) -> Option<N> {
        if depth > 40 {
            return None;
        }
        match self.peek()? {
            b'"' => {
                self.eat(b'"')?;
                let s = self.i;
                while *self.b.get(self.i)? != b'"' {
                    if self.b[self.i] == b'\\' {
                        return None;
                    }
                    self.i += 1
                }
                let r = String::from_utf8(self.b[s..self.i].to_vec()).ok()?;
                self.i += 1;
                Some(N::S(r))
            }
            b'[' => {
                self.eat(b'[')?;
                Some(N::L(self.seq(b']', |p| p.val(depth + 1))?))
            }
            _ => {
                let id = self.ident()?;
                match self.peek()? {
                    b'(' => {
                        self.eat(b'(')?;
                        Some(N::F(id, self.seq(b')', |p| p.val(depth + 1))?))
                    }
                    b'{' => {
                        self.eat(b'{')?;
                        let kv = self.seq(b'}', |p| {
                            let k = p.ident()?;
                            p.eat(b':')?;
                            Some((k, p.val(depth + 1)?))
                        })?;
                        Some(N::O(id, kv))
                    }
                    _ => None,
                }
            }
        }
    }
}

fn obj(n: &N, name: &str, allowed: &[&str]) -> Option<Vec<(String, N)>> {
    match n {
        N::O(i, kv) if i == name && kv.iter().all(|(k, _)| allowed.contains(&k.as_str())) => Some(kv.clone()),
        _ => None,
    }
}
fn field<'a>(kv: &'a [(String, N)], k: &str) -> Option<&'a N> {
    kv.iter().find(|x| x.0 == k).map(|x| &x.1)
}
fn strings(n: &N) -> Option<Vec<String>> {
    match n {
        N::L(v) => v
            .iter()
            .map(|x| match x {
                N::S(s) => Some(s.clone()),
                _ => None,
            })
            .collect(),
        _ => None,
    }
}

/// Parses an expression in the exact shape of the specification.
pub fn parse(s: &str) -> Option<Cel> {
    let mut p = P { b: s.as_bytes(), i: 0 };
    let n = p.val(0)?;
    p.ws();
    if p.i != p.b.len() {
        return None;
    }
    let N::F(name, args) = n else { return None };
    if name != "default_certification" || args.len() != 1 {
        return None;
    }
    let va = obj(&args[0], "ValidationArgs", &["no_certification", "certification"])?;
    if va.len() != 1 {
        return None;
    }
    if let Some(n) = field(&va, "no_certification") {
        obj(n, "Empty", &[])?;
        return Some(Cel::Skip);
    }
    let c = obj(
        field(&va, "certification")?,
        "Certification",
        &["no_request_certification", "request_certification", "response_certification"],
    )?;
    let rc = obj(
        field(&c, "response_certification")?,
        "ResponseCertification",
        &["certified_response_headers", "response_header_exclusions"],
    )?;
    if rc.len() != 1 || c.len() != 2 {
        return None;
    }
    let hl = strings(field(&obj(&rc[0].1, "ResponseHeaderList", &["headers"])?, "headers")?)?;
    let resp = if rc[0].0 == "certified_response_headers" { RespCert::Include(hl) } else { RespCert::Exclude(hl) };
    if let Some(n) = field(&c, "no_request_certification") {
        obj(n, "Empty", &[])?;
        return Some(Cel::Response(resp));
    }
    let rq = obj(
        field(&c, "request_certification")?,
        "RequestCertification",
        &["certified_request_headers", "certified_query_parameters"],
    )?;
    Some(Cel::Full {
        headers: strings(field(&rq, "certified_request_headers")?)?,
        query: strings(field(&rq, "certified_query_parameters")?)?,
        resp,
    })
}
