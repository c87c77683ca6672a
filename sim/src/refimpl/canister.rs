//! Certified entries and a reference canister that certifies them (reference).
use super::cel::Cel;
use super::hashes::{sha, H};
use super::rtree::{from_paths, T};
use super::verify::{request_hash, response_hash, Req, Resp};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Entry {
    pub segs: Vec<String>,
    pub wild: bool,
    pub cel: Cel,
    /// Exact text of the expression.
    pub cel_str: String,
    pub req: Option<Req>,
    pub resp: Resp,
}

impl Entry {
    pub fn expr_path(&self) -> Vec<String> {
        let mut p = vec!["http_expr".to_string()];
        p.extend(self.segs.iter().cloned());
        p.push(if self.wild { "<*>" } else { "<$>" }.into());
        p
    }
    pub fn tree_path(&self) -> Vec<Vec<u8>> {
        let mut p: Vec<Vec<u8>> = self.expr_path().into_iter().map(|s| s.into_bytes()).collect();
        p.push(sha(self.cel_str.as_bytes()).to_vec());
        match &self.cel {
            Cel::Skip => {}
            Cel::Response(rc) => {
                p.push(vec![]);
                p.push(response_hash(rc, &self.resp).to_vec());
            }
            Cel::Full { headers, query, resp } => {
                p.push(self.req_hash(headers, query).to_vec());
                p.push(response_hash(resp, &self.resp).to_vec());
            }
        }
        p
    }
    fn req_hash(&self, headers: &[String], query: &[String]) -> H {
        request_hash(headers, query, self.req.as_ref().unwrap()).unwrap()
    }
}

pub fn full_tree(entries: &[Entry]) -> T {
    let mut ps: Vec<(Vec<Vec<u8>>, Vec<u8>)> = entries.iter().map(|e| (e.tree_path(), vec![])).collect();
    ps.sort();
    ps.dedup();
    if ps.is_empty() {
        return super::rtree::lab(b"http_expr", T::Empty);
    }
    from_paths(&ps)
}
