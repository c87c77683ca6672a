From 1b3ef51c0d54af4e4297f9f46fa23d91e8ce32ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 01/23] fix: accept header and query names with any token
 character in certification expressions

---
 packages/ic-response-verification/src/cel/parser.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index 80ec809..c6e81e5 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -65,12 +65,10 @@ fn ident<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
 fn parse_str<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     i: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
-    let acceptable_special_chars = "-";
-
     context(
         "parse_str",
         escaped(
-            take_while(move |e| acceptable_special_chars.contains(e) || is_alphanumeric(e as u8)),
+            take_while(move |e: char| !matches!(e, '"' | '\\') && !e.is_ascii_whitespace()),
             '\\',
             one_of("\"n\\"),
         ),
-- 
2.43.0


From cc1e0df2cd9aba76f210465c0e7beb603abac925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 02/23] fix: evaluate the certificate time window without
 overflow

---
 .../src/certificate_verification.rs                           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/ic-certificate-verification/src/certificate_verification.rs b/packages/ic-certificate-verification/src/certificate_verification.rs
index e305ef2..f31096d 100644
--- a/packages/ic-certificate-verification/src/certificate_verification.rs
+++ b/packages/ic-certificate-verification/src/certificate_verification.rs
@@ -139,8 +139,8 @@ fn verify_certificate_time(
             timestamp: encoded_certificate_time.to_vec(),
         }
     })? as u128;
-    let max_certificate_time = current_time_ns + allowed_certificate_time_offset;
-    let min_certificate_time = current_time_ns - allowed_certificate_time_offset;
+    let max_certificate_time = current_time_ns.saturating_add(*allowed_certificate_time_offset);
+    let min_certificate_time = current_time_ns.saturating_sub(*allowed_certificate_time_offset);
 
     if certificate_time > max_certificate_time {
         return Err(CertificateVerificationError::TimeTooFarInTheFuture {
-- 
2.43.0


From e6c2b5c132ee20dee630817d9f4e33199590d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 03/23] fix: bound nesting and allocation when parsing
 untrusted CBOR

---
 packages/ic-cbor/src/cbor_parse_hash_tree.rs | 27 ++++++-------
 packages/ic-cbor/src/cbor_parser.rs          | 41 +++++++++++++-------
 2 files changed, 41 insertions(+), 27 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parse_hash_tree.rs b/packages/ic-cbor/src/cbor_parse_hash_tree.rs
index 19df10c..4abc80d 100644
--- a/packages/ic-cbor/src/cbor_parse_hash_tree.rs
+++ b/packages/ic-cbor/src/cbor_parse_hash_tree.rs
@@ -17,16 +17,16 @@ impl HashTreeToCbor for HashTree {
 }
 
 pub fn parsed_cbor_to_tree(parsed_cbor: &CborValue) -> CborResult<HashTree> {
-    if let CborValue::Array(mut cbor_tags) = parsed_cbor.to_owned() {
-        cbor_tags.reverse();
+    if let CborValue::Array(cbor_tags) = parsed_cbor {
+        let mut cbor_tags = cbor_tags.iter();
 
-        if let Some(CborValue::HashTree(hash_tree_tag)) = cbor_tags.pop() {
+        if let Some(CborValue::HashTree(hash_tree_tag)) = cbor_tags.next() {
             match hash_tree_tag {
                 CborHashTree::Empty => Ok(empty()),
 
                 CborHashTree::Leaf => {
-                    if let Some(CborValue::ByteString(data)) = cbor_tags.pop() {
-                        Ok(leaf(data))
+                    if let Some(CborValue::ByteString(data)) = cbor_tags.next() {
+                        Ok(leaf(data.to_owned()))
                     } else {
                         Err(CborError::MalformedHashTree(String::from(
                             "Missing ByteString for Leaf node",
@@ -35,8 +35,8 @@ pub fn parsed_cbor_to_tree(parsed_cbor: &CborValue) -> CborResult<HashTree> {
                 }
 
                 CborHashTree::Pruned => {
-                    if let Some(CborValue::ByteString(data)) = cbor_tags.pop() {
-                        let digest: Hash = TryFrom::<&[u8]>::try_from(data.as_ref())
+                    if let Some(CborValue::ByteString(data)) = cbor_tags.next() {
+                        let digest: Hash = TryFrom::<&[u8]>::try_from(data)
                             .map_err(CborError::IncorrectPrunedDataLength)?;
 
                         Ok(pruned(digest))
@@ -49,10 +49,10 @@ pub fn parsed_cbor_to_tree(parsed_cbor: &CborValue) -> CborResult<HashTree> {
 
                 CborHashTree::Labelled => {
                     if let (Some(CborValue::ByteString(data)), Some(child_tag)) =
-                        (cbor_tags.pop(), cbor_tags.pop())
+                        (cbor_tags.next(), cbor_tags.next())
                     {
-                        let node_label = Label::from(data);
-                        let child_node = parsed_cbor_to_tree(&child_tag)?;
+                        let node_label = Label::from(data.to_owned());
+                        let child_node = parsed_cbor_to_tree(child_tag)?;
 
                         Ok(label(node_label, child_node))
                     } else {
@@ -63,9 +63,10 @@ pub fn parsed_cbor_to_tree(parsed_cbor: &CborValue) -> CborResult<HashTree> {
                 }
 
                 CborHashTree::Fork => {
-                    if let (Some(left_tag), Some(right_tag)) = (cbor_tags.pop(), cbor_tags.pop()) {
-                        let left = parsed_cbor_to_tree(&left_tag)?;
-                        let right = parsed_cbor_to_tree(&right_tag)?;
+                    if let (Some(left_tag), Some(right_tag)) = (cbor_tags.next(), cbor_tags.next())
+                    {
+                        let left = parsed_cbor_to_tree(left_tag)?;
+                        let right = parsed_cbor_to_tree(right_tag)?;
 
                         Ok(fork(left, right))
                     } else {
diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index bd34304..d00cbbc 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -11,6 +11,12 @@ use nom::{
 };
 use std::{collections::HashMap, fmt};
 
+/// The deepest nesting of arrays, maps and tags that is parsed.
+///
+/// Parsing is recursive and its input is untrusted, so the nesting must be bounded
+/// to stay within the stack.
+const MAX_NESTING_DEPTH: usize = 512;
+
 #[derive(Debug, Copy, Clone, Eq, PartialEq)]
 pub enum CborNegativeInt {
     Int8(i8),
@@ -121,8 +127,8 @@ fn extract_cbor_value(i: &[u8]) -> IResult<&[u8], CborUnsignedInt> {
     }
 }
 
-fn extract_key_val_pair(i: &[u8]) -> IResult<&[u8], (String, CborValue)> {
-    let (i, key) = parser(i)?;
+fn extract_key_val_pair(i: &[u8], depth: usize) -> IResult<&[u8], (String, CborValue)> {
+    let (i, key) = parser(i, depth)?;
 
     let key = match key {
         CborValue::ByteString(byte_string) => match String::from_utf8(byte_string) {
@@ -132,12 +138,16 @@ fn extract_key_val_pair(i: &[u8]) -> IResult<&[u8], (String, CborValue)> {
         _ => Err(Err::Error(Error::new(i, ErrorKind::Alt))),
     }?;
 
-    let (i, val) = parser(i)?;
+    let (i, val) = parser(i, depth)?;
 
     Ok((i, (key, val)))
 }
 
-fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
+fn parser(i: &[u8], depth: usize) -> IResult<&[u8], CborValue> {
+    if depth > MAX_NESTING_DEPTH {
+        return Err(Err::Failure(Error::new(i, ErrorKind::TooLarge)));
+    }
+
     let (i, cbor_type) = peek_cbor_type(i)?;
     let (i, cbor_value) = extract_cbor_value(i)?;
 
@@ -169,7 +179,7 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
 
         4 => {
             let data_len = cbor_value.to_usize();
-            let (i, data) = count(parser, data_len)(i)?;
+            let (i, data) = count(|i| parser(i, depth + 1), data_len)(i)?;
 
             Ok((i, CborValue::Array(data)))
         }
@@ -179,8 +189,8 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
             let (i, data) = fold_many_m_n(
                 0,
                 data_len,
-                extract_key_val_pair,
-                || HashMap::with_capacity(data_len),
+                |i| extract_key_val_pair(i, depth + 1),
+                HashMap::new,
                 |mut acc, (key, val)| {
                     acc.insert(key, val);
                     acc
@@ -191,15 +201,15 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
         }
 
         // ignore custom data tags and floats, we don't currently need them
-        6 => parser(i),
-        7 => parser(i),
+        6 => parser(i, depth + 1),
+        7 => parser(i, depth + 1),
 
         _ => Err(Err::Error(Error::new(i, ErrorKind::Alt))),
     };
 }
 
 pub fn parse_cbor(i: &[u8]) -> Result<CborValue, nom::Err<Error<&[u8]>>> {
-    let (_remaining, result) = terminated(parser, eof)(i)?;
+    let (_remaining, result) = terminated(|i| parser(i, 0), eof)(i)?;
 
     Ok(result)
 }
@@ -223,10 +233,13 @@ pub fn parse_cbor_principals_array(i: &[u8]) -> CborResult<Vec<(Principal, Princ
                 _ => return Err(CborError::MalformedCborCanisterRanges),
             };
 
-            Ok((
-                Principal::from_slice(first_principal),
-                Principal::from_slice(second_principal),
-            ))
+            match (
+                Principal::try_from_slice(first_principal),
+                Principal::try_from_slice(second_principal),
+            ) {
+                (Ok(first), Ok(second)) => Ok((first, second)),
+                _ => Err(CborError::MalformedCborCanisterRanges),
+            }
         })
         .collect::<Result<_, _>>()
 }
-- 
2.43.0


From 5cbfc289bb859bfc6ceff0439394b89cb722f86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 04/23] fix: reject malformed curve points instead of panicking
 when verifying signatures

---
 .../src/signature_verification/mod.rs           | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/packages/ic-certificate-verification/src/signature_verification/mod.rs b/packages/ic-certificate-verification/src/signature_verification/mod.rs
index 250a675..ef92318 100644
--- a/packages/ic-certificate-verification/src/signature_verification/mod.rs
+++ b/packages/ic-certificate-verification/src/signature_verification/mod.rs
@@ -10,11 +10,28 @@ mod reproducible_rng;
 #[cfg(test)]
 mod tests;
 
+const COMPRESSED_PUBLIC_KEY_LENGTH: usize = 96;
+const COMPRESSED_SIGNATURE_LENGTH: usize = 48;
+
+/// Check that a serialized curve point has the compressed form, as flagged by the
+/// most significant bit of its first byte, and the length required of that form.
+///
+/// `core_verify` does not check the length of its inputs before indexing them.
+fn is_compressed_point(point: &[u8], length: usize) -> bool {
+    point.len() == length && point[0] & 0x80 != 0
+}
+
 pub fn verify_signature(
     pk: &[u8],
     sig: &[u8],
     msg: &[u8],
 ) -> Result<(), CertificateVerificationError> {
+    if !is_compressed_point(pk, COMPRESSED_PUBLIC_KEY_LENGTH)
+        || !is_compressed_point(sig, COMPRESSED_SIGNATURE_LENGTH)
+    {
+        return Err(CertificateVerificationError::SignatureVerificationFailed);
+    }
+
     let entry = SignatureCacheEntry::new(pk, sig, msg);
 
     if SignatureCache::global().contains(&entry) {
-- 
2.43.0


From 46c60dcac098187105dec223a0df136326ec7bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 05/23] fix: bound nesting when parsing certification
 expressions

---
 .../src/cel/parser.rs                         | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index c6e81e5..3fa7607 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -159,7 +159,43 @@ fn cel_value<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     )(i)
 }
 
+/// The deepest nesting of arrays, objects and function calls that is parsed.
+///
+/// Parsing is recursive and its input is untrusted, so the nesting must be bounded
+/// to stay within the stack.
+const MAX_NESTING_DEPTH: usize = 64;
+
+fn is_nested_too_deeply(i: &str) -> bool {
+    let mut depth = 0usize;
+    let mut in_string = false;
+    let mut chars = i.chars();
+
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' if in_string => {
+                chars.next();
+            }
+            '"' => in_string = !in_string,
+            '(' | '[' | '{' if !in_string => depth += 1,
+            ')' | ']' | '}' if !in_string => depth = depth.saturating_sub(1),
+            _ => {}
+        }
+
+        if depth > MAX_NESTING_DEPTH {
+            return true;
+        }
+    }
+
+    false
+}
+
 pub(crate) fn parse_cel_expression(i: &str) -> CelParserResult<CelValue> {
+    if is_nested_too_deeply(i) {
+        return Err(CelParserError::CelSyntaxException(
+            "Expression is nested too deeply".to_string(),
+        ));
+    }
+
     let result = cel_value::<nom::error::Error<&str>>(i);
 
     match result {
-- 
2.43.0


From 2d4d690e6aede42f477ae3cbf9611c7ce6e12545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 06/23] fix: let empty nodes not decide label lookups in hash
 trees

---
 packages/ic-certification/src/hash_tree/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/ic-certification/src/hash_tree/mod.rs b/packages/ic-certification/src/hash_tree/mod.rs
index efb8d41..f2bb41e 100644
--- a/packages/ic-certification/src/hash_tree/mod.rs
+++ b/packages/ic-certification/src/hash_tree/mod.rs
@@ -299,6 +299,9 @@ enum LookupLabelResult<'node, Storage: AsRef<[u8]>> {
     /// Same as absent, but some leaves were pruned and so it's impossible to know.
     Unknown,
 
+    /// This node's tree has no labels, so it says nothing about the label.
+    Empty,
+
     /// The label was not found, but could still be to the left.
     Less,
 
@@ -446,20 +449,26 @@ impl<Storage: AsRef<[u8]>> HashTreeNode<Storage> {
                         let right_label = nodes.1.lookup_label(label);
                         match right_label {
                             LookupLabelResult::Less => LookupLabelResult::Absent,
+                            LookupLabelResult::Empty => LookupLabelResult::Greater,
                             result => result,
                         }
                     }
                     LookupLabelResult::Unknown => {
                         let right_label = nodes.1.lookup_label(label);
                         match right_label {
-                            LookupLabelResult::Less => LookupLabelResult::Unknown,
+                            LookupLabelResult::Less | LookupLabelResult::Empty => {
+                                LookupLabelResult::Unknown
+                            }
                             result => result,
                         }
                     }
+                    // Nothing on the left side of the fork, the right side decides alone.
+                    LookupLabelResult::Empty => nodes.1.lookup_label(label),
                     result => result,
                 }
             }
             HashTreeNode::Pruned(_) => LookupLabelResult::Unknown,
+            HashTreeNode::Empty() => LookupLabelResult::Empty,
             // Any other type of node and we need to look for more forks.
             _ => LookupLabelResult::Absent,
         }
@@ -491,7 +500,7 @@ impl<Storage: AsRef<[u8]>> HashTreeNode<Storage> {
             (None, Labeled(_, _) | Fork(_)) => Error,
 
             (Some(LLR::Unknown), _) => Unknown,
-            (Some(LLR::Absent | LLR::Greater | LLR::Less), _) => Absent,
+            (Some(LLR::Absent | LLR::Empty | LLR::Greater | LLR::Less), _) => Absent,
         }
     }
 }
@@ -517,7 +526,7 @@ impl<Storage: Clone + AsRef<[u8]>> HashTreeNode<Storage> {
         {
             Some(LLR::Found(node)) => node.lookup_subtree(path),
             Some(LLR::Unknown) => Unknown,
-            Some(LLR::Absent | LLR::Greater | LLR::Less) => Absent,
+            Some(LLR::Absent | LLR::Empty | LLR::Greater | LLR::Less) => Absent,
             None => Found(HashTree {
                 root: self.to_owned(),
             }),
-- 
2.43.0


From ac342fae4e6a89e9f92b829a35eacdc0bb94a78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:59 +0000
Subject: [PATCH 07/23] fix: ignore byte ranges requested of assets that are
 served in full

---
 .../src/asset_router.rs                       | 73 ++++++++++---------
 1 file changed, 39 insertions(+), 34 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index f9468fd..a4449db 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -403,19 +403,20 @@ impl<'content> AssetRouter<'content> {
             return Ok(response);
         }
 
-        if let Some(response) =
-            self.responses
-                .get(&RequestKey::new(req_path, None, maybe_range_begin))
-        {
-            if response.response.body().len() > ASSET_CHUNK_SIZE {
-                if let Some(first_chunk_response) =
-                    self.responses
-                        .get(&RequestKey::new(req_path, None, Some(0)))
-                {
-                    return Ok(first_chunk_response);
-                }
-            } else {
-                return Ok(response);
+        if let Some(response) = self.get_asset_or_chunk(req_path, None, maybe_range_begin) {
+            return Ok(response);
+        }
+
+        if let Some(range_begin) = maybe_range_begin {
+            // The requested path exists, but it has no chunk that starts where the range does.
+            // A fallback could never be verified for such a path.
+            if self
+                .responses
+                .contains_key(&RequestKey::new(req_path, None, None))
+            {
+                return Err(AssetCertificationError::RequestError(format!(
+                    "No chunk of '{req_path}' begins at byte {range_begin}"
+                )));
             }
         }
 
@@ -892,29 +893,33 @@ impl<'content> AssetRouter<'content> {
         url: &str,
         maybe_range_begin: Option<usize>,
     ) -> Option<&CertifiedAssetResponse<'content>> {
-        for encoding in preferred_encodings {
-            if let Some(response) = self.responses.get(&RequestKey::new(
-                url,
-                Some(encoding.to_string()),
-                maybe_range_begin,
-            )) {
-                if response.response.body().len() > ASSET_CHUNK_SIZE {
-                    if let Some(first_chunk_response) = self.responses.get(&RequestKey::new(
-                        url,
-                        Some(encoding.to_string()),
-                        Some(0),
-                    )) {
-                        return Some(first_chunk_response);
-                    } else {
-                        return None;
-                    }
-                } else {
-                    return Some(response);
-                }
-            }
+        preferred_encodings.iter().find_map(|encoding| {
+            self.get_asset_or_chunk(url, Some(encoding.to_string()), maybe_range_begin)
+        })
+    }
+
+    /// Returns the asset if it is served in full, otherwise its chunk starting at the requested
+    /// range, or the first chunk if no range was requested. A range requested of an asset that is
+    /// served in full is ignored.
+    fn get_asset_or_chunk(
+        &self,
+        url: &str,
+        encoding: Option<String>,
+        maybe_range_begin: Option<usize>,
+    ) -> Option<&CertifiedAssetResponse<'content>> {
+        let response = self
+            .responses
+            .get(&RequestKey::new(url, encoding.clone(), None))?;
+
+        if response.response.body().len() <= ASSET_CHUNK_SIZE {
+            return Some(response);
         }
 
-        None
+        self.responses.get(&RequestKey::new(
+            url,
+            encoding,
+            Some(maybe_range_begin.unwrap_or(0)),
+        ))
     }
 
     fn get_encoded_fallback_asset(
-- 
2.43.0


From 4e32b70b721ca8777cb5b1e243c0a19399344adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 08/23] fix: serve a fallback for the path that equals its
 scope

---
 packages/ic-asset-certification/src/asset_router.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index a4449db..6eb8d9d 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -420,6 +420,18 @@ impl<'content> AssetRouter<'content> {
             }
         }
 
+        // The innermost scope is the requested path itself.
+        if let Some(response) = self.get_encoded_fallback_asset(&preferred_encodings, req_path) {
+            return Ok(response);
+        }
+
+        if let Some(response) = self
+            .fallback_responses
+            .get(&RequestKey::new(req_path, None, None))
+        {
+            return Ok(response);
+        }
+
         let mut url_scopes = req_path.split('/').collect::<Vec<_>>();
         url_scopes.pop();
 
-- 
2.43.0


From c533daa75e023b477b7f56f69574a0bcd0f9b699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:19 +0000
Subject: [PATCH 09/23] fix: match the encodings a client accepts whatever
 their case

---
 packages/ic-asset-certification/src/asset_router.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 6eb8d9d..8aed847 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -906,7 +906,7 @@ impl<'content> AssetRouter<'content> {
         maybe_range_begin: Option<usize>,
     ) -> Option<&CertifiedAssetResponse<'content>> {
         preferred_encodings.iter().find_map(|encoding| {
-            self.get_asset_or_chunk(url, Some(encoding.to_string()), maybe_range_begin)
+            self.get_asset_or_chunk(url, Some(encoding.to_ascii_lowercase()), maybe_range_begin)
         })
     }
 
@@ -942,7 +942,7 @@ impl<'content> AssetRouter<'content> {
         for encoding in preferred_encodings {
             if let Some(response) = self.fallback_responses.get(&RequestKey::new(
                 scope,
-                Some(encoding.to_string()),
+                Some(encoding.to_ascii_lowercase()),
                 None,
             )) {
                 return Some(response);
-- 
2.43.0


From 225ecfb2b9d9f69af488d4f7cceee84c9abc6e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 10/23] fix: do not serve encodings which the client refuses

---
 .../src/asset_router.rs                       | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 8aed847..b1f87de 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -978,12 +978,19 @@ impl<'content> AssetRouter<'content> {
         let mut encodings = encodings
             .split(',')
             .filter_map(|encoding| {
-                encoding
-                    .split(';')
-                    .collect::<Vec<_>>()
-                    .first()
-                    .map(|s| s.trim())
-                    .map(|s| (s, Self::default_encoding_quality(s)))
+                let mut parts = encoding.split(';').map(str::trim);
+                let encoding = parts.next()?;
+
+                // a quality of zero means that the encoding is not acceptable
+                let is_refused = parts.any(|parameter| {
+                    parameter
+                        .strip_prefix("q=")
+                        .or_else(|| parameter.strip_prefix("Q="))
+                        .and_then(|quality| quality.trim().parse::<f32>().ok())
+                        .is_some_and(|quality| quality == 0.0)
+                });
+
+                (!is_refused).then(|| (encoding, Self::default_encoding_quality(encoding)))
             })
             .collect::<Vec<_>>();
 
-- 
2.43.0


From a0f12b8060621d318ba65f05b2418e5c23b519ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:50 +0000
Subject: [PATCH 11/23] fix: certify assets with any characters in their paths

---
 .../ic-asset-certification/src/asset_router.rs     | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index b1f87de..cddc0c6 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -803,7 +803,6 @@ impl<'content> AssetRouter<'content> {
         let headers = vec![("location".to_string(), to)];
 
         let (response, certification) = Self::prepare_response_and_certification(
-            from.clone(),
             status_code,
             Cow::Owned(vec![]),
             headers,
@@ -853,17 +852,10 @@ impl<'content> AssetRouter<'content> {
             request_headers.push(http::header::RANGE.to_string());
         };
 
-        Self::prepare_response_and_certification(
-            asset.url.to_string(),
-            status_code,
-            content,
-            headers,
-            request_headers,
-        )
+        Self::prepare_response_and_certification(status_code, content, headers, request_headers)
     }
 
     fn prepare_response_and_certification(
-        url: String,
         status_code: StatusCode,
         body: Cow<'content, [u8]>,
         additional_response_headers: Vec<(String, String)>,
@@ -886,7 +878,9 @@ impl<'content> AssetRouter<'content> {
         let cel_expr_str = cel_expr.to_string();
         headers.push((CERTIFICATE_EXPRESSION_HEADER_NAME.to_string(), cel_expr_str));
 
-        let request = HttpRequest::get(url).build();
+        // The path is certified by its place in the tree, and the query is not certified. A path
+        // that is not encoded, as asset paths are, could not be parsed as the URL of a request.
+        let request = HttpRequest::get("/").build();
 
         let response = HttpResponse::builder()
             .with_status_code(status_code)
-- 
2.43.0


From b0b503dcb527f2ed7f30510fd1c03d822711a45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 12/23] fix: delete the certification of the stored asset and
 of its chunks

---
 .../src/asset_router.rs                       | 159 +++++-------------
 1 file changed, 46 insertions(+), 113 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index cddc0c6..ac33a80 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -359,16 +359,16 @@ impl<'content> AssetRouter<'content> {
                 if let Some(mut encoded_asset) = encoded_asset {
                     encoded_asset.url.clone_from(&asset.url);
 
-                    self.delete_asset_impl(encoded_asset, asset_config, Some(encoding))?;
+                    self.delete_asset_impl(encoded_asset, asset_config, Some(encoding));
                 }
             }
 
-            self.delete_asset_impl(asset.clone(), asset_config, None)?;
+            self.delete_asset_impl(asset.clone(), asset_config, None);
         }
 
         for asset_config in asset_configs {
-            if let NormalizedAssetConfig::Redirect { from, to, kind } = asset_config {
-                self.delete_redirect(from, to, kind)?;
+            if let NormalizedAssetConfig::Redirect { from, .. } = asset_config {
+                self.delete_static_asset(&from, None);
             }
         }
 
@@ -533,57 +533,23 @@ impl<'content> AssetRouter<'content> {
         asset: Asset<'content, 'path>,
         asset_config: Option<&NormalizedAssetConfig>,
         encoding: Option<AssetEncoding>,
-    ) -> AssetCertificationResult {
-        match asset_config {
-            Some(NormalizedAssetConfig::Pattern {
-                content_type,
-                headers,
-                ..
-            }) => {
-                self.delete_static_asset(asset, content_type.clone(), headers.clone(), encoding)?;
-            }
-            Some(NormalizedAssetConfig::File {
-                content_type,
-                headers,
-                fallback_for,
-                aliased_by,
-                ..
-            }) => {
-                self.delete_static_asset(
-                    asset.clone(),
-                    content_type.clone(),
-                    headers.clone(),
-                    encoding,
-                )?;
-
-                for fallback_for in fallback_for.iter() {
-                    self.delete_fallback_asset(
-                        asset.clone(),
-                        content_type.clone(),
-                        headers.clone(),
-                        fallback_for.clone(),
-                        encoding,
-                    )?;
-                }
-
-                for aliased_by in aliased_by.iter() {
-                    let mut aliased_asset = asset.clone();
-                    aliased_asset.url = Cow::Owned(aliased_by.clone());
+    ) {
+        self.delete_static_asset(&asset.url, encoding);
 
-                    self.delete_static_asset(
-                        aliased_asset,
-                        content_type.clone(),
-                        headers.clone(),
-                        encoding,
-                    )?;
-                }
+        if let Some(NormalizedAssetConfig::File {
+            fallback_for,
+            aliased_by,
+            ..
+        }) = asset_config
+        {
+            for fallback_for in fallback_for.iter() {
+                self.delete_fallback_asset(&fallback_for.scope, encoding);
             }
-            _ => {
-                self.delete_static_asset(asset, None, vec![], encoding)?;
+
+            for aliased_by in aliased_by.iter() {
+                self.delete_static_asset(aliased_by, encoding);
             }
         }
-
-        Ok(())
     }
 
     fn insert_static_asset<'path>(
@@ -626,35 +592,32 @@ impl<'content> AssetRouter<'content> {
         Ok(())
     }
 
-    fn delete_static_asset<'path>(
-        &mut self,
-        asset: Asset<'content, 'path>,
-        content_type: Option<String>,
-        additional_headers: Vec<(String, String)>,
-        encoding: Option<AssetEncoding>,
-    ) -> AssetCertificationResult<()> {
-        let asset_url = asset.url.to_string();
-        let response =
-            Self::prepare_static_asset(asset, content_type, additional_headers, encoding, None)?;
+    /// Removes what is served for a URL in an encoding, together with its chunks and with the
+    /// certification of what was actually stored.
+    fn delete_static_asset(&mut self, asset_url: &str, encoding: Option<AssetEncoding>) {
+        let encoding = encoding_str(encoding);
+        let Some(response) =
+            self.responses
+                .remove(&RequestKey::new(asset_url, encoding.clone(), None))
+        else {
+            return;
+        };
 
-        self.tree.borrow_mut().delete(&response.tree_entry);
-        self.responses
-            .remove(&RequestKey::new(&asset_url, encoding_str(encoding), None));
-
-        if response.response.body().len() > ASSET_CHUNK_SIZE {
-            // Delete also chunks.
-            let mut range_begin: usize = 0;
-            while range_begin < response.response.body().len() {
-                self.responses.remove(&RequestKey::new(
-                    &asset_url,
-                    encoding_str(encoding),
+        let mut tree = self.tree.borrow_mut();
+        tree.delete(&response.tree_entry);
+
+        let total_length = response.response.body().len();
+        if total_length > ASSET_CHUNK_SIZE {
+            for range_begin in (0..total_length).step_by(ASSET_CHUNK_SIZE) {
+                if let Some(chunk) = self.responses.remove(&RequestKey::new(
+                    asset_url,
+                    encoding.clone(),
                     Some(range_begin),
-                ));
-                range_begin += ASSET_CHUNK_SIZE;
+                )) {
+                    tree.delete(&chunk.tree_entry);
+                }
             }
         }
-
-        Ok(())
     }
 
     fn prepare_static_asset<'path>(
@@ -708,29 +671,13 @@ impl<'content> AssetRouter<'content> {
         Ok(())
     }
 
-    fn delete_fallback_asset<'path>(
-        &mut self,
-        asset: Asset<'content, 'path>,
-        content_type: Option<String>,
-        additional_headers: Vec<(String, String)>,
-        fallback_for: AssetFallbackConfig,
-        encoding: Option<AssetEncoding>,
-    ) -> AssetCertificationResult<()> {
-        let response = Self::prepare_fallback_asset(
-            asset,
-            additional_headers,
-            content_type,
-            fallback_for.clone(),
-            encoding,
-        )?;
-
-        self.tree.borrow_mut().delete(&response.tree_entry);
-        self.fallback_responses.remove(&RequestKey::new(
-            &fallback_for.scope,
-            encoding_str(encoding),
-            None,
-        ));
-        Ok(())
+    fn delete_fallback_asset(&mut self, scope: &str, encoding: Option<AssetEncoding>) {
+        if let Some(response) =
+            self.fallback_responses
+                .remove(&RequestKey::new(scope, encoding_str(encoding), None))
+        {
+            self.tree.borrow_mut().delete(&response.tree_entry);
+        }
     }
 
     fn prepare_fallback_asset<'path>(
@@ -776,20 +723,6 @@ impl<'content> AssetRouter<'content> {
         Ok(())
     }
 
-    fn delete_redirect(
-        &mut self,
-        from: String,
-        to: String,
-        kind: AssetRedirectKind,
-    ) -> AssetCertificationResult<()> {
-        let response = Self::prepare_redirect(from.clone(), to, kind)?;
-
-        self.tree.borrow_mut().delete(&response.tree_entry);
-        self.responses.remove(&RequestKey::new(&from, None, None));
-
-        Ok(())
-    }
-
     fn prepare_redirect(
         from: String,
         to: String,
-- 
2.43.0


From 98dcb298281010e13ced21d38487a27e6d26279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 13/23] fix: replace the certification of an asset, fallback or
 redirect that is certified again

---
 .../src/asset_router.rs                       | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index ac33a80..53832ae 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -561,10 +561,10 @@ impl<'content> AssetRouter<'content> {
     ) -> AssetCertificationResult<()> {
         let asset_url = asset.url.to_string();
         let total_length = asset.content.len();
+        let mut responses = vec![];
 
         if total_length > ASSET_CHUNK_SIZE {
-            let mut range_begin = 0;
-            while range_begin < asset.content.len() {
+            for range_begin in (0..total_length).step_by(ASSET_CHUNK_SIZE) {
                 let response = Self::prepare_static_asset(
                     asset.clone(),
                     content_type.clone(),
@@ -572,23 +572,24 @@ impl<'content> AssetRouter<'content> {
                     encoding,
                     Some(range_begin),
                 )?;
-                self.tree.borrow_mut().insert(&response.tree_entry);
-                self.responses.insert(
-                    RequestKey::new(&asset_url, encoding_str(encoding), Some(range_begin)),
-                    response,
-                );
-                range_begin += ASSET_CHUNK_SIZE;
+                responses.push((Some(range_begin), response));
             }
         }
 
         let response =
             Self::prepare_static_asset(asset, content_type, additional_headers, encoding, None)?;
+        responses.push((None, response));
 
-        self.tree.borrow_mut().insert(&response.tree_entry);
-        self.responses.insert(
-            RequestKey::new(&asset_url, encoding_str(encoding), None),
-            response,
-        );
+        // What is replaced must not be provable any longer.
+        self.delete_static_asset(&asset_url, encoding);
+
+        for (range_begin, response) in responses {
+            self.tree.borrow_mut().insert(&response.tree_entry);
+            self.responses.insert(
+                RequestKey::new(&asset_url, encoding_str(encoding), range_begin),
+                response,
+            );
+        }
         Ok(())
     }
 
@@ -663,6 +664,7 @@ impl<'content> AssetRouter<'content> {
             encoding,
         )?;
 
+        self.delete_fallback_asset(&fallback_for.scope, encoding);
         self.tree.borrow_mut().insert(&response.tree_entry);
         self.fallback_responses.insert(
             RequestKey::new(&fallback_for.scope, encoding_str(encoding), None),
@@ -715,6 +717,7 @@ impl<'content> AssetRouter<'content> {
     ) -> AssetCertificationResult<()> {
         let response = Self::prepare_redirect(from.clone(), to, kind)?;
 
+        self.delete_static_asset(&from, None);
         self.tree.borrow_mut().insert(&response.tree_entry);
 
         self.responses
-- 
2.43.0


From 0ec5bc7808ed94f6a1b507f4492a8e2c6f0f9550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 14/23] fix: keep entries of the application when all assets
 are deleted from a shared tree

---
 packages/ic-asset-certification/src/asset_router.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 53832ae..464c805 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -380,9 +380,15 @@ impl<'content> AssetRouter<'content> {
     /// After performing this operation, one must set the canister's certified data (`ic_cdk::api::set_certified_data()`)
     /// to the new [root hash](AssetRouter::root_hash) of the tree.
     pub fn delete_all_assets(&mut self) {
-        self.responses.clear();
-        self.fallback_responses.clear();
-        self.tree.borrow_mut().clear();
+        // The tree may be shared, so only what this router certified is removed from it.
+        let mut tree = self.tree.borrow_mut();
+        for (_, response) in self
+            .responses
+            .drain()
+            .chain(self.fallback_responses.drain())
+        {
+            tree.delete(&response.tree_entry);
+        }
     }
 
     /// Returns the root hash of the underlying
-- 
2.43.0


From f9b6f0b94a7d66d06ce2cb9effdf6d491fcc0178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 15/23] fix: certify the range that a chunk of an asset is
 requested with

---
 .../src/asset_router.rs                       | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 464c805..56f3040 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -749,6 +749,7 @@ impl<'content> AssetRouter<'content> {
             Cow::Owned(vec![]),
             headers,
             vec![],
+            vec![],
         )?;
 
         Ok(CertifiedAssetResponse {
@@ -781,6 +782,7 @@ impl<'content> AssetRouter<'content> {
             headers.push(("content-encoding".to_string(), encoding.to_string()));
         }
 
+        let mut certified_request_headers = vec![];
         let mut request_headers = vec![];
         if let Some(range_begin) = range_begin {
             let total_length = content.len();
@@ -791,10 +793,24 @@ impl<'content> AssetRouter<'content> {
                 http::header::CONTENT_RANGE.to_string(),
                 format!("bytes {range_begin}-{range_end}/{total_length}"),
             ));
-            request_headers.push(http::header::RANGE.to_string());
+            certified_request_headers.push(http::header::RANGE.to_string());
+            // The first chunk is served without a range being requested, every other chunk to a
+            // request for the range that starts with it.
+            if range_begin > 0 {
+                request_headers.push((
+                    http::header::RANGE.to_string(),
+                    format!("bytes={range_begin}-"),
+                ));
+            }
         };
 
-        Self::prepare_response_and_certification(status_code, content, headers, request_headers)
+        Self::prepare_response_and_certification(
+            status_code,
+            content,
+            headers,
+            certified_request_headers,
+            request_headers,
+        )
     }
 
     fn prepare_response_and_certification(
@@ -802,6 +818,7 @@ impl<'content> AssetRouter<'content> {
         body: Cow<'content, [u8]>,
         additional_response_headers: Vec<(String, String)>,
         certified_request_headers: Vec<String>,
+        request_headers: Vec<(String, String)>,
     ) -> AssetCertificationResult<(HttpResponse<'content>, HttpCertification)> {
         let mut headers = vec![("content-length".to_string(), body.len().to_string())];
 
@@ -822,7 +839,7 @@ impl<'content> AssetRouter<'content> {
 
         // The path is certified by its place in the tree, and the query is not certified. A path
         // that is not encoded, as asset paths are, could not be parsed as the URL of a request.
-        let request = HttpRequest::get("/").build();
+        let request = HttpRequest::get("/").with_headers(request_headers).build();
 
         let response = HttpResponse::builder()
             .with_status_code(status_code)
-- 
2.43.0


From 45f696ff4a0db4e3b8575060d8305587ceb4b2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:18 +0000
Subject: [PATCH 16/23] sim hook: yield points and replaceable signature cache
 (cfg vp_sim)

---
 .../ic-certificate-verification/src/lib.rs    |  3 +
 .../src/signature_verification/mod.rs         |  9 +++
 .../signature_verification/signature_cache.rs | 28 ++++++--
 .../ic-certificate-verification/src/sim.rs    | 72 +++++++++++++++++++
 4 files changed, 108 insertions(+), 4 deletions(-)
 create mode 100644 packages/ic-certificate-verification/src/sim.rs

diff --git a/packages/ic-certificate-verification/src/lib.rs b/packages/ic-certificate-verification/src/lib.rs
index 89be7c0..420ec26 100644
--- a/packages/ic-certificate-verification/src/lib.rs
+++ b/packages/ic-certificate-verification/src/lib.rs
@@ -2,6 +2,9 @@
 
 mod signature_verification;
 
+#[cfg(vp_sim)]
+pub mod sim;
+
 mod error;
 pub use error::*;
 
diff --git a/packages/ic-certificate-verification/src/signature_verification/mod.rs b/packages/ic-certificate-verification/src/signature_verification/mod.rs
index ef92318..c4d0bf3 100644
--- a/packages/ic-certificate-verification/src/signature_verification/mod.rs
+++ b/packages/ic-certificate-verification/src/signature_verification/mod.rs
@@ -4,6 +4,9 @@ use miracl_core_bls12381::bls12381::bls::{core_verify, BLS_OK};
 
 mod signature_cache;
 
+#[cfg(vp_sim)]
+pub(crate) use self::signature_cache::reset_signature_cache;
+
 #[cfg(test)]
 mod reproducible_rng;
 
@@ -38,8 +41,14 @@ pub fn verify_signature(
         return Ok(());
     }
 
+    #[cfg(vp_sim)]
+    crate::sim::yield_point(crate::sim::Point::Verify);
+
     let result = core_verify(sig, msg, pk);
 
+    #[cfg(vp_sim)]
+    crate::sim::yield_point(crate::sim::Point::Verified);
+
     if !matches!(result, BLS_OK) {
         return Err(CertificateVerificationError::SignatureVerificationFailed);
     }
diff --git a/packages/ic-certificate-verification/src/signature_verification/signature_cache.rs b/packages/ic-certificate-verification/src/signature_verification/signature_cache.rs
index 59a3a98..6dc0071 100644
--- a/packages/ic-certificate-verification/src/signature_verification/signature_cache.rs
+++ b/packages/ic-certificate-verification/src/signature_verification/signature_cache.rs
@@ -2,6 +2,11 @@
 
 use cached::{Cached, SizedCache};
 
+#[cfg(vp_sim)]
+use crate::sim::Mutex;
+#[cfg(not(vp_sim))]
+use parking_lot::Mutex;
+
 #[derive(Copy, Clone, Debug, Eq, PartialEq)]
 #[cfg(test)]
 pub struct SignatureCacheStatistics {
@@ -39,13 +44,24 @@ impl SignatureCacheEntry {
 
 /// A cache for BLS signature verification
 pub(crate) struct SignatureCache {
-    cache: parking_lot::Mutex<SizedCache<SignatureCacheEntry, ()>>,
+    cache: Mutex<SizedCache<SignatureCacheEntry, ()>>,
 }
 
 lazy_static::lazy_static! {
     static ref GLOBAL_SIGNATURE_CACHE: SignatureCache = SignatureCache::new(SignatureCache::SIZE_OF_GLOBAL_CACHE);
 }
 
+#[cfg(vp_sim)]
+static SIMULATED_SIGNATURE_CACHE: std::sync::RwLock<Option<&'static SignatureCache>> =
+    std::sync::RwLock::new(None);
+
+/// Use a new global signature cache with the specified maximum size
+#[cfg(vp_sim)]
+pub(crate) fn reset_signature_cache(max_size: usize) {
+    let cache = Box::leak(Box::new(SignatureCache::new(max_size)));
+    *SIMULATED_SIGNATURE_CACHE.write().unwrap() = Some(cache);
+}
+
 impl SignatureCache {
     /// Specify the size of the global signature cache
     ///
@@ -69,14 +85,18 @@ impl SignatureCache {
 
     /// Create a new signature cache with the specified maximum size
     pub(super) fn new(max_size: usize) -> Self {
-        let cache = parking_lot::Mutex::<SizedCache<SignatureCacheEntry, ()>>::new(
-            SizedCache::with_size(max_size),
-        );
+        let cache =
+            Mutex::<SizedCache<SignatureCacheEntry, ()>>::new(SizedCache::with_size(max_size));
         Self { cache }
     }
 
     /// Return a reference to the global signature cache
     pub(crate) fn global() -> &'static Self {
+        #[cfg(vp_sim)]
+        if let Some(cache) = *SIMULATED_SIGNATURE_CACHE.read().unwrap() {
+            return cache;
+        }
+
         &GLOBAL_SIGNATURE_CACHE
     }
 
diff --git a/packages/ic-certificate-verification/src/sim.rs b/packages/ic-certificate-verification/src/sim.rs
new file mode 100644
index 0000000..6070366
--- /dev/null
+++ b/packages/ic-certificate-verification/src/sim.rs
@@ -0,0 +1,72 @@
+//! Seams for deterministic simulation. Compiled only with `--cfg vp_sim`.
+
+use crate::signature_verification::reset_signature_cache;
+use parking_lot::MutexGuard;
+use std::ops::Deref;
+use std::sync::OnceLock;
+
+/// A point in the verification of a signature where another thread may run.
+#[derive(Copy, Clone, Debug, Eq, PartialEq)]
+pub enum Point {
+    /// A lock is about to be taken.
+    Lock,
+    /// A lock was found taken. The thread cannot continue before it is released.
+    Blocked,
+    /// A lock was taken.
+    Locked,
+    /// The signature is about to be verified cryptographically.
+    Verify,
+    /// The signature was verified cryptographically, with any outcome.
+    Verified,
+}
+
+static SCHEDULER: OnceLock<fn(Point)> = OnceLock::new();
+
+/// Install the scheduler which is called by every thread at every yield point.
+pub fn set_scheduler(scheduler: fn(Point)) {
+    let _ = SCHEDULER.set(scheduler);
+}
+
+/// Use a new, empty global signature cache which can hold this number of entries.
+pub fn reset_cache(max_size: usize) {
+    reset_signature_cache(max_size);
+}
+
+pub(crate) fn yield_point(point: Point) {
+    if let Some(scheduler) = SCHEDULER.get() {
+        scheduler(point);
+    }
+}
+
+/// A [parking_lot::Mutex] that gives way to other simulated threads instead of blocking.
+pub(crate) struct Mutex<T>(parking_lot::Mutex<T>);
+
+impl<T> Mutex<T> {
+    pub(crate) fn new(value: T) -> Self {
+        Self(parking_lot::Mutex::new(value))
+    }
+
+    pub(crate) fn lock(&self) -> MutexGuard<'_, T> {
+        if SCHEDULER.get().is_none() {
+            return self.0.lock();
+        }
+
+        yield_point(Point::Lock);
+        let guard = loop {
+            match self.0.try_lock() {
+                Some(guard) => break guard,
+                None => yield_point(Point::Blocked),
+            }
+        };
+        yield_point(Point::Locked);
+        guard
+    }
+}
+
+impl<T> Deref for Mutex<T> {
+    type Target = parking_lot::Mutex<T>;
+
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
-- 
2.43.0


From d074f1e653f73afa71aea537c9aea8208d1b4e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 17/23] fix: a requested URL segment that equals http_expr, <*>
 or <$> was taken for a marker of the certification tree

The witness of a wildcard path then lacked proofs, so the honest response was
rejected, and the verifier skipped more specific wildcard paths, so a less
specific response was accepted.
---
 .../src/tree/certification_tree.rs            | 16 +++++++-----
 .../src/utils/wildcard_paths.rs               | 25 ++++++++++++++-----
 .../src/validation/v2_validation.rs           |  8 ++++--
 3 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/packages/ic-http-certification/src/tree/certification_tree.rs b/packages/ic-http-certification/src/tree/certification_tree.rs
index b888850..bbc0387 100644
--- a/packages/ic-http-certification/src/tree/certification_tree.rs
+++ b/packages/ic-http-certification/src/tree/certification_tree.rs
@@ -4,7 +4,7 @@ use super::{
 };
 use crate::{
     tree::HttpCertificationPathType,
-    utils::{more_specific_wildcards_for, PATH_PREFIX_BYTES},
+    utils::{more_specific_wildcards_for_segments, PATH_PREFIX_BYTES},
     HttpCertificationError, HttpCertificationPath, HttpCertificationResult,
 };
 use ic_certification::{labeled, labeled_hash, merge_hash_trees, AsHashTree, HashTree, NestedTree};
@@ -99,11 +99,15 @@ impl HttpCertificationTree {
 
                 // Then we need to prove that there is not a more specific wildcard in the tree that
                 // matches the request URL.
-                more_specific_wildcards_for(&requested_tree_path, &responding_tree_path)
-                    .iter()
-                    .fold(witness, |acc, path| {
-                        merge_hash_trees(acc, self.tree.witness(path))
-                    })
+                // The terminators are not part of the requested and responding URL paths.
+                more_specific_wildcards_for_segments(
+                    &requested_tree_path[..requested_tree_path.len() - 1],
+                    &responding_tree_path[..responding_tree_path.len() - 1],
+                )
+                .iter()
+                .fold(witness, |acc, path| {
+                    merge_hash_trees(acc, self.tree.witness(path))
+                })
             }
         };
 
diff --git a/packages/ic-http-certification/src/utils/wildcard_paths.rs b/packages/ic-http-certification/src/utils/wildcard_paths.rs
index 050d9dd..dd2f3fb 100644
--- a/packages/ic-http-certification/src/utils/wildcard_paths.rs
+++ b/packages/ic-http-certification/src/utils/wildcard_paths.rs
@@ -83,18 +83,31 @@ pub fn more_specific_wildcards_for(
     requested_path: &[Vec<u8>],
     responding_wildcard_path: &[Vec<u8>],
 ) -> Vec<Vec<Vec<u8>>> {
-    let mut valid_wildcards: Vec<Vec<Vec<u8>>> = vec![];
-
-    let mut potential_path = requested_path.to_vec();
-    strip_path_affixes(&mut potential_path);
+    let mut requested_path = requested_path.to_vec();
+    strip_path_affixes(&mut requested_path);
 
     let mut responding_wildcard_path = responding_wildcard_path.to_vec();
     strip_path_affixes(&mut responding_wildcard_path);
 
+    more_specific_wildcards_for_segments(&requested_path, &responding_wildcard_path)
+}
+
+/// The same as [more_specific_wildcards_for], for paths that consist of the segments of the URL path only,
+/// without the `http_expr` prefix and without the `<*>` or `<$>` terminator. A segment of a requested URL
+/// that happens to equal the prefix or a terminator is handled like any other segment.
+pub fn more_specific_wildcards_for_segments(
+    requested_path: &[Vec<u8>],
+    responding_wildcard_path: &[Vec<u8>],
+) -> Vec<Vec<Vec<u8>>> {
+    let mut valid_wildcards: Vec<Vec<Vec<u8>>> = vec![];
+
+    let mut potential_path = requested_path.to_vec();
+    let mut responding_wildcard_path = responding_wildcard_path;
+
     // if the responding wildcard path is not a valid prefix of the requested path,
     // then we start from an empty path so that we can return all valid wildcards
-    if !is_wildcard_path_valid_for_request_path(&responding_wildcard_path, &potential_path) {
-        responding_wildcard_path = vec![];
+    if !is_wildcard_path_valid_for_request_path(responding_wildcard_path, &potential_path) {
+        responding_wildcard_path = &[];
     }
 
     while potential_path.len() > responding_wildcard_path.len()
diff --git a/packages/ic-response-verification/src/validation/v2_validation.rs b/packages/ic-response-verification/src/validation/v2_validation.rs
index c3fb75b..77ff4a7 100644
--- a/packages/ic-response-verification/src/validation/v2_validation.rs
+++ b/packages/ic-response-verification/src/validation/v2_validation.rs
@@ -3,7 +3,7 @@ use ic_certification::hash_tree::HashTreeNode;
 use ic_certification::{hash_tree::Hash, HashTree, Label, SubtreeLookupResult};
 use ic_http_certification::cel::DefaultCelExpression;
 use ic_http_certification::utils::{
-    is_wildcard_path_valid_for_request_path, more_specific_wildcards_for,
+    is_wildcard_path_valid_for_request_path, more_specific_wildcards_for_segments,
     EXACT_PATH_TERMINATOR_BYTES, PATH_PREFIX_BYTES,
 };
 use ic_http_certification::CelExpression;
@@ -116,7 +116,11 @@ pub fn validate_expr_path(
     }
 
     // recursively check for partial URL matches with wildcards that are more precise than the expr_path
-    for wildcard_path in more_specific_wildcards_for(&request_url_path, &original_path).iter_mut() {
+    // the `http_expr` prefix is not part of the requested and responding URL paths
+    for wildcard_path in
+        more_specific_wildcards_for_segments(&request_url_path[1..], &potential_path[1..])
+            .iter_mut()
+    {
         wildcard_path.insert(0, PATH_PREFIX_BYTES.to_vec());
 
         if path_might_exist_in_tree(wildcard_path, tree) {
-- 
2.43.0


From b1a7777cbeb1995a3c161e1c2fe12b3881bcf81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:04 +0000
Subject: [PATCH 18/23] fix: a wildcard path of a directory was accepted for
 the path without its trailing slash

---
 packages/ic-http-certification/src/utils/wildcard_paths.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/ic-http-certification/src/utils/wildcard_paths.rs b/packages/ic-http-certification/src/utils/wildcard_paths.rs
index dd2f3fb..51c8e26 100644
--- a/packages/ic-http-certification/src/utils/wildcard_paths.rs
+++ b/packages/ic-http-certification/src/utils/wildcard_paths.rs
@@ -33,8 +33,11 @@ pub fn is_wildcard_path_valid_for_request_path(
     }
 
     // if the wildcard path includes a trailing slash then remove it and try the same check again
-    // request paths will not include trailing slashes between path elements
-    if wildcard_path.ends_with(&[PATH_DIR_SEPARATOR_BYTES.to_vec()]) {
+    // request paths will not include trailing slashes between path elements,
+    // the request path must be below the directory though, `/a/` is not valid for `/a`
+    if wildcard_path.ends_with(&[PATH_DIR_SEPARATOR_BYTES.to_vec()])
+        && request_path.len() >= wildcard_path.len()
+    {
         return request_path.starts_with(&wildcard_path[..wildcard_path.len() - 1]);
     }
 
-- 
2.43.0


From 387eb28ddbb8e2dacd589d75b1bf0f1f8a7a00d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:55 +0000
Subject: [PATCH 19/23] fix: look for more specific wildcards only as deep as
 the tree goes

A request path far longer than any path in the tree made the verifier and the
canister build all wildcards along it, which takes memory quadratic in the length
of the URL: about 2 GB for a 16 KB URL.
---
 .../src/tree/certification_tree.rs                | 14 ++++++++++++--
 .../src/validation/v2_validation.rs               | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/packages/ic-http-certification/src/tree/certification_tree.rs b/packages/ic-http-certification/src/tree/certification_tree.rs
index bbc0387..4964ce3 100644
--- a/packages/ic-http-certification/src/tree/certification_tree.rs
+++ b/packages/ic-http-certification/src/tree/certification_tree.rs
@@ -100,9 +100,19 @@ impl HttpCertificationTree {
                 // Then we need to prove that there is not a more specific wildcard in the tree that
                 // matches the request URL.
                 // The terminators are not part of the requested and responding URL paths.
+                let requested_segments = &requested_tree_path[..requested_tree_path.len() - 1];
+                let responding_segments = &responding_tree_path[..responding_tree_path.len() - 1];
+
+                // Nothing is in the tree below the first segment that is absent, and the request URL may be
+                // much longer than any path in the tree, so wildcards below that segment are not considered.
+                let known_segments_len = (1..=requested_segments.len())
+                    .find(|len| !self.tree.contains_path(&requested_segments[..*len]))
+                    .unwrap_or(requested_segments.len())
+                    .max(responding_segments.len());
+
                 more_specific_wildcards_for_segments(
-                    &requested_tree_path[..requested_tree_path.len() - 1],
-                    &responding_tree_path[..responding_tree_path.len() - 1],
+                    &requested_segments[..known_segments_len],
+                    responding_segments,
                 )
                 .iter()
                 .fold(witness, |acc, path| {
diff --git a/packages/ic-response-verification/src/validation/v2_validation.rs b/packages/ic-response-verification/src/validation/v2_validation.rs
index 77ff4a7..b25de77 100644
--- a/packages/ic-response-verification/src/validation/v2_validation.rs
+++ b/packages/ic-response-verification/src/validation/v2_validation.rs
@@ -115,11 +115,20 @@ pub fn validate_expr_path(
         });
     }
 
+    // nothing can be in the tree below the first segment that is proven to be absent,
+    // so there is no need to look for wildcards there, the URL may be much longer than any path in the tree
+    let known_path_len = (1..=request_url_path.len())
+        .find(|len| !path_might_exist_in_tree(&request_url_path[..*len], tree))
+        .unwrap_or(request_url_path.len())
+        .max(potential_path.len());
+
     // recursively check for partial URL matches with wildcards that are more precise than the expr_path
     // the `http_expr` prefix is not part of the requested and responding URL paths
-    for wildcard_path in
-        more_specific_wildcards_for_segments(&request_url_path[1..], &potential_path[1..])
-            .iter_mut()
+    for wildcard_path in more_specific_wildcards_for_segments(
+        &request_url_path[1..known_path_len],
+        &potential_path[1..],
+    )
+    .iter_mut()
     {
         wildcard_path.insert(0, PATH_PREFIX_BYTES.to_vec());
 
-- 
2.43.0


From 918498f214418b8ea5e18142f5abc20cf20169c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:55 +0000
Subject: [PATCH 20/23] fix: filter certified headers and query parameters in
 linear time

Every name of a message was compared to every name of the expression, so that a
message of one megabyte took the verifier more than ten seconds.
---
 .../src/hash/request_hash.rs                  | 24 +++++++++----------
 .../src/hash/response_hash.rs                 | 22 ++++++++---------
 2 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/packages/ic-http-certification/src/hash/request_hash.rs b/packages/ic-http-certification/src/hash/request_hash.rs
index 6a85f90..fcfec69 100644
--- a/packages/ic-http-certification/src/hash/request_hash.rs
+++ b/packages/ic-http-certification/src/hash/request_hash.rs
@@ -1,6 +1,7 @@
 use super::Hash;
 use crate::{cel::DefaultRequestCertification, HttpCertificationResult, HttpRequest};
 use ic_representation_independent_hash::{hash, representation_independent_hash, Value};
+use std::collections::HashSet;
 
 /// Calculates the
 /// [Representation Independent Hash](https://internetcomputer.org/docs/current/references/ic-interface-spec/#hash-of-map)
@@ -32,20 +33,20 @@ pub fn request_hash<'a>(
     Ok(hash(concatenated_hashes.as_slice()))
 }
 
+fn lowercase_names(names: &[&str]) -> HashSet<String> {
+    names.iter().map(|name| name.to_ascii_lowercase()).collect()
+}
+
 fn get_filtered_headers(
     headers: &[(String, String)],
     request_certification: &DefaultRequestCertification,
 ) -> Vec<(String, Value)> {
+    let headers_to_include = lowercase_names(&request_certification.headers);
+
     headers
         .iter()
         .filter_map(|(header_name, header_value)| {
-            let is_header_included =
-                request_certification
-                    .headers
-                    .iter()
-                    .any(|header_to_include| {
-                        header_to_include.eq_ignore_ascii_case(&header_name.to_string())
-                    });
+            let is_header_included = headers_to_include.contains(&header_name.to_ascii_lowercase());
 
             if !is_header_included {
                 return None;
@@ -60,6 +61,8 @@ fn get_filtered_headers(
 }
 
 fn get_filtered_query(query: &str, request_certification: &DefaultRequestCertification) -> String {
+    let query_params_to_include = lowercase_names(&request_certification.query_parameters);
+
     let filtered_query_string = query
         .split('&')
         .filter(|query_fragment| {
@@ -68,12 +71,7 @@ fn get_filtered_query(query: &str, request_certification: &DefaultRequestCertifi
 
             query_param_name
                 .map(|query_param_name| {
-                    request_certification
-                        .query_parameters
-                        .iter()
-                        .any(|query_param_to_include| {
-                            query_param_to_include.eq_ignore_ascii_case(query_param_name)
-                        })
+                    query_params_to_include.contains(&query_param_name.to_ascii_lowercase())
                 })
                 .unwrap_or(false)
         })
diff --git a/packages/ic-http-certification/src/hash/response_hash.rs b/packages/ic-http-certification/src/hash/response_hash.rs
index 861158e..9be279a 100644
--- a/packages/ic-http-certification/src/hash/response_hash.rs
+++ b/packages/ic-http-certification/src/hash/response_hash.rs
@@ -1,6 +1,7 @@
 use super::Hash;
 use crate::{cel::DefaultResponseCertificationType, DefaultResponseCertification, HttpResponse};
 use ic_representation_independent_hash::{hash, representation_independent_hash, Value};
+use std::collections::HashSet;
 
 /// The name of the IC-Certificate header.
 pub const CERTIFICATE_HEADER_NAME: &str = "IC-Certificate";
@@ -25,22 +26,21 @@ pub fn filter_response_headers(
     response: &HttpResponse,
     response_certification: &DefaultResponseCertification<'_>,
 ) -> ResponseHeaders {
-    let headers_filter: Box<dyn Fn(_) -> _> = match response_certification.get_type() {
+    let (listed_headers, include_listed_headers) = match response_certification.get_type() {
         DefaultResponseCertificationType::CertifiedResponseHeaders(headers_to_include) => {
-            Box::new(move |header_name: &String| {
-                headers_to_include.iter().any(|header_to_include| {
-                    header_to_include.eq_ignore_ascii_case(&header_name.to_string())
-                })
-            })
+            (headers_to_include, true)
         }
         DefaultResponseCertificationType::ResponseHeaderExclusions(headers_to_exclude) => {
-            Box::new(move |header_name: &String| {
-                !headers_to_exclude.iter().any(|header_to_exclude| {
-                    header_to_exclude.eq_ignore_ascii_case(&header_name.to_string())
-                })
-            })
+            (headers_to_exclude, false)
         }
     };
+    let listed_headers: HashSet<String> = listed_headers
+        .iter()
+        .map(|header_name| header_name.to_ascii_lowercase())
+        .collect();
+    let headers_filter = |header_name: &String| {
+        listed_headers.contains(&header_name.to_ascii_lowercase()) == include_listed_headers
+    };
 
     let mut response_headers = ResponseHeaders {
         headers: vec![],
-- 
2.43.0


From 0ffed3a4b088938873405d5137c1ec4d5755bea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:19 +0000
Subject: [PATCH 21/23] fix: hash the decoded body of a version 1 response
 without holding it in memory

---
 .../src/verification/body.rs                  | 47 +++++++++++++++----
 .../verify_request_response_pair.rs           |  5 +-
 2 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/packages/ic-response-verification/src/verification/body.rs b/packages/ic-response-verification/src/verification/body.rs
index 211d8a0..e3b8f31 100644
--- a/packages/ic-response-verification/src/verification/body.rs
+++ b/packages/ic-response-verification/src/verification/body.rs
@@ -1,29 +1,60 @@
 use crate::error::ResponseVerificationResult;
 use flate2::read::{DeflateDecoder, GzDecoder};
+use ic_certification::hash_tree::Hash;
+use sha2::{Digest, Sha256};
 use std::io::Read;
 
 const MAX_CHUNK_SIZE_TO_DECOMPRESS: usize = 1_024;
 
-pub fn decode_body(body: &[u8], encoding: Option<&str>) -> ResponseVerificationResult<Vec<u8>> {
+/// Returns the hash of the decoded body.
+///
+/// A small body can decode to a very large one, so the decoded body is hashed chunk by chunk
+/// and never held in memory as a whole.
+pub fn decoded_body_hash(body: &[u8], encoding: Option<&str>) -> ResponseVerificationResult<Hash> {
+    let mut hasher = Sha256::new();
+    decode_body_chunks(body, encoding, |chunk| hasher.update(chunk))?;
+
+    Ok(hasher.finalize().into())
+}
+
+#[cfg(test)]
+fn decode_body(body: &[u8], encoding: Option<&str>) -> ResponseVerificationResult<Vec<u8>> {
+    let mut decoded = Vec::new();
+    decode_body_chunks(body, encoding, |chunk| decoded.extend_from_slice(chunk))?;
+
+    Ok(decoded)
+}
+
+fn decode_body_chunks(
+    body: &[u8],
+    encoding: Option<&str>,
+    mut on_chunk: impl FnMut(&[u8]),
+) -> ResponseVerificationResult {
     match encoding {
-        Some("gzip") => body_from_decoder(GzDecoder::new(body)),
-        Some("deflate") => body_from_decoder(DeflateDecoder::new(body)),
-        _ => Ok(body.to_owned()),
+        Some("gzip") => chunks_from_decoder(GzDecoder::new(body), on_chunk),
+        Some("deflate") => chunks_from_decoder(DeflateDecoder::new(body), on_chunk),
+        _ => {
+            on_chunk(body);
+
+            Ok(())
+        }
     }
 }
 
-fn body_from_decoder<D: Read>(mut decoder: D) -> ResponseVerificationResult<Vec<u8>> {
-    let mut decoded = Vec::new();
+fn chunks_from_decoder<D: Read>(
+    mut decoder: D,
+    mut on_chunk: impl FnMut(&[u8]),
+) -> ResponseVerificationResult {
     let mut buffer = [0u8; MAX_CHUNK_SIZE_TO_DECOMPRESS];
 
     loop {
         let bytes = decoder.read(&mut buffer)?;
 
         if bytes == 0 {
-            return Ok(decoded);
+            return Ok(());
         }
 
-        decoded.extend_from_slice(&buffer[..bytes]);
+        on_chunk(&buffer[..bytes]);
     }
 }
 
diff --git a/packages/ic-response-verification/src/verification/verify_request_response_pair.rs b/packages/ic-response-verification/src/verification/verify_request_response_pair.rs
index e7ad10b..43e3f4d 100644
--- a/packages/ic-response-verification/src/verification/verify_request_response_pair.rs
+++ b/packages/ic-response-verification/src/verification/verify_request_response_pair.rs
@@ -1,4 +1,4 @@
-use super::{body::decode_body, certificate_header::CertificateHeader};
+use super::{body::decoded_body_hash, certificate_header::CertificateHeader};
 use crate::{
     cel::{map_cel_ast, parse_cel_expression},
     error::{ResponseVerificationError, ResponseVerificationResult},
@@ -139,8 +139,7 @@ fn v1_verification(
     )?;
 
     let request_path = request.get_path()?;
-    let decoded_body = decode_body(response.body(), encoding)?;
-    let decoded_body_sha = hash(decoded_body.as_slice());
+    let decoded_body_sha = decoded_body_hash(response.body(), encoding)?;
 
     if !validate_tree(canister_id, &certificate, &tree) {
         return Err(ResponseVerificationError::InvalidTree);
-- 
2.43.0


From 75bfa1f7574bd0891111532f97eb41d917085a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:19 +0000
Subject: [PATCH 22/23] fix: a CBOR length beyond 32 bits was truncated where
 pointers have 32 bits

---
 packages/ic-cbor/src/cbor_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index d00cbbc..5f4b79d 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -39,7 +39,8 @@ impl CborUnsignedInt {
             CborUnsignedInt::UInt8(v) => v as usize,
             CborUnsignedInt::UInt16(v) => v as usize,
             CborUnsignedInt::UInt32(v) => v as usize,
-            CborUnsignedInt::UInt64(v) => v as usize,
+            // a length that does not fit is longer than any input
+            CborUnsignedInt::UInt64(v) => usize::try_from(v).unwrap_or(usize::MAX),
         }
     }
 
-- 
2.43.0


From 2932c526a9aba3db23f7a1e4dc7fbaed6ff0d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:19 +0000
Subject: [PATCH 23/23] fix: a response with an invalid status code crashed the
 JavaScript binding

---
 .../ic-response-verification-wasm/src/lib.rs  |  8 ++++---
 .../src/response.rs                           | 22 ++++++++++++++-----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/packages/ic-response-verification-wasm/src/lib.rs b/packages/ic-response-verification-wasm/src/lib.rs
index 6c19790..ed0d24d 100644
--- a/packages/ic-response-verification-wasm/src/lib.rs
+++ b/packages/ic-response-verification-wasm/src/lib.rs
@@ -1,10 +1,11 @@
 #![deny(clippy::all)]
 
 use crate::request::request_from_js;
-use crate::response::response_from_js;
+use crate::response::try_response_from_js;
 use ic_response_verification::{
     types::VerificationInfo, verify_request_response_pair as verify_request_response_pair_impl,
-    ResponseVerificationJsError, MAX_VERIFICATION_VERSION, MIN_VERIFICATION_VERSION,
+    ResponseVerificationError, ResponseVerificationJsError, MAX_VERIFICATION_VERSION,
+    MIN_VERIFICATION_VERSION,
 };
 use wasm_bindgen::{prelude::*, JsCast};
 
@@ -53,7 +54,8 @@ pub fn verify_request_response_pair(
     min_requested_verification_version: u8,
 ) -> Result<JsVerificationInfo, ic_response_verification::ResponseVerificationJsError> {
     let request = request_from_js(JsValue::from(request));
-    let response = response_from_js(JsValue::from(response));
+    let response =
+        try_response_from_js(JsValue::from(response)).map_err(ResponseVerificationError::from)?;
 
     verify_request_response_pair_impl(
         request.into(),
diff --git a/packages/ic-response-verification-wasm/src/response.rs b/packages/ic-response-verification-wasm/src/response.rs
index 172c78e..4f69713 100644
--- a/packages/ic-response-verification-wasm/src/response.rs
+++ b/packages/ic-response-verification-wasm/src/response.rs
@@ -1,4 +1,4 @@
-use ic_http_certification::HttpResponse;
+use ic_http_certification::{HttpCertificationError, HttpResponse, StatusCode};
 use wasm_bindgen::{prelude::*, JsCast};
 
 #[wasm_bindgen(typescript_custom_section)]
@@ -10,7 +10,11 @@ interface Response {
 }
 "#;
 
-pub fn response_from_js(resp: JsValue) -> HttpResponse<'static> {
+/// Converts a response, unless its status code is not one that HTTP allows. The status code is
+/// chosen by the canister, or by whoever relays its response, so it cannot be trusted.
+pub fn try_response_from_js(
+    resp: JsValue,
+) -> Result<HttpResponse<'static>, HttpCertificationError> {
     use js_sys::{Array, JsString, Number, Object, Uint8Array};
 
     let status_code_str = JsString::from("status_code");
@@ -47,11 +51,19 @@ pub fn response_from_js(resp: JsValue) -> HttpResponse<'static> {
         }
     }
 
-    HttpResponse::builder()
-        .with_status_code(status_code.try_into().unwrap())
+    let status_code = StatusCode::from_u16(status_code)
+        .map_err(|_| HttpCertificationError::InvalidHttpStatusCode { status_code })?;
+
+    Ok(HttpResponse::builder()
+        .with_status_code(status_code)
         .with_headers(headers)
         .with_body(body)
-        .build()
+        .build())
+}
+
+#[cfg(test)]
+pub fn response_from_js(resp: JsValue) -> HttpResponse<'static> {
+    try_response_from_js(resp).unwrap()
 }
 
 #[cfg(test)]
-- 
2.43.0

