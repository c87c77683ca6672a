#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=hook)))
RV="packages/ic-response-verification/src/"
HC="packages/ic-http-certification/src/"
CV="packages/ic-certificate-verification/src/"
IC="packages/ic-certification/src/"
CB="packages/ic-cbor/src/"
AC="packages/ic-asset-certification/src/"
RI="packages/ic-representation-independent-hash/src/"

prop("C01","Only responses the canister certified are accepted (v2 soundness)",
 "Whenever verify_request_response_pair accepts a version 2 response and returns its contents, the named canister had, in some state whose certificate is inside the accepted time window, certified for a path matching the request exactly that certification expression together with exactly that status code, certified header set and body. No combination of replayed, mixed, truncated, pruned, tampered or corrupted responses, certificates, trees, expression paths or headers may make any other response be accepted.",
 ["inputs","histories","fault_sequences"],
 "every request, every canister history of insertions and deletions, every replica/network behaviour including byzantine splicing of any previously produced evidence",
 "Unit tests and the e2e tests check a few fixed tampered fixtures; most e2e tests run with certificate verification disabled. Soundness quantifies over every adversarial recombination of all evidence a canister ever produced, which a handful of examples cannot sample.",
 [RV+"verification/verify_request_response_pair.rs",RV+"validation/v2_validation.rs",RV+"validation/common_validation.rs",RV+"verification/certificate_header.rs",HC+"hash/response_hash.rs",CV+"certificate_verification.rs"],
 [("v2_verification","chains certificate, tree digest, expression path and hash checks"),("validate_hashes","looks up [expr_hash, request_hash, response_hash] below the expression path"),("validate_tree","ties the tree digest to the canister's certified_data")],
 observe=["Ok(VerificationInfo{response: Some(..)}) returned by verify_request_response_pair"])
prop("C02","Honestly certified and served responses are accepted (v2 completeness)",
 "Every response that a canister certified in its current tree through the public certification API and serves unmodified, with the certificate for that state, the witness and expression path produced by the library for the request and any letter case or order of headers, is accepted by verify_request_response_pair while the certificate is inside the time window. In particular, after any sequence of network, replica and canister faults stops, every certified path verifies again as soon as one fresh certificate is available.",
 ["inputs","histories","configurations","fault_sequences"],
 "every set of certified paths (nested, shared prefixes, wildcards), every expression configuration, every insert/delete/upgrade history and fault prefix",
 "Tests cover fixed small trees. Whether a witness discloses everything the verifier needs (absence of more specific paths, neighbours of deleted keys) depends on the shape of the whole tree and the request path.",
 [HC+"tree/certification_tree.rs",HC+"utils/wildcard_paths.rs",HC+"utils/response_header.rs",IC+"rb_tree/mod.rs",IC+"nested_rb_tree.rs",RV+"validation/v2_validation.rs",RV+"cel/parser.rs",RV+"cel/ast_mapping.rs"],
 [("HttpCertificationTree::witness","reveals the entry and the absence of more specific paths"),("add_v2_certificate_header","encodes certificate, tree and expression path"),("parse_cel_expression/map_cel_ast","must accept every expression the builder can create")],
 observe=["Err(..) for an unmodified honest response"])
prop("C03","A less specific certified path never overrides a more specific one",
 "A response certified at a wildcard path is accepted for a request only if the certified tree contains neither an entry for the request's exact path nor any wildcard entry that matches the request and is more specific. A response certified at an exact path is accepted only for a request with precisely that path (trailing slash significant, compared after URL percent-decoding), and a wildcard only for requests at or below its prefix.",
 ["inputs","histories","fault_sequences"],
 "every certified tree, every request path, every subset of the tree a byzantine replica may choose to reveal",
 "The unit tests list a few path pairs. The guarantee is about every relation of request path, expression path and tree contents, and about trees pruned by an adversary to hide the better match.",
 [RV+"validation/v2_validation.rs",HC+"utils/wildcard_paths.rs",HC+"tree/certification_tree.rs",HC+"tree/certification_tree_path.rs",IC+"hash_tree/mod.rs"],
 [("validate_expr_path","requires proofs of absence for exact path and every more specific wildcard"),("more_specific_wildcards_for","enumerates the candidates")],
 observe=["accept/reject of a wildcard response while a better match exists in the certified tree"])
prop("C04","A certified response is bound to the certified parts of its request",
 "When an entry certifies the request, its response is accepted only for requests whose method, certified headers, certified query parameters (presence, values and order, and whether there is a query string at all) and body equal those certified, whatever else the request carries. Parts of a request that the expression does not certify, and header letter case or position, never change the outcome; the request path always does.",
 ["inputs","histories","fault_sequences"],
 "every pair of certified request and delivered request differing in any part, every expression configuration",
 "Tests compare single fixtures; the property relates pairs of requests and is about every way two requests can differ, including duplicated headers and query parameters.",
 [HC+"hash/request_hash.rs",HC+"http/http_request.rs",RV+"verification/verify_request_response_pair.rs",RV+"validation/v2_validation.rs",HC+"tree/certification.rs"],
 [("request_hash","hash over method, filtered headers, filtered query and body"),("validate_hashes","request hash is a label on the certified path")],
 observe=["accept/reject when response and request are from different exchanges"])
prop("C05","Verification returns exactly the certified content",
 "The status code, headers and body returned as verified are exactly the ones covered by the certification: every certified header with its value, in no case a header the expression excludes, apart from the two certification headers themselves. Headers added, altered or duplicated in transit never appear in the returned value unless certified, and the verification outcome does not depend on uncertified headers.",
 ["inputs","histories","fault_sequences"],
 "every response header multiset and every response header certification mode (certified list, exclusion list, empty lists)",
 "The returned value is a function of attacker-controlled header multisets; tests check a few lists without duplicates, case variants or injected headers.",
 [RV+"verification/verify_request_response_pair.rs",RV+"types/verified_response.rs",HC+"hash/response_hash.rs",HC+"cel/cel_types.rs"],
 [("filter_response_headers","keeps only certified headers"),("VerificationInfo","carries filtered headers to the caller")],
 observe=["VerificationInfo.response contents"])
prop("C06","Skipping certification requires the canister's certified consent",
 "A version 2 response is accepted without content verification only if the canister certified the skip expression itself at the matching path, and then no content is returned as verified and any status, header and body pass. A response whose certified entry requires verification is never accepted through a skip expression supplied by the network.",
 ["inputs","histories","fault_sequences"],
 "every tree mixing skip and verified entries on overlapping paths, every substitution of expression header and path",
 "Tests check one skip tree. The downgrade from verified to skipped depends on which expressions coexist in a tree and on precedence between their paths.",
 [RV+"verification/verify_request_response_pair.rs",RV+"validation/v2_validation.rs",HC+"utils/skip_certification.rs",HC+"tree/certification.rs"],
 [("validate_expr_hash","skip requires the expression hash below the expression path")],
 observe=["Ok with response None"])
prop("C07","Stale or future certificates are rejected at every clock value",
 "For every certificate time T, gateway clock N and allowed offset D (all representable values), a certificate is accepted only if |T - N| <= D, both bounds inclusive, and an otherwise valid certificate inside that window is not rejected for its time. Evaluating the window never panics, wraps or saturates into accepting a certificate outside it.",
 ["inputs","schedules","fault_sequences"],
 "every clock skew, clock jump, message delay and offset configuration, including extreme values",
 "Tests sample comfortable values on either side; skewed and extreme clocks, inclusive bounds and arithmetic limits are not reached.",
 [CV+"certificate_verification.rs",CB+"cbor_parse_certificate.rs",IC+"certificate.rs"],
 [("verify_certificate_time","window check around the gateway's clock")],
 observe=["accept/reject against simulated clocks"])
prop("C08","Only the subnet that hosts a canister can vouch for it",
 "A certificate is accepted for a canister only if its tree is signed by the trusted root key, or by the key of a subnet which a root-signed, non-nested delegation names and whose canister ranges (inclusive bounds) in that delegation contain the canister. The certified data used is the one stored under that same canister's id; keys, delegations, ranges, signatures or data of another subnet, canister or network are never accepted, while every honestly issued delegation is.",
 ["inputs","histories","fault_sequences","configurations"],
 "every topology of subnets and canister ranges, every splice of delegation, certificate, signature, key and canister id",
 "Most e2e tests have certificate verification disabled and the unit tests exercise a fixed two-subnet set-up; byzantine subnets, boundary ids, reassigned ranges and nested delegations need adversarial recombination.",
 [CV+"certificate_verification.rs",CV+"signature_verification/mod.rs",RV+"validation/common_validation.rs",CB+"cbor_parser.rs"],
 [("verify_delegation","checks range membership and recursion"),("verify_certificate_signature","BLS over domain-separated root hash"),("validate_tree","/canister/<id>/certified_data lookup")],
 observe=["accept/reject of certificates issued by rogue or unrelated subnets"])
prop("C09","Signature caching never changes a verification result",
 "The outcome of verifying a certificate is the same as verifying its signature from scratch, whatever certificates were verified before or concurrently by other threads, in any interleaving and for any number of cached entries and evictions. In particular a signature that was rejected, or that was valid for another message or key, is never accepted later, and concurrent verifications neither deadlock nor panic.",
 ["schedules","histories","inputs"],
 "every interleaving of verifying threads and every history of valid and invalid signatures, at any cache occupancy",
 "The unit tests exercise the cache container single-threaded with random keys; none relates cached outcomes to signature truth, or runs concurrent verifications with evictions.",
 [CV+"signature_verification/mod.rs",CV+"signature_verification/signature_cache.rs"],
 [("SignatureCache","global LRU of verified (key, signature, message) digests"),("verify_signature","check cache, verify, insert")],
 state=[dict(name="GLOBAL_SIGNATURE_CACHE",meaning="digests of triples that verified",where=CV+"signature_verification/signature_cache.rs")],
 observe=["Ok/Err of Certificate::verify per simulated thread"],
 hook="yield points around cache lookup, verification and insertion, and a settable cache capacity")
prop("C10","Untrusted responses never crash or hang the verifier",
 "For every byte sequence received as certificate, tree, expression path, certificate header, expression header, request or response - including any truncation, corruption, nesting depth or declared length - verification and parsing return a result or an error. They never panic, abort, overflow the stack, exhaust memory or fail to finish in time proportional to the input.",
 ["inputs","fault_sequences"],
 "every corruption of every message field, arbitrary CBOR nesting and lengths, arbitrary header strings",
 "Tests feed well-formed or mildly malformed values; resource exhaustion through declared lengths and nesting is out of their reach.",
 [CB+"cbor_parser.rs",CB+"cbor_parse_hash_tree.rs",CB+"cbor_parse_certificate.rs",RV+"verification/certificate_header.rs",RV+"verification/certificate_header_field.rs",RV+"cel/parser.rs",RV+"verification/body.rs",HC+"http/http_request.rs"],
 [("parse_cbor","length, depth and type handling"),("parse_cel_expression","recursive descent parser")],
 observe=["process death, panic or step budget overrun of the verifying process"])
prop("C11","Legacy (v1) asset responses are accepted only with a certified body",
 "A version 1 response is accepted exactly when the SHA-256 of its body, raw or after decoding its declared content encoding, is the value the canister certified for the request path, or for /index.html when the presented tree shows no value for the request path. Only the body is returned as verified: never a status code or headers.",
 ["inputs","histories","fault_sequences"],
 "every asset tree, every body, every encoding header and every pruning of the tree",
 "Tests use two or three fixed assets; mixes of encodings, overlapping paths, replayed bodies and mutated trees are not reached.",
 [RV+"verification/verify_request_response_pair.rs",RV+"validation/v1_validation.rs",RV+"verification/body.rs"],
 [("v1_verification","certificate, tree and body checks"),("validate_body","path lookup with index.html fallback"),("decode_body","gzip/deflate decoding")],
 observe=["accept/reject and VerificationInfo of version 1 responses"])
prop("C12","The verification version cannot be downgraded",
 "A response is verified under the version named in its certificate header, 1 when it names none, and is rejected when that version is below the gateway's required minimum or is not one this library supports. A gateway that requires version 2 therefore never accepts evidence through the weaker version 1 rules, however the network rewrites, drops or duplicates version fields.",
 ["inputs","configurations","fault_sequences"],
 "every minimum version, every version field value including missing, malformed and duplicated ones",
 "Tests check single constants; the interplay of duplicated fields, missing fields, dual v1/v2 trees and minimum settings is not covered.",
 [RV+"verification/verify_request_response_pair.rs",RV+"verification/certificate_header.rs",RV+"verification/certificate_header_field.rs"],
 [("version dispatch","verify_request_response_pair"),("CertificateHeader::from","version parsing and default")],
 observe=["verification_version of accepted responses"])
prop("C13","The HTTP certification tree certifies exactly the live entries",
 "After any history of insert, delete, clear and rebuild operations on the HTTP certification tree, its root hash certifies exactly the live entries: every live entry can be witnessed and verified, and no evidence from the current state verifies a deleted, cleared or never inserted one. Deleting one entry never removes or invalidates another, even one sharing its path, expression or request, and every witness reconstructs to the tree's current root hash.",
 ["histories","crash_points","inputs"],
 "every operation history including repeats, deletions of absent entries, and a crash, trap rollback or upgrade with rebuild at any point",
 "Tests use one or two inserts and deletes; entries sharing prefixes, expressions or request hashes and long histories are not explored.",
 [HC+"tree/certification_tree.rs",HC+"tree/certification_tree_entry.rs",HC+"tree/certification_tree_path.rs",HC+"tree/certification.rs",IC+"nested_rb_tree.rs"],
 [("HttpCertificationTree::{insert,delete,clear,witness,root_hash}","history-sensitive operations")],
 observe=["root_hash, witness digests, verification outcome per entry after each operation"])
prop("C14","The certified map behaves as a map with truthful witnesses",
 "After any history of insert, update, modify and delete, the certified map returns the same gets, iteration order and entries as an ordered map, stays within its depth bound, and every witness of a key, a key's absence, a key range, a prefix or the keys alone reconstructs to the current root hash. A reader holding only such a witness and the root hash concludes exactly the true value or absence of the requested keys, and every pair inside a requested range.",
 ["histories","inputs"],
 "every operation history and every key, range and prefix (present, absent, adjacent, empty)",
 "The unit tests cover sampled shapes of insertion with few deletes; rebalancing after mixed histories and witnesses at every boundary are not.",
 [IC+"rb_tree/mod.rs",IC+"hash_tree/mod.rs"],
 [("RbTree::{insert,delete,modify}","rebalancing with incremental hashes"),("witness/value_range/key_range/keys/keys_with_prefix/nested_witness","proof construction")],
 observe=["get/iter, root_hash, witness digest and lookups"])
prop("C15","The nested certified map keeps every path's value provable",
 "After any history of insertions, deletions, deletions of subtrees and clears over nested paths, the nested map answers path and key queries like an ordered map of paths, and each witness it produces has the current root hash as digest. From such a witness a reader learns the true value of the requested present path and a proof of absence, never a wrong value, for an absent one; merging two such witnesses keeps what both prove.",
 ["histories","inputs"],
 "every history over paths that share prefixes, extend or replace each other",
 "Tests use three-element fixtures; replacing a leaf by a subtree, emptying subtrees and absent siblings in deep histories are not explored.",
 [IC+"nested_rb_tree.rs",IC+"rb_tree/mod.rs"],
 [("NestedTree::{insert,delete,clear,witness,get,contains_path,contains_leaf}","path-recursive operations")],
 observe=["queries, digest and lookups after each operation"])
prop("C16","Lookups in pruned hash trees never lie",
 "For every well-ordered hash tree and every pruning of it, the pruned tree has the same root hash, and a path or subtree lookup in it answers Found only with the value in the full tree, Absent only if the full tree has no such path, and Unknown otherwise; with nothing pruned it is never Unknown. This survives serialisation by the canister-side encoder and parsing by the verifier-side decoder.",
 ["inputs","fault_sequences"],
 "every tree shape (including empty subtrees and degenerate forks), every pruning a replica may choose, every path",
 "Tests enumerate the specification's sample tree; arbitrary shapes with empty nodes and arbitrary prunings are outside.",
 [IC+"hash_tree/mod.rs",CB+"cbor_parse_hash_tree.rs"],
 [("lookup_path/lookup_subtree/list_paths","ordered search with three-valued result"),("HashTreeNode::digest/reconstruct","domain-separated hashing")],
 observe=["LookupResult of full versus pruned tree"])
prop("C17","Served assets are the right asset and always verify",
 "After any history of asset operations, the asset router answers a GET request with the live asset for that path, alias, redirect or the innermost fallback scope, in the best encoding the client accepts, with the configured headers and body; it errors only if there is none, or if a byte range is requested that the asset's partial responses do not announce. Every response it serves is accepted by response verification together with the current certificate, and its body decodes to the asset's content.",
 ["histories","configurations","inputs"],
 "every set of assets, configurations, encodings, aliases, fallbacks, redirects and every request",
 "Tests use a fixed set of assets and compare to fixed responses, verifying with the certificate checks disabled.",
 [AC+"asset_router.rs",AC+"asset_config.rs",AC+"asset_map.rs",AC+"asset.rs"],
 [("AssetRouter::{certify_assets,serve_asset}","route map plus certification tree")],
 observe=["serve_asset result, and its verification by the gateway"])
prop("C18","Updated or deleted assets can no longer be certified",
 "Once an asset, encoding, alias, fallback or redirect is deleted, or its content replaced, and the new root hash is certified, the router no longer serves it and no evidence obtainable from the current tree verifies the old response. All other assets, including entries the application put into the same tree, keep being served and verifying.",
 ["histories","crash_points"],
 "every history of certify, re-certify, delete and delete-all over overlapping assets, encodings and large assets, with upgrades in between",
 "Tests delete from a fixed set and check the serving maps, not whether the old response can still be proven against the new root.",
 [AC+"asset_router.rs",AC+"asset_map.rs",HC+"tree/certification_tree.rs"],
 [("AssetRouter::{certify_assets,delete_assets,delete_all_assets}","remove from the maps and the tree")],
 observe=["verification of every previously served response against the new root"])
prop("C19","Large assets are reassembled exactly from verified chunks",
 "For an asset larger than the chunk size, a client that follows the ranges announced by the served partial responses, in any order and with lost, duplicated or reordered messages, receives verified chunks that concatenate to exactly the asset's bytes. Each partial response carries status 206 and the correct content range, and no chunk verifies for another range, encoding or asset version.",
 ["histories","inputs","fault_sequences","schedules"],
 "every size around multiples of the chunk size, every encoding, every range request order, with updates in between",
 "Tests check two sizes, fetch ranges in order and do not verify the later chunks with their actual range requests.",
 [AC+"asset_router.rs",AC+"asset.rs",AC+"asset_map.rs"],
 [("chunked certification","one certified 206 response per chunk"),("range parsing","serve_asset on Range header")],
 observe=["reassembled bytes, per-chunk verification"])
prop("C20","Certification evidence is wire compatible with the specification",
 "Everything the canister-side library emits - expression strings, request and response hashes, tree layout and root hash, certificate and expression headers, CBOR - is understood and accepted by an independent implementation of the Internet Computer response verification specification, and its hashes equal the ones that implementation computes. Everything such an independent canister emits for the same content is accepted by this verifier, so deployed canisters and gateways of different versions keep interoperating. The request and response messages of the HTTP gateway interface cross in both directions (Candid) with the method, URL, path, query, headers, body, status and flags that were sent.",
 ["inputs","configurations","histories"],
 "every certified content and configuration, in both directions",
 "A change applied symmetrically to the shared hashing or encoding code keeps every round-trip test passing while breaking deployed peers; only a few fixed vectors pin the format.",
 [HC+"hash/response_hash.rs",HC+"hash/request_hash.rs",HC+"cel/create_cel_expr.rs",HC+"utils/response_header.rs",HC+"tree/certification_tree.rs",RI+"representation_independent_hash.rs",HC+"http/http_request.rs",HC+"http/http_response.rs",IC+"hash_tree/mod.rs",IC+"certificate.rs",CB+"cbor_parse_hash_tree.rs",CB+"cbor_parse_certificate.rs"],
 [("representation independent hash","maps to hashes"),("CEL creation","certified expression text"),("header and CBOR encoding","certificate header value")],
 observe=["cross-verification between the library and the independent peer"])
prop("C21","JavaScript gateways reach the same verdicts as native ones",
 "For every request and response, canister id, current time, time offset, key and minimum version, verifyRequestResponsePair of the JavaScript binding (the verifier compiled to 32 bit WebAssembly) accepts exactly what verify_request_response_pair accepts, and returns the same verification version, status code, headers and body; what is rejected throws a ResponseVerificationError with the code of the same error. Whatever a canister or the network put into a response - its status code, headers, evidence or body, damaged, extremely large or deeply nested - the module never traps: a response whose status code is none that HTTP allows is rejected with an error too.",
 ["inputs","configurations","fault_sequences","histories"],
 "every message that canisters, replicas and networks, honest or byzantine, can hand to a gateway, and every clock and configuration of that gateway",
 "The tests convert single objects in each direction; none hands the binding evidence, let alone damaged evidence, and nearly all of the verifier's tests run natively with 64 bit integers, overflow checks and a large stack, not as the WebAssembly module that service workers load.",
 ["packages/ic-response-verification-wasm/src/lib.rs","packages/ic-response-verification-wasm/src/request.rs","packages/ic-response-verification-wasm/src/response.rs",RV+"error.rs",RV+"types/verification_result.rs",RV+"types/verified_response.rs",RV+"verification/verify_request_response_pair.rs",CB+"cbor_parser.rs",CB+"cbor_parse_hash_tree.rs"],
 [("request_from_js/response_from_js","host objects to HTTP messages"),("From<VerificationInfo>/From<VerifiedResponse> for JsValue","verdicts to host objects"),("ResponseVerificationJsError","errors to codes")],
 observe=["what verifyRequestResponsePair returns, throws or traps with"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=True)+"\n")
print(len(P))
for p in P: assert len(p["title"])<=80,(p["id"],len(p["title"]))
