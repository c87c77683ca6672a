//! Which simulations decide which property, and how many runs of each.
use std::collections::BTreeSet;

pub struct PlanJob {
    pub engine: &'static str,
    pub profile: &'static str,
    pub runs: u64,
}

/// (engine, profile, quick runs, thorough runs)
fn table(p: &str) -> Vec<(&'static str, &'static str, u64, u64)> {
    match p {
        "C01" => vec![("http", "C01", 4000, 60_000)],
        "C02" => vec![("http", "C02", 4000, 60_000), ("load", "C02", 400, 6000)],
        "C03" => vec![("http", "C03", 4000, 60_000)],
        "C04" => vec![("http", "C04", 4000, 60_000)],
        "C05" => vec![("http", "C05", 4000, 60_000)],
        "C06" => vec![("http", "C06", 4000, 60_000)],
        "C07" => vec![("http", "C07", 4000, 60_000)],
        "C08" => vec![("http", "C08", 3000, 40_000)],
        "C09" => vec![("cache", "C09", 1500, 30_000)],
        "C10" => vec![("http", "C10", 3000, 40_000), ("wire", "C10", 60_000, 1_500_000), ("load", "C10", 600, 8000)],
        "C11" => vec![("http", "C11", 4000, 60_000), ("load", "C11", 60, 1000)],
        "C12" => vec![("http", "C12", 4000, 60_000)],
        "C13" => vec![("http", "C13", 4000, 60_000)],
        "C14" => vec![("map", "C14", 20_000, 300_000)],
        "C15" => vec![("map", "C15", 20_000, 400_000)],
        "C16" => vec![("map", "C16", 30_000, 600_000), ("wire", "C20", 15_000, 300_000)],
        "C17" => vec![("asset", "C17", 3000, 50_000)],
        "C18" => vec![("asset", "C18", 2000, 30_000)],
        "C19" => vec![("asset", "C19", 1100, 18_000)],
        "C20" => vec![("http", "C20", 3000, 50_000), ("map", "C20", 8_000, 100_000), ("wire", "C20", 30_000, 500_000)],
        "C21" => vec![("http", "C21", 900, 14_000), ("wire", "C21", 1600, 20_000), ("load", "C21", 150, 2000)],
        _ => vec![],
    }
}

pub fn jobs(p: &str, thorough: bool) -> Vec<PlanJob> {
    table(p)
        .into_iter()
        .map(|(engine, profile, q, t)| PlanJob { engine, profile, runs: if thorough { t } else { q } })
        .collect()
}

fn per_engine(e: &BTreeSet<&str>, f: impl Fn(&str) -> Vec<&'static str>) -> Vec<String> {
    let mut v: Vec<String> = e.iter().flat_map(|e| f(e).into_iter().map(move |s| format!("{e}: {s}"))).collect();
    v.dedup();
    v
}

pub fn state_measure(e: &BTreeSet<&str>) -> Vec<String> {
    per_engine(e, |e| match e {
        "http" => vec!["hash of (operation or tampering kinds, kind of certified entry, relation of request to entry, verdict of the code and of the reference)"],
        "cache" => vec!["hash of the schedule of one concurrent phase: which thread ran at which yield point (distinct interleavings), plus cache size, verdict and cache use of each verification"],
        "asset" => vec!["hash of (operation, requested place and how it is certified, encoding, range and removal history, verdict), plus download length, faults and outcome"],
        "load" => vec!["hash of (what is large, how large, verdict)"],
        "wire" => vec!["hash of (kind of message, damage it took on the way, verdict, size class)"],
        "map" => vec!["hash of (operation, size and depth class of the tree, or kind of witness, key relation and lookup verdict)"],
        _ => vec![],
    })
}

pub fn real(e: &BTreeSet<&str>) -> Vec<String> {
    per_engine(e, |e| match e {
        "http" => vec![
            "canister side: ic-http-certification (CEL builder, hashing, HttpCertificationTree, witnesses, headers), ic-certification trees",
            "gateway side: ic-response-verification, ic-certificate-verification (with the real BLS library and signature cache), ic-cbor",
        ],
        "cache" => vec!["ic-certificate-verification: Certificate::verify, delegations, verify_signature, the global SignatureCache, the real BLS library, several real threads"],
        "asset" => vec![
            "canister side: ic-asset-certification (AssetRouter, AssetMap, configurations), ic-http-certification, ic-certification trees",
            "gateway side: ic-response-verification, ic-certificate-verification, ic-cbor",
        ],
        "load" => vec!["ic-http-certification (tree, witnesses, hashing, headers), ic-response-verification, ic-certificate-verification, ic-cbor"],
        "js" => vec!["ic-response-verification-wasm and everything below it, compiled to WebAssembly without the simulator's hooks, loaded by node through its wasm-bindgen glue, one process per run"],
        "wire" => vec!["ic-cbor decoders, ic-certification (HashTree, Certificate, serde), ic-certificate-verification, ic-response-verification (headers, expressions)"],
        "map" => vec!["ic-certification: RbTree, NestedTree, HashTree, lookups, pruning, merging, serde codec; ic-cbor parsers; ic-representation-independent-hash"],
        _ => vec![],
    })
}

pub fn stubs(e: &BTreeSet<&str>) -> Vec<String> {
    per_engine(e, |e| match e {
        "http" => vec![
            "the Internet Computer: simulated subnets, state trees, certification rounds, delegations; certificates are signed with real BLS keys known to the simulator",
            "replicas, boundary nodes and network: simulated, including byzantine ones",
            "clocks: the gateway clock is an argument of the verifier and is simulated",
            "operating system randomness: seeded",
        ],
        "cache" => vec![
            "thread scheduler: threads run one at a time, the seed decides at every yield point (locks, before and after the cryptographic verification)",
            "the capacity of the global cache is set per run; subnets and their certificates are simulated",
        ],
        "asset" => vec![
            "the Internet Computer: simulated root subnet, certification rounds; certificates signed with a real BLS key known to the simulator",
            "the asset canister's messages and upgrades, replicas (also byzantine), the network between clients and replicas: simulated",
            "clocks and operating system randomness: simulated and seeded",
        ],
        "js" => vec!["the page or service worker around the JavaScript gateway: jsgw/driver.cjs hands messages over and reports what came back"],
        "load" => vec!["clients, canister messages, a root subnet and one with a delegation (real BLS keys), the network: simulated"],
        "wire" => vec!["senders (honest and byzantine) and the network that loses, duplicates, splices, restructures and damages messages: simulated; independent codec (sim/src/refimpl/cbor.rs)"],
        "map" => vec!["the canister around the map (messages, traps, upgrades): simulated", "the replica that prunes or alters trees: simulated", "reader: independent hash tree model (sim/src/refimpl/rtree.rs)"],
        _ => vec![],
    })
}

pub fn assumptions(e: &BTreeSet<&str>) -> Vec<String> {
    let mut v = vec![
        "seeded sampling: what was not reached is not decided".to_string(),
        "SHA-256 and BLS12-381 (miracl) are sound; the simulated adversary does not break them".to_string(),
    ];
    v.extend(per_engine(e, |e| match e {
        "cache" => vec!["interleavings between yield points are sequentially consistent: data races below the lock are excluded by safe Rust"],
        "asset" => vec![
            "the router model in sim/src/asset_engine.rs states the documented meaning of configurations correctly",
            "each location has one owner at a time: configurations which put two assets at one location are not generated, their meaning is undocumented",
        ],
        "http" => vec!["the reference model in sim/src/refimpl states the protocol correctly"],
        _ => vec![],
    }));
    v
}
