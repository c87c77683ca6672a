"""Automatic mutants: python3 tools/automut.py SEED PER_FILE [PATH-FILTER...]
Small syntactic changes (operators, conditions, constants, dropped statements) to the original source. Each is built and
judged by the quick checks of the properties its package serves, stopping at the first alarm; the stable tests are run for
those no check noticed, so that what remains is what needs a look. Run it through tools/mw.sh."""
import json, os, random, re, subprocess, sys, time
R = "/repo/packages"
PROPS = [
    ("ic-certification/src/rb_tree", "C14 C13 C18"),
    ("ic-certification/src/nested_rb_tree", "C15 C13 C20"),
    ("ic-certification/src/hash_tree", "C16 C14 C02 C20"),
    ("ic-certification/src/certificate", "C08 C02 C09"),
    ("ic-cbor/", "C10 C20 C02 C16 C08"),
    ("ic-certificate-verification/", "C08 C09 C07 C02"),
    ("ic-representation-independent-hash/", "C20 C02 C04"),
    ("ic-http-certification/src/utils/wildcard", "C03 C02 C13"),
    ("ic-http-certification/src/tree", "C13 C20 C02 C12"),
    ("ic-http-certification/src/hash", "C20 C04 C05 C02"),
    ("ic-http-certification/src/cel", "C20 C05 C02 C04"),
    ("ic-http-certification/src/http", "C02 C04 C05 C20 C17"),
    ("ic-http-certification/src/utils", "C20 C06 C02"),
    ("ic-response-verification/src/validation/v1", "C11 C02 C20"),
    ("ic-response-verification/src/validation/common", "C08 C07 C11 C02"),
    ("ic-response-verification/src/validation/v2", "C03 C01 C02 C12"),
    ("ic-response-verification/src/cel", "C10 C04 C05 C06 C02 C20"),
    ("ic-response-verification/src/verification", "C02 C01 C12 C05 C11 C10 C20"),
    ("ic-response-verification/src/types", "C05 C02"),
    ("ic-asset-certification/", "C17 C18 C19"),
]
SUBS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > (?=[a-z0-9(*])", " >= "), (r" >= ", " > "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - (?=[a-z0-9(])", " + "), (r" \+ 1\b", ""), (r" - 1\b", ""),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
    (r"\bif !", "if "), (r"\bif (?=[a-z_.]+[( ])(?!let)", "if !"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
    (r"starts_with", "ends_with"), (r"ends_with", "starts_with"), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"),
    (r"\.rev\(\)", ""), (r"\.sort\(\);", ";"), (r"\.to_ascii_lowercase\(\)", ".to_string()"), (r"\.to_lowercase\(\)", ".to_string()"),
    (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"cmp::min", "cmp::max"), (r"\.trim\(\)", ""), (r"\.skip\(1\)", ""),
    (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"Ordering::Less", "Ordering::Greater"), (r"Ordering::Greater", "Ordering::Less"),
    (r"\.is_empty\(\)", ".len() == 1"), (r"\b0\.\.", "1.."), (r"(?<=[\[(, ])1(?=[\]), ;])", "0"), (r"(?<=[\[(, ])0(?=[\]), ;])", "1"), (r"(?<=[\[(, ])2(?=[\]), ;])", "1"),
    (r"\.find\(", ".rfind("), (r"\.split_once\(", ".rsplit_once("), (r"\.splitn\(", ".rsplitn("), (r"\.next\(\)", ".last()"),
    (r"\.clone\(\)", ".clone()"), (r"\bLeft\b", "Right"), (r"\bRight\b", "Left"), (r"\.left\b", ".right"), (r"\.right\b", ".left"),
    (r"Some\([a-z_]+\)(?=[,;)]?$)", "None"), (r"LookupResult::Absent", "LookupResult::Unknown"), (r"LookupResult::Unknown", "LookupResult::Absent"),
]
def files():
    out = []
    for d, p in PROPS:
        for root, _, fs in os.walk(R):
            for f in fs:
                q = os.path.join(root, f)
                rel = q[len(R) + 1:]
                if rel.startswith(d) and f.endswith(".rs") and "tests" not in rel and "fixtures" not in f and "sim.rs" not in f and not f.endswith("error.rs"):
                    if q not in [x[0] for x in out]:
                        out.append((q, p.split()))
    return out
def sites(q):
    s = open(q).read().split("\n")
    out = []
    fn = False
    for i, l in enumerate(s):
        if "#[cfg(test)]" in l:
            break
        t = l.strip()
        if re.search(r"\bfn \w+", l): fn = True
        if not fn or t.startswith(("//", "#", "use ", "pub use", "pub fn", "fn ", "impl", "///", "pub(crate) fn", "where")): continue
        if "write!" in l or "panic" in l or "cfg" in l: continue
        for a, b in SUBS:
            for m in re.finditer(a, l):
                n = l[:m.start()] + b + l[m.end():]
                if n != l: out.append((i, n))
        if re.match(r"^\s+[\w.]+\([^;]*\)\??;$", l) or re.match(r"^\s+[\w.]+\.(push|insert|extend|remove|pop|sort|retain|truncate)\w*\(.*\);$", l):
            out.append((i, re.match(r"\s*", l).group() + "{}"))
    return out
seed, per = int(sys.argv[1]), int(sys.argv[2])
filt = sys.argv[3:]
rnd = random.Random(seed)
jobs = []
for q, p in files():
    if filt and not any(f in q for f in filt): continue
    ss = sites(q)
    rnd.shuffle(ss)
    jobs += [(q, p, i, n) for i, n in ss[:per]]
rnd.shuffle(jobs)
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
print(len(jobs), "mutants", flush=True)
for q, props, i, n in jobs:
    orig = open(q).read()
    ls = orig.split("\n")
    old = ls[i]
    ls[i] = n
    rel = q[len(R) + 1:]
    t0 = time.time()
    try:
        open(q, "w").write("\n".join(ls))
        res, caught = [], False
        for p in props:
            try:
                r = subprocess.run(["bash", "/verif/tools/check.sh", p, "quick"], capture_output=True, text=True, cwd="/verif", timeout=880)
            except subprocess.TimeoutExpired:
                res.append(p + "=TIMEOUT"); caught = True; break
            if r.returncode not in (0, 1):
                res.append(f"{p}={r.returncode}")
                break
            if r.returncode == 1:
                l = [x for x in r.stdout.splitlines() if x.startswith("run ")]
                res.append(f"{p}! {l[0][:90] if l else ''}"); caught = True
                break
        tag = "caught" if caught else "BUILD" if res else "?"
        if tag == "?":
            subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/am.json"], capture_output=True, text=True)
            got = set(json.load(open("/tmp/am.json"))["passed"])
            tag = "MISSED" if not base - got else f"tests only ({len(base-got)})"
        print(f"{tag} | {rel}:{i+1} | {old.strip()} => {n.strip()} | {' '.join(res)} | {time.time()-t0:.0f}s", flush=True)
    finally:
        open(q, "w").write(orig)
