#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, re, sys
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l)["id"] for l in open(os.path.join(root,"properties.jsonl"))]
plan=open(os.path.join(root,"sim/src/plan.rs")).read()
have=set(re.findall(r'"(C\d\d)" => vec!\[\(',plan))
TECH={
 "http":"deterministic simulation of canisters, subnets, byzantine replicas, network, clocks and gateway, with fault injection, checked against an independent reference model",
 "map":"deterministic simulation of operation histories with crash/restart and byzantine pruning, refined against an ordered map",
 "asset":"deterministic simulation of an asset canister and its clients over a faulty network, with upgrades and byzantine replay",
 "cache":"deterministic simulation of verifying threads under a seeded scheduler with the shared signature cache",
 "load":"deterministic simulation of canister and gateway under messages of extreme size, with metered memory, allocation and processor time",
 "wire":"deterministic simulation of a byzantine peer sending damaged and hostile bytes, with metered memory, stack and time",
}
LEVEL={}
checks=[]
for p in props:
    if p not in have: continue
    eng=[]
    m=re.search(r'"%s" => vec!\[(.*?)\],?\n'%p,plan)
    for e in re.findall(r'\("(\w+)", "C\d\d"',m.group(1)):
        if e not in eng: eng.append(e)
    if p=="C21": TECH_P="deterministic simulation of canisters, network and two gateways, native and JavaScript (WebAssembly under node), with fault injection; the verdicts of both are compared"
    else: TECH_P="; ".join(TECH[e] for e in eng)
    checks.append(dict(property=p,quick_cmd=f"bash tools/check.sh {p} quick",thorough_cmd=f"bash tools/check.sh {p} thorough",
        technique=TECH_P,level="exploration",
        level_note="Seeded sampling of whole-system runs; every failure is minimised and replays exactly. Trusts SHA-256, the BLS library, and the reference model in sim/src/refimpl; coverage is what evidence/%s.json reports."%p))
na=[dict(property=p,reason="check under construction") for p in props if p not in have]
man=dict(version=1,setup_cmd="bash tools/build.sh",checks=checks,not_applicable=na,
  notes="One simulator (sim/) with several engines. Replay a finding with: sim/target/release/sim replay out/<file>.json. Recorded and repaired findings: known-findings.txt. See DESIGN.md.")
hooks=os.path.join(root,"tools/hooks.json")
if os.path.exists(hooks): man["hooks"]=json.load(open(hooks))
json.dump(man,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1); print(len(checks),len(na))
