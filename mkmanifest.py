#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json,os
V=os.path.dirname(os.path.abspath(__file__)); NA={
"C30":"a pure function of its call sequence, with no schedule, clock, fault or interleaving; the buffer is exercised inside the simulated system by C02, C06 and C20",
"C31":"a pure data structure with no schedule, clock, fault or interleaving; it is exercised inside the simulated system by all other properties",
"C32":"the dissector needs the wireshark headers, which are not installed, and is a pure function of captured bytes"}
P=[json.loads(l) for l in open(V+"/properties.jsonl")]; checks=[]
for p in P:
    if p["id"] in NA: continue
    checks.append({"property":p["id"],"quick_cmd":f"python3 check.py {p['id']} --tier quick","thorough_cmd":f"python3 check.py {p['id']} --tier thorough","evidence_file":f"evidence/{p['id']}.json",
     "technique":"deterministic simulation with fault injection: seeded search over schedules and fault sequences, judged against an executable reference model",
     "level":"exploration","level_note":"Sampled, not exhaustive: thousands of seeded whole-system runs per check with the real library code under a simulated kernel, network, clock and allocator. Trusts the simulated TCP/UDP semantics, the model of the application's event loop and the oracles in sim/oracle.cpp and sim/app.cpp."})
json.dump({"version":1,"setup_cmd":"python3 sim/build.py","hooks":{"guard":"RMC_SIM","enable":"the checks compile /repo's library sources with -DRMC_SIM (and -DRMC_SIM_MAX_PACKET=<n> for the small-packet builds) in /verif/build","source_commits":["7f7bff7","df7f591"]},"checks":checks,
 "not_applicable":[{"property":k,"reason":r} for k,r in NA.items()],
 "notes":"python3 check.py replay FILE [--trace] reproduces a violation. DESIGN.md explains everything else."},open(V+"/MANIFEST.json","w"),indent=1)
