#!/usr/bin/env python3
"""Regenerates MANIFEST.json (and the table of DESIGN.md between its markers) from propdoc.py and jobs.py."""
import json, os, sys, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import jobs, propdoc
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))}
NA = [dict(property=p, reason=r) for p, r in propdoc.NA] if hasattr(propdoc, "NA") else []
TRUST = "Within the bounds every path is followed and every assertion decided by z3 or by the expression normaliser (itself cross-checked against z3 by engine/exfuzz.cpp); the evidence says when a bound was cut short. Trusted: clang's front end and the sroa/simplifycfg passes, the symx executor (sampled paths are run natively and compared), z3. "
m = dict(version=1, setup_cmd="python3 check.py setup", hooks=dict(guard="none", enable="no hooks: the library is compiled as it is, with its own tommy_malloc/tommy_free redefinition points", source_commits=[]), checks=[], not_applicable=NA,
    notes="check.py Pxx compiles /repo's working tree to LLVM IR with the harnesses, executes it symbolically (build/symx, z3), replays counterexamples natively. See DESIGN.md.")
for p in sorted(props):
    if any(n["property"] == p for n in NA): continue
    d = propdoc.D[p]
    m["checks"].append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p, evidence_file="evidence/%s.json" % p, technique="symbolic execution of the LLVM IR of the real code with z3, native replay of counterexamples", level="model_checking", level_note=TRUST + "Bounds: " + d["bounds"] + ". Outside: " + d["outside"] + "."))
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
f = os.path.join(H, "DESIGN.md"); s = open(f).read()
t = ""
for p in sorted(props):
    d = propdoc.D[p]; t += "### %s %s\n\n%s  \n*Bounds:* %s.  \n*Outside:* %s.  \n*Jobs:* %d quick, %d thorough.\n\n" % (p, props[p]["title"], d["decides"], d["bounds"], d["outside"], len(jobs.jobs(p, "quick")), len(jobs.jobs(p, "thorough")))
s = re.sub(r"(<!-- properties -->\n).*?(<!-- /properties -->)", lambda x: x.group(1) + "\n" + t + x.group(2), s, flags=re.S); open(f, "w").write(s)
