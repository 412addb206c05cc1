#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NUM = "exploration by generated arguments (all 2^32 floats, stratified doubles) against a high precision reference; trusts glibc/libquadmath within 1 ulp"
T = {
 "P01": ("generated-input search against a high precision reference", NUM),
 "P02": ("generated-input search against a high precision reference", NUM),
 "P03": ("generated-input search against a high precision reference and between functions", NUM),
 "P04": ("generated-input search against a high precision reference", NUM),
 "P05": ("generated-input search against a high precision reference", NUM),
 "P06": ("generated-input search against a high precision reference", NUM),
 "P07": ("generated-input search against a high precision reference", NUM),
 "P08": ("generated-input search against a high precision reference", NUM),
 "P11": ("generated-input search against a special value table", "all floats and stratified doubles for which the table demands a value, scalar and array"),
 "P12": ("metamorphic relations over generated arguments", "all floats (outer binades sampled in quick) and stratified doubles; exact comparison of two calls"),
 "P14": ("generated-input search with floating point flags as oracle", "all floats (outer binades sampled in quick) and stratified doubles, scalar and array; trusts the hardware flags of the gcc default build"),
 "P16": ("differential testing of build configurations over generated arguments", "16 compiler/optimisation/ISA builds, compared bit for bit with the default build or (FMA) with the reference"),
 "P17": ("statistical test over generated arguments against a correctly rounded reference", "60 million uniform arguments per function; standard error below 1e-3"),
}
exec(open(os.path.join(V, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "manifest_more.py")) else None
NA = []
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash bin/setup.sh", hooks=dict(guard="none", enable="no hooks: /repo carries only fix commits; the checks reach everything through the public headers, generators and programs", source_commits=[]),
 checks=[dict(property=p, quick_cmd="python3 bin/check.py %s quick" % p, thorough_cmd="python3 bin/check.py %s thorough" % p, evidence_file="evidence/%s.json" % p,
   technique="property-based testing: " + T[p][0], level="exploration", level_note=T[p][1]) for p in props if p in T],
 not_applicable=NA + [dict(property=p, reason="check not built yet") for p in props if p not in T],
 notes="bin/check.py <property> <tier> builds from /repo into build/ (removed at exit); bin/check.py <property> --replay FILE replays a failure; known_findings.txt lists repaired defects and known findings.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
