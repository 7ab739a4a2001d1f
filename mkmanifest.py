#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json,os,sys
V=os.path.dirname(os.path.abspath(__file__)); sys.path[:0]=[V+"/lib",V+"/checks"]
T={
"C01":"AddressSanitizer and UBSan monitors (plus crash, hang and memory-growth monitors) over the real tosser fed structure-aware hostile mail",
"C25":"AddressSanitizer and UBSan monitors (plus crash and hang monitors) over every command line tool fed hostile files and arguments",
}
DEF="offline monitor over recorded executions of the real programs: an independent model decides what every message base, outbound packet, flow file and configuration must contain after each run"
NOTE={"C11":"kill injected at every file-system call of sampled runs; sampled histories","C12":"one fault injected at every file-system call of sampled runs; sampled histories"}
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
m={"version":1,"setup_cmd":"python3 lib/build.py","checks":[],"not_applicable":[],
 "notes":"All checks: python3 run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]. They rebuild the programs from /repo's working tree into /verif/.build (ignored by git), link c/hook.c (virtual clock) into them, and run them as an unprivileged user in a scratch directory. No source hooks in /repo."}
for p in props:
    f=V+"/checks/%s.py"%p["id"].lower()
    if os.path.exists(f):
        import importlib; mod=importlib.import_module(p["id"].lower())
        m["checks"].append({"property":p["id"],"quick_cmd":"python3 run.py %s --tier quick"%p["id"],"thorough_cmd":"python3 run.py %s --tier thorough"%p["id"],
          "technique":getattr(mod,"TECHNIQUE",None) or T.get(p["id"],DEF),"level":mod.LEVEL,"level_note":NOTE.get(p["id"]) or getattr(mod,"NOTE",None) or "every execution of a random workload is judged; the workload is sampled, not exhaustive: "+mod.RULE,
          "evidence_file":"evidence/%s.json"%p["id"]})
    else: m["not_applicable"].append({"property":p["id"],"reason":"check under construction"})
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
