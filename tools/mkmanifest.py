#!/usr/bin/env python3
"""Writes ../MANIFEST.json and validates it."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))
T={
"C01":"output oracle over generated lockfiles (ground-truth monitor)","C02":"output oracle over generated lockfiles and include graphs (ground-truth monitor)",
"C03":"output oracle over generated lockfiles (ground-truth monitor)","C04":"output oracle over generated lockfiles (ground-truth monitor)",
"C05":"output oracle over generated CSV texts (reference reader)","C06":"online reference evaluation of advisories against every reported finding",
"C07":"monitor of range decisions against known ordered version ladders","C08":"trace checker of reported findings against alias graphs",
"C09":"differential monitor of runs with and without ignores","C10":"monitor of findings and requests against the expected config of each lockfile",
"C11":"offline checker over histories of config updates (file snapshots, faults)","C12":"differential monitor of dir and zip loaders with bad neighbours",
"C13":"recorded HTTP and cache histories with injected faults, checked by a reference model","C14":"recording proxy and strace as network monitors",
"C15":"request log checker with permuting, delaying and failing API server","C16":"Go race detector under permuted and delayed schedules",
"C17":"exit code monitor over worlds with injected failures","C18":"output format checker and cross-rendering comparison",
"C19":"repeated executions under perturbed schedules compared byte by byte","C20":"crash and hang monitor under structure-aware mutation",
"C21":"monitor of selected files and parsers against a reference selection","C22":"differential monitor of joint and separate runs",
"C23":"file system snapshots and strace as write monitors","C24":"request log checker and findings oracle with a fake osv.dev","C25":"monitor of findings, requests and database names against a reference of the config",
}
NOTE={
"C16":"Dynamic race detection on the executions that happened (happens-before, so no false reports), spread over many server schedules and GOMAXPROCS values; races on paths that were not executed are not seen.",
"C14":"Observes every request at a recording proxy/server and, for a part of the runs, every network system call; holds for the executions that were run.",
"C23":"Compares complete snapshots of the scratch tree and, for a part of the runs, the write-opening system calls; holds for the executions that were run.",
}
props=[json.loads(l)["id"] for l in open(os.path.join(here,'..','properties.jsonl'))]
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[],
"notes":"All checks observe the real program built from /repo's working tree; no hooks in /repo are needed. known-findings.txt lists the defects that were found and fixed."}
for p in props:
    m["checks"].append({"property":p,"quick_cmd":f"bash run.sh {p} quick","thorough_cmd":f"bash run.sh {p} thorough","technique":"runtime monitoring: "+T[p],
      "level":"fault_enumeration" if p in () else "exploration",
      "level_note":NOTE.get(p,"Every execution of a seeded, generated workload is judged by an independent oracle; the guarantee covers the executions observed (counts in the evidence), not all inputs. Trusts the generators' ground truth and the reference model in harness/.")})
with open(os.path.join(here,'..','MANIFEST.json'),'w') as f: json.dump(m,f,indent=1); f.write('\n')
try:
    import jsonschema
    jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError: pass
print(len(m["checks"]))
