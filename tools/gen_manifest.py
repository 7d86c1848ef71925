#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(ROOT+"/properties.jsonl")]
SIM="stateful property-based testing: generated operation/fault histories on a deterministic simulated cluster running the real code, checked by "
PURE="property-based testing: generated inputs and operation sequences against "
T={
"C01":SIM+"an election-safety oracle over durable votes and grants",
"C02":SIM+"a global registry of log ids and stored entries",
"C03":SIM+"a leader-completeness oracle over applied and acknowledged entries",
"C04":SIM+"a durable-quorum oracle at the first apply of each entry",
"C05":SIM+"a single reference state machine all nodes must follow",
"C06":SIM+"a reference history of acknowledged and refused writes",
"C07":SIM+"a linearizability floor (acknowledged and read positions before each read)",
"C08":SIM+"the durable vote of each node's simulated disk",
"C09":SIM+"the durable image of each node's simulated disk at every acknowledgement",
"C10":SIM+"before/after images of nodes receiving stale requests",
"C11":SIM+"a membership algebra over every membership entry logged",
"C12":SIM+"the reference state at each snapshot's last log id",
"C13":SIM+"the purge calls compared with durable snapshots and settings",
"C14":SIM+"the virtual times of accepted leader messages and grants",
"C15":SIM+"bounded progress and convergence after faults cease",
"C16":SIM+"every published metrics value compared with the simulated storage",
"C17":SIM+"tracking of every API call and of redirect contents",
"C18":SIM+"injected storage errors and what is revealed after them",
"C19":SIM+"the durable image at restart compared with the restored state",
"C20":SIM+"initialize outcomes compared with the state before",
"C21":SIM+"byte comparison of snapshots received in chunks",
"C22":SIM+"voter-set oracles over campaigns, quorums and leadership",
"C23":SIM+"transfer requests compared with later leadership and writes",
"C24":SIM+"submission order compared with log ids, execution counts",
"C27":SIM+"panic, livelock and leftover-task detection",
"C28":SIM+"log and learner state at the moment of each success",
"D01":PURE+"brute-force quorum enumeration",
"D02":PURE+"a set-based reference of the membership algebra",
"D03":PURE+"a naive full log",
"D04":PURE+"a reference parser and validator",
"D05":PURE+"order axioms and a tuple reference",
}
NOTE_SIM=("Randomised search with a fixed seed over histories of clusters of 1..5 real nodes (real openraft code, every await a scheduling point, virtual time); "
 "trusts the simulated disk and network of the harness (writes durable in order, unflushed tail may be lost) and its oracles; no real threads.")
NOTE_PURE="Randomised search with a fixed seed over generated inputs; small domains (ids, positions, config sizes) are covered densely, no exhaustiveness is claimed."
checks=[];na=[]
NA={}
extra=os.path.join(ROOT,"tools","manifest_extra.json")
if os.path.exists(extra):
    x=json.load(open(extra)); T.update(x.get("technique",{})); NA.update(x.get("na",{}))
for p in props:
    i=p["id"]
    if i in T:
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",technique=T[i],level="exploration",
            level_note=NOTE_SIM if T[i].startswith(SIM) else NOTE_PURE))
    else:
        na.append(dict(property=i,reason=NA.get(i,"not built yet")))
hooks=subprocess.check_output(["git","-C","/repo","log","--format=%H %s","589c986..HEAD"],text=True)
hc=[l.split()[0] for l in hooks.splitlines() if " hook:" in l]
m=dict(version=1,setup_cmd="./check.sh setup",
 hooks=dict(guard="cfg(openraft_verif)",enable='RUSTFLAGS --cfg openraft_verif, set by /verif/harness/.cargo/config.toml',source_commits=hc),
 checks=checks,not_applicable=na,
 notes="Known findings are listed in known_findings.json; replay a counterexample with ./check.sh replay FILE.")
json.dump(m,open(ROOT+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"not claimed")
