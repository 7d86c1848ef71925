#!/usr/bin/env python3
"""Writes known_findings.json (run by hand; checks only read the file)."""
import json, subprocess, os
findings = [
 dict(property="C15", sig="removed-voters-block-election",
      what="a node removed by an uncommitted config does not campaign, yet its longer log makes it refuse the remaining voters, whose joint config still needs its vote: no leader can be elected any more (pinned history removed_voters_block_election)",
      where="openraft/src/core/raft_core.rs (tick election requires is_voter of the effective config); openraft/src/engine/engine_impl.rs handle_vote_req",
      history="2 nodes {1,2}, n1 leads, change_membership([2]); the joint config is committed, n1 logs the uniform config [2], is cut off, n2 campaigns with a higher term, the link heals: n1 is deposed, n2 needs n1's vote and has the shorter log"),
 dict(property="C02", sig="restarted-leader-reuses-log-ids",
      what="a leader that lost unflushed but already replicated entries in a crash resumes leadership under its stored committed vote and assigns the same log ids to other entries (pinned history restarted_leader_reuses_log_ids)",
      where="openraft/src/engine/engine_impl.rs Engine::startup (restores leadership from a committed own vote); replication sends entries before the local append is flushed",
      history="3 nodes, n1 leads with n3 cut off; op2 is appended on n1 (not yet flushed) and replicated to n2; n1 crashes losing op2, restarts as leader without an election, and appends op3 under op2's log id"),
]
fixed = []
out = subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s","589c986..HEAD"],text=True)
props = {
 "43c78e6":"C27","e3981e4":"C04","786d25b":"C16","80d7cea":"C27","2cee779":"C27","2062325":"C17","836184c":"C15","4edb0c5":"C27",
 "90e56c5":"C27","a0c089e":"C19","d513189":"C27","22e382d":"C07","dfa9d01":"C27","a40064b":"C27","b5e5a74":"C27","eb9a5f5":"C02",
 "227496a":"C27","c66e299":"C22","2fdb68d":"C17","69074e2":"C27",
}
for l in out.splitlines():
    h,s = l.split(" ",1)
    if not s.startswith("fix:"): continue
    fixed.append(f"fixed: property={props[h]} {h} {s[4:].strip()}")
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"known_findings.json")
json.dump(dict(findings=findings, fixed=fixed), open(p,"w"), indent=1)
