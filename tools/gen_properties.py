#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
       "why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],
                  "observe_at":observe or [],"hook_needed":hook}}
    P.append(d)
E="openraft/src/"
SCHED="every interleaving of node tasks, message delay/loss/duplication/reordering, partition, node crash/restart and admin/client call"
p("C01","Election safety: one leader per vote, elected by a durable quorum",
  "No two node incarnations that disagree on the log ever lead under the same vote, and a node leads under a vote only if a quorum of every member set in its own effective config has durably granted that very vote. A node that holds or has granted a greater vote never grants a smaller one, and a vote is granted only to a candidate whose last log id is not behind the voter's own.",
  ["schedules","crash_points","fault_sequences"],"for "+SCHED+", clusters of 1..5 nodes with membership changes",
  "Integration tests run a handful of fixed election scenarios; vote splits, lost or duplicated vote replies, crash between granting and persisting, and elections during joint membership are never explored.",
  [E+"engine/engine_impl.rs",E+"engine/handler/vote_handler/mod.rs",E+"proposer/candidate.rs",E+"vote/vote.rs"],
  [("vote request handling","engine_impl.rs handle_vote_req"),("quorum counting of grants","proposer/candidate.rs grant_by"),("vote persistence before reply","core/raft_core.rs run_command SaveVote / Respond conditions")],
  ["vote RPC replies","durable vote in the log store","metrics current_leader/vote/state"])
p("C02","Log matching: same log id implies same entry and same preceding log",
  "If two nodes ever hold an entry with the same log id, the entries have the same payload and the entry before each has the same log id. Within one node the log ids are strictly increasing with consecutive indexes and never contain a hole.",
  ["schedules","crash_points","fault_sequences"],"for "+SCHED,
  "Tests compare final logs of a few scripted conflicts; they do not generate reordered, duplicated, stale or partially accepted append requests combined with truncation, crash and snapshot.",
  [E+"engine/handler/following_handler/mod.rs",E+"engine/handler/leader_handler/mod.rs",E+"replication/mod.rs"],
  [("prev-log-id check and truncation","following_handler append_entries/truncate_logs"),("leader assigns log ids","leader_handler leader_append_entries")],
  ["log store contents"])
p("C03","Leader completeness: a committed entry is in every later leader's log",
  "Once an entry is applied or acknowledged as committed anywhere, every node that later leads under a greater vote has that entry (same log id) in its log or covered by its snapshot. A committed entry is never truncated or replaced on any node that holds it in a quorum.",
  ["schedules","crash_points","fault_sequences"],"for "+SCHED+" including membership change across the commit point",
  "Needs the conjunction of an election, a commit and a failure at specific points; tests sample a few.",
  [E+"engine/engine_impl.rs",E+"progress/mod.rs",E+"engine/handler/replication_handler/mod.rs"],
  [("last-log-id comparison on vote","engine_impl.rs handle_vote_req"),("commit only entries of own term by quorum","replication_handler try_commit_quorum_accepted / Leader noop")],
  ["state machine apply stream","log store contents"])
p("C04","Commit rule: an entry is applied only after a durable quorum holds it",
  "When any node first applies an entry, that entry is durably stored (or covered by a durable snapshot) on a quorum of every voter set of the config in force, counting only voters and counting the leader itself only after its own flush. The commit point reported to followers and users never moves backwards.",
  ["schedules","crash_points","fault_sequences"],"for every interleaving of flush completions, replication acks, duplicated/stale acks, membership change and commit notification in clusters of 1..7 voters",
  "Tests use stores that flush immediately, so acknowledging, counting or committing before durability is invisible to them, and the vote-count arithmetic is only sampled on a few hand-written configurations.",
  [E+"progress/mod.rs",E+"engine/handler/replication_handler/mod.rs",E+"quorum/joint_impl.rs",E+"core/raft_core.rs"],
  [("quorum-accepted computation","progress/mod.rs VecProgress::update_with"),("matching from follower's flushed response","core/raft_core.rs + replication_handler update_matching/update_local_progress")],
  ["durable view of each node's simulated disk at the first apply"])
p("C05","State machine safety: every node applies the same sequence exactly once",
  "Every state machine applies entries strictly in log order, each index exactly once (continuing after its snapshot or its recovered applied position), and all nodes apply the same entry at the same index. Hence any two state machines that have applied up to the same log id are equal, including the membership they record.",
  ["schedules","crash_points","fault_sequences"],"for "+SCHED+", with persistent and snapshot-only state machines",
  "Tests compare stores after quiet runs; replays after restart, apply racing with snapshot install, and leader changes mid-apply are not explored.",
  [E+"core/sm/worker.rs",E+"engine/handler/following_handler/mod.rs",E+"storage/helper.rs",E+"core/raft_core.rs"],
  [("apply range and order","core/sm/worker.rs apply / raft_core apply_to_state_machine"),("re-apply after restart","storage/helper.rs get_initial_state/reapply")],
  ["RaftStateMachine::apply/install_snapshot calls"])
p("C06","Acknowledged writes: durable, applied once, with the right response",
  "A write that returned success is present at the returned log id in every surviving cluster state from then on, its effect is applied exactly once per log id, and the response is the state machine's result for exactly that request. A successful write never reports a log id that carries a different request, and a write that was refused because the node is not the leader, before any log held it, is never applied.",
  ["schedules","crash_points","fault_sequences","histories"],"for concurrent client histories on any node under "+SCHED,
  "Tests await a few writes on a quiet cluster; response/log-id mix-ups and losses only show with leadership changes, overlapping log indexes and concurrent clients.",
  [E+"core/raft_core.rs",E+"raft/mod.rs",E+"raft/responder/mod.rs",E+"core/sm/worker.rs"],
  [("client responder table keyed by log index","core/raft_core.rs client_resp_channels / write_entry"),("removal on truncate/leadership loss","raft_core.rs DeleteConflictLog handling")],
  ["client_write/client_write_ff results","apply stream"])
p("C07","Linearizable reads observe every write acknowledged before them",
  "When a linearizable read check succeeds on a node, that node's state machine (after the returned read log id is applied) reflects every write acknowledged, and every linearizable read completed, before the check was called. A deposed or partitioned leader whose successor has committed a write never passes the check invoked after that commit.",
  ["schedules","fault_sequences","histories"],"for every concurrent history of writes and reads at several nodes under partitions, pauses, clock progress and leader changes",
  "t11_client_reads covers a quiet cluster and one isolated leader; old leaders racing with new ones under pauses and delayed/duplicated replies are not explored.",
  [E+"core/raft_core.rs",E+"raft/mod.rs",E+"engine/handler/leader_handler/mod.rs"],
  [("leadership confirmation by quorum","raft_core.rs handle_check_is_leader_request"),("read log id = max(noop, committed)","leader_handler get_read_log_id"),("wait for applied","raft/mod.rs ensure_linearizable")],
  ["ensure_linearizable/get_read_log_id results","state machine read right after"])
p("C08","Votes only grow, and are durable before anyone sees them",
  "A node's vote never decreases, across restarts too, and every vote request, granted vote and append or snapshot acknowledgement a node sends reveals only a vote that is already durable on that node. Leaders are committed votes: a vote marked committed is never replaced by its uncommitted form or by another node's equal vote.",
  ["schedules","crash_points","fault_sequences"],"for "+SCHED+" with slow vote writes and a crash at any point between the write and the reply",
  "The test stores persist instantly; replying before persistence or losing a vote in a crash cannot be seen.",
  [E+"engine/handler/vote_handler/mod.rs",E+"engine/command.rs",E+"core/raft_core.rs",E+"vote/vote.rs"],
  [("vote ordering","vote/vote.rs PartialOrd"),("respond only after IO flushed","engine/command.rs Condition / raft_core run_engine_commands")],
  ["RPC replies vs durable vote"])
p("C09","A success reply to append or snapshot means the data is durable",
  "When a node answers an append request with success (or partial success up to a log id), all entries up to the acknowledged position are durably stored on it, or covered by a snapshot it has durably installed. Likewise an install-snapshot request is answered only after the state machine has accepted the snapshot, and the node does not lose acknowledged data by restarting.",
  ["schedules","crash_points","fault_sequences"],"for every flush delay, crash point, request duplication, conflict/truncate combination and snapshot install",
  "Test stores flush synchronously; acknowledging early is unobservable without a store that loses unflushed data on crash.",
  [E+"engine/handler/following_handler/mod.rs",E+"engine/engine_impl.rs",E+"core/raft_core.rs",E+"storage/callback.rs"],
  [("append reply condition","engine_impl.rs handle_append_entries -> Condition::IOFlushed"),("IO progress","raft_state/io_state/io_progress")],
  ["append_entries/full_snapshot replies vs durable view"])
p("C10","Stale leaders and candidates are fenced by higher votes",
  "A node that has seen a greater vote rejects append, snapshot and vote requests carrying a smaller one, and such a rejected request changes nothing in its log, snapshot, vote, commit point or membership. A node that learns of a greater vote stops acting as leader under the smaller one.",
  ["schedules","inputs","fault_sequences"],"for every request with an arbitrary old/new vote delivered at any state of the receiver, including delayed and duplicated ones",
  "A few fixed requests are tested (t10_see_higher_vote, lower-vote snapshot); arbitrary stale requests against arbitrary states are not.",
  [E+"engine/handler/vote_handler/mod.rs",E+"engine/engine_impl.rs",E+"raft/mod.rs"],
  [("vote update or rejection","vote_handler update_vote/accept_vote")],
  ["RPC replies, storage and metrics before/after"])
p("C11","Membership changes go through joint config, one at a time",
  "Consecutive membership entries in any log are always quorum-compatible: any quorum of one intersects any quorum of the next, so a change of voters passes through a joint config and a new change is refused while the previous one is uncommitted. The resulting voters and learners are exactly what the requested change means for the current config, an invalid request is rejected without effect, and every voter always has a node entry.",
  ["schedules","inputs","histories"],"for every sequence of membership requests (all kinds, retain on/off) on generated configs, concurrent with leader changes and crashes",
  "t21_change_membership_cases enumerates about 20 transitions on a quiet cluster; concurrent or interrupted changes and the space of configs are not covered.",
  [E+"membership/membership.rs",E+"change_members.rs",E+"raft_state/membership_state/change_handler.rs",E+"raft/mod.rs"],
  [("joint step computation","membership.rs next_coherent/change"),("one at a time","change_handler.rs ensure_committed"),("two-phase driver","raft/mod.rs change_membership")],
  ["membership entries in logs","change_membership results"])
p("C12","A snapshot equals the state at its last log id and never rolls back",
  "Any snapshot built or installed carries exactly the state and membership produced by applying the log up to its last log id, and installing one never moves a state machine to an older state. After an install the node continues from the snapshot as if it had applied the covered log, and its log contains no entry that conflicts with the snapshot.",
  ["schedules","crash_points","fault_sequences"],"for every interleaving of apply, snapshot build, snapshot install, truncate, purge, crash and restart",
  "Snapshot tests use fixed sequences; concurrent build/install/apply and crash around install are not explored.",
  [E+"core/sm/worker.rs",E+"engine/handler/following_handler/mod.rs",E+"engine/handler/snapshot_handler/mod.rs",E+"core/raft_core.rs"],
  [("install: accept only newer than committed","following_handler install_full_snapshot"),("snapshot meta update","snapshot_handler update_snapshot")],
  ["RaftSnapshotBuilder/RaftStateMachine calls","snapshot bodies in RPCs"])
p("C13","Log purge removes only snapshot-covered entries",
  "A log entry is purged only if it is covered by a snapshot the node holds durably, only a prefix is purged, and no more than the configured number of snapshot-covered entries is kept back beyond what is still being replicated. Purging never makes the cluster unable to serve a lagging follower (it gets the snapshot instead), and a purge request beyond the snapshot has no unsafe effect.",
  ["schedules","crash_points","configurations"],"for generated purge settings, explicit purge triggers and any interleaving with replication, snapshots, crash and restart",
  "Tests run a few fixed purge settings; purge racing with replication in flight and restart with half-done purge are not sampled.",
  [E+"engine/handler/log_handler/mod.rs",E+"engine/handler/replication_handler/mod.rs",E+"raft_state/mod.rs"],
  [("purge bound","log_handler calc_purge_upto/schedule_policy_based_purge"),("in-use check","replication_handler try_purge_log")],
  ["RaftLogStorage::purge calls vs snapshot","metrics purged"])
p("C14","A live leader's lease protects it from being voted out",
  "A node that has acknowledged a leader within the leader-lease period refuses to vote for another candidate and does not start an election of its own, unless that leader explicitly hands over leadership or the user triggers the election. A vote request that meets no lease, carries a greater vote and a log at least as up to date as the receiver's is granted.",
  ["schedules","configurations","fault_sequences"],"for generated timing configs, vote requests arriving at arbitrary times relative to heartbeats, and pauses",
  "t61_heartbeat_reject_vote checks one timing point with real sleeping; arbitrary arrival times against a virtual clock are not explored.",
  [E+"engine/engine_impl.rs",E+"raft_state/mod.rs",E+"engine/engine_config.rs",E+"utime.rs"],
  [("lease check on vote request","engine_impl.rs handle_vote_req"),("election deadline = lease + timeout","core/raft_core.rs handle_tick_election")],
  ["vote replies vs time of last accepted append"])
p("C15","Once faults stop the cluster recovers and every node converges",
  "When faults stop and a quorum of each voter set is up and connected, within a bounded number of election timeouts a leader is established, new writes succeed, and every connected voter and learner reaches the leader's last log and applied state, whatever happened before. No reachable state leaves a node permanently stuck, endlessly re-electing or replicating without progress.",
  ["schedules","crash_points","fault_sequences","configurations"],"for every fault history of the generated kinds followed by a fault-free suffix, over generated timing/payload/snapshot/purge configs",
  "Liveness bugs (lost retry, wrong probe position, stuck snapshot, lost wake-up) need a particular loss pattern; tests run mostly fault-free with long timeouts.",
  [E+"replication/mod.rs",E+"progress/entry/mod.rs",E+"core/raft_core.rs",E+"core/heartbeat/worker.rs",E+"core/tick.rs"],
  [("probe and in-flight management","progress/entry/mod.rs"),("election ticks","core/raft_core.rs handle_tick_election"),("replication retry/backoff","replication/mod.rs main")],
  ["client_write success and equality of applied states after heal"])
p("C16","Metrics and waits report truthful, monotonic node state",
  "The metrics a node publishes describe states it really was in: vote, last log, applied, snapshot and purged positions never exceed what its storage was given, keep the order purged <= snapshot <= applied <= last log, and each position except the last log only grows within one run. A wait on metrics returns success only with metrics that satisfy the condition, and a leader's replication and heartbeat reports never exceed what the target really acknowledged.",
  ["schedules","fault_sequences","histories"],"for every prefix of the metrics stream of every node in every generated history",
  "Tests read metrics at quiet points; ordering between publication and storage state under load, and transient regressions, are never observed.",
  [E+"metrics/raft_metrics.rs",E+"metrics/wait.rs",E+"core/raft_core.rs",E+"raft_state/mod.rs"],
  [("metrics publication","core/raft_core.rs report_metrics/flush_metrics"),("wait","metrics/wait.rs")],
  ["Raft::metrics/data_metrics/server_metrics/wait"])
p("C17","Every API call gets an answer, and redirects name a real leader",
  "Every call to the public API of a running member completes with a result or an error once the cluster is healthy again or the node is shut down; none hangs, and a fatal error is returned only by a node that was stopped or whose storage failed. A refusal because the node is not the leader names either nobody or a node that really became leader (or that leadership is being handed to), together with that member's node record.",
  ["schedules","fault_sequences","histories"],"for generated concurrent API calls on any node at any time, including during leadership loss, crash, and shutdown",
  "Tests cover a few error paths one at a time; a dropped responder shows only with a particular overlap of truncation, step-down and queueing.",
  [E+"raft/mod.rs",E+"raft/raft_inner.rs",E+"core/raft_core.rs"],
  [("responder bookkeeping","core/raft_core.rs"),("fatal error reporting","raft/raft_inner.rs get_core_stopped_error")],
  ["completion of every API future after heal"])
p("C18","A storage failure stops the node and nothing unflushed is acknowledged",
  "If any storage operation of a node fails, the node stops with a storage error that its API calls and metrics report, and from the failure on it never acknowledges, grants, or applies anything depending on the failed operation. The rest of the cluster keeps its safety, and restarting the node from its disk recovers it.",
  ["fault_sequences","crash_points","schedules"],"for an error injected at any single storage call (vote, append, flush callback, truncate, purge, read, apply, snapshot build/install) of any node at any time",
  "The upstream defensive store tests inject no runtime errors; each failing call site is a separate path nobody samples.",
  [E+"core/raft_core.rs",E+"core/sm/worker.rs",E+"replication/mod.rs",E+"storage_error.rs",E+"raft/raft_inner.rs"],
  [("fatal propagation","core/raft_core.rs main/do_main"),("state machine failure","core/sm/worker.rs"),("log reader failure in replication","replication/mod.rs")],
  ["metrics.running_state","API results after the fault"])
p("C19","Restart restores exactly the durable state and re-applies what is committed",
  "A node restarted from any legal disk state recovers the stored vote, log ids, purge position, snapshot and the membership in effect at its last log, re-applies committed entries its state machine lacks, and repairs half-finished purges or snapshot installs. It resumes as leader only if its stored vote is its own committed vote and it is a voter; it invents nothing and loses nothing that was durable.",
  ["crash_points","inputs","histories"],"for every legal combination of log, purge point, snapshot, applied position, saved committed position and vote, produced by generation and by crashes of live nodes",
  "Store suite tests cover about ten hand-made disk states, and restart tests only clean stops.",
  [E+"storage/helper.rs",E+"engine/engine_impl.rs",E+"engine/log_id_list.rs",E+"storage/log_reader_ext.rs"],
  [("initial state","storage/helper.rs get_initial_state/last_membership"),("startup role","engine_impl.rs startup"),("key log ids","storage/log_reader_ext.rs")],
  ["StorageHelper results and with_raft_state after restart vs model"])
p("C20","Cluster initialization happens at most once and only when valid",
  "Initialize succeeds only on a node with no log and no vote and with a config that contains the node itself and is well formed; otherwise it fails and changes nothing. Concurrent initialization of several nodes with the same config yields one consistent cluster.",
  ["inputs","schedules"],"for generated initial configs, initialize calls at any node and time, repeated or concurrent",
  "t10_initialization covers a few fixed calls.",
  [E+"engine/engine_impl.rs",E+"engine/handler/establish_handler/mod.rs",E+"membership/membership.rs"],
  [("preconditions","engine_impl.rs initialize/check_initialize/check_members_contain_me")],
  ["initialize result, log and vote before/after"])
p("C21","Chunked snapshot transfer delivers the exact bytes or nothing",
  "A snapshot sent in chunks through the chunk-based transport is installed with exactly the sender's bytes and meta, whatever chunk size, network errors, retries, duplicates, interleaved transfers or receiver restarts occur; a partial or mixed stream is never installed. The transfer finishes once the network stays healthy.",
  ["inputs","fault_sequences","schedules"],"for generated snapshot sizes, chunk sizes, loss/duplicate/error/timeout patterns and interleaved senders",
  "Tests send one or two small snapshots over a reliable channel.",
  [E+"network/snapshot_transport.rs",E+"network/v1/adapt_v1.rs",E+"raft/mod.rs"],
  [("sender offset/retry loop","snapshot_transport.rs Chunked::send_snapshot"),("receiver Streaming","snapshot_transport.rs receive_snapshot/Streaming")],
  ["installed bytes vs source bytes"])
p("C22","Learners replicate but never vote in, count in, or win anything",
  "A learner or removed node never starts an election, is never counted in an election, commit, or read quorum, and never becomes leader, yet it receives and applies the same log as voters. A vote or ack of a node counts only for member sets that contain it, and a node that stops being a voter steps down as leader once that config is committed.",
  ["schedules","histories","fault_sequences"],"for "+SCHED+" with learners added, promoted, demoted and removed",
  "Tests check state labels in quiet clusters; counting a learner matters only when voters fail.",
  [E+"engine/engine_impl.rs",E+"membership/effective_membership.rs",E+"progress/mod.rs",E+"raft_state/mod.rs",E+"engine/handler/replication_handler/mod.rs"],
  [("voter check","raft_state/mod.rs is_voter / calc_server_state"),("progress counts voters only","progress/mod.rs"),("leader step down","replication_handler / leader_step_down in raft_core")],
  ["metrics.state","vote requests sent","commit while voters are down"])
p("C23","Leader transfer hands over safely and promptly",
  "Asking the leader to transfer leadership never breaks safety: the old leader accepts no further write under its vote, and nobody but the named node is made to campaign. With a healthy quorum and an up-to-date target the target becomes leader without waiting for the lease to expire; a target that is behind waits (at most the minimal election timeout) for its log to reach the leader's last log before it campaigns. A transfer request under an old vote, or to a node that is not another voter, is ignored.",
  ["schedules","fault_sequences","histories"],"for transfer to any node at any time with concurrent writes, loss and delays",
  "t14_transfer_leader runs a single quiet transfer.",
  [E+"engine/handler/leader_handler/mod.rs",E+"raft/message/transfer_leader.rs",E+"raft/mod.rs",E+"core/raft_core.rs"],
  [("leader side","leader_handler transfer_leader"),("target side","raft/mod.rs handle_transfer_leader")],
  ["metrics.current_leader","write acceptance on old leader"])
p("C24","Pipelined writes and admin calls keep their order and run exactly once",
  "Writes submitted one after another on the same node handle get increasing log ids in submission order and are answered in that order when all succeed, also via the fire-and-forget responder API. A function sent with the external-request or state-machine access API runs exactly once on a running node and sees the effects of calls completed before it.",
  ["schedules","histories"],"for generated pipelines of writes, state accesses and admin calls under leader change and delays",
  "Tests issue a handful of sequential calls.",
  [E+"raft/mod.rs",E+"core/raft_core.rs",E+"raft/responder/mod.rs",E+"core/sm/worker.rs"],
  [("API channel order","raft/raft_inner.rs send_msg"),("responder","raft/responder/impls.rs")],
  ["log ids of acknowledged pipelines","external_request/with_state_machine executions"])
p("C25","A follower obeys the replication protocol for any legal request sequence",
  "For any sequence of append, heartbeat, snapshot and vote requests that a legal set of leaders and candidates could send, in any order, with any duplication, a node's replies, log, vote, commit point, applied state, membership and snapshot position agree with a reference follower. In particular an old or duplicated request never truncates a matching entry, moves the commit point back, or commits beyond the matched prefix.",
  ["inputs","histories","schedules"],"for generated sets of divergent leader histories (2..4 terms) and request sequences with restarts in between",
  "The tests/append_entries suite checks about a dozen request sequences by example.",
  [E+"engine/handler/following_handler/mod.rs",E+"engine/engine_impl.rs",E+"raft_state/mod.rs",E+"engine/log_id_list.rs"],
  [("append handling","following_handler append_entries/ensure_log_consecutive/do_append_entries"),("committed update","following_handler commit_entries / engine handle_commit_entries")],
  ["RPC replies, with_raft_state, log store and state machine"])
p("C26","Single-term-leader mode elects at most one leader per term",
  "When built in single-term-leader mode, at most one node leads in any term and a node grants at most one candidate per term, and all other safety guarantees (log matching, commit, state machine safety, acknowledged writes) still hold. Log ids are then ordered by (term, index) alone.",
  ["schedules","crash_points","fault_sequences"],"for "+SCHED+" on the library built with that feature",
  "The feature's tests are the default unit tests recompiled; no multi-node run exercises conflicting candidates in one term.",
  [E+"vote/leader_id/leader_id_std.rs",E+"vote/vote.rs",E+"engine/engine_impl.rs"],
  [("leader id partial order","vote/leader_id/leader_id_std.rs"),("vote comparison","vote/vote.rs")],
  ["metrics","vote replies"])
p("C27","No legal use makes a node panic, and shutdown is clean",
  "No sequence of public API calls, legal peer messages, legal storage contents, crashes, restarts or configuration accepted by validation makes a node's tasks panic or spin without progress. Shutdown stops every task of the node, makes later calls return an error, and leaves storage in a state a restart recovers from.",
  ["inputs","schedules","crash_points","configurations"],"for every generated history of the cluster engine, including admin calls in unusual states",
  "Debug assertions and unreachable!() branches are only hit by combinations the scripted tests do not produce.",
  [E+"engine/engine_impl.rs",E+"core/raft_core.rs",E+"raft/mod.rs",E+"raft/trigger.rs"],
  [("shutdown","raft/mod.rs shutdown"),("command execution","core/raft_core.rs run_command")],
  ["task panics","tasks alive after shutdown"])
p("C28","Membership calls return success only when their promise is met",
  "A blocking add-learner returns success only after the learner has been added by a committed entry and has caught up with the log to the documented degree; a change-membership call for voters returns success only after a uniform config reflecting it is committed (calls that overlap may interleave their two steps). The response carries the log id and config that are really in the log.",
  ["schedules","fault_sequences","histories"],"for generated membership calls with slow, partitioned, or crashing learners and voters",
  "Tests add reachable learners on quiet clusters.",
  [E+"raft/mod.rs",E+"engine/handler/leader_handler/mod.rs",E+"metrics/wait.rs"],
  [("blocking catch-up check","raft/mod.rs add_learner/check_replication_upto_date"),("second step","raft/mod.rs change_membership")],
  ["call results vs log/membership at that moment"])
p("D01","Quorum arithmetic: joint quorums and the granted position are exact",
  "A set of nodes is a quorum of a joint config exactly when it contains a majority of each member set, and quorum tracking reports, after any sequence of progress updates, exactly the greatest position acknowledged by a quorum (never more), unaffected by learners and preserved when the config changes. Making a config coherent with another always yields a config whose quorums intersect both.",
  ["inputs","histories"],"for all generated member sets (overlapping, 1..7 nodes, 1..3 sets) and update sequences in any order",
  "Unit tests enumerate a few triples of ids and a handful of update orders.",
  [E+"progress/mod.rs",E+"quorum/joint_impl.rs",E+"quorum/quorum_set_impl.rs",E+"quorum/coherent_impl.rs"],
  [("granted recomputation","progress/mod.rs VecProgress::update_with"),("majority","quorum_set_impl.rs is_quorum"),("find_coherent","coherent_impl.rs")],
  ["is_quorum / granted vs brute force"],"re-exports of the internal progress and quorum types behind cfg(openraft_verif)")
p("D02","Membership algebra: changes mean what they say",
  "Applying any kind of change to any valid config gives exactly the voters, learners and node records its documentation describes, or the documented error; retained voters become learners and nothing else is lost. A config accepted as valid always has non-empty voter sets and a node record for every voter.",
  ["inputs","histories"],"for all generated configs (uniform and joint, with learners) and all change kinds with arbitrary id sets, applied repeatedly",
  "membership_test.rs has a few examples per kind.",
  [E+"membership/membership.rs",E+"change_members.rs",E+"membership/into_nodes.rs",E+"membership/effective_membership.rs"],
  [("change","membership.rs change/next_coherent/ensure_valid")],
  ["Membership API vs set-based reference"],"wrapper for the internal change function behind cfg(openraft_verif)")
p("D03","The compact log-id index answers as the full log would",
  "The in-memory index of log ids returns, for every log index, the same log id as the full log it summarises, after any sequence of append, truncate and purge, and when rebuilt from storage. First/last/purged positions agree with the full log.",
  ["inputs","histories"],"for all generated sequences of operations over multi-term logs",
  "log_id_list_test.rs has examples for each operation, not compositions.",
  [E+"engine/log_id_list.rs",E+"storage/log_reader_ext.rs"],
  [("LogIdList","log_id_list.rs extend/append/truncate/purge/get"),("binary search load","storage/log_reader_ext.rs get_key_log_ids")],
  ["get/first/last vs naive vector"],"wrapper for the internal index behind cfg(openraft_verif)")
p("D04","Configuration is parsed and validated faithfully",
  "A configuration is accepted exactly when it satisfies the documented constraints, and textual settings (byte sizes, snapshot policy, durations, flags) parse to the value they denote or are rejected, never silently to another value. Randomised election timeouts always fall within the configured range.",
  ["inputs","configurations"],"for generated numeric configs, argument lists and textual values",
  "config_test.rs has about ten fixed cases.",
  [E+"config/config.rs",E+"config/error.rs"],
  [("validate/build/parse","config.rs")],
  ["Config::build/validate vs reference"])
p("D05","Votes, leader ids and log ids are ordered as documented",
  "Comparison of votes, leader ids and log ids is reflexive, antisymmetric and transitive, agrees with the documented order in each mode (term, then node in default mode; committed above uncommitted), and equality agrees with ordering. Two committed votes are always comparable.",
  ["inputs"],"for all generated triples in both leader-id modes",
  "Unit tests compare a few constants.",
  [E+"vote/vote.rs",E+"vote/leader_id/leader_id_adv.rs",E+"vote/leader_id/leader_id_std.rs",E+"log_id/mod.rs"],
  [("PartialOrd for Vote","vote.rs"),("LeaderId order","leader_id_adv.rs/leader_id_std.rs")],
  ["partial_cmp vs tuple order"])
p("D06","Serialized protocol and storage types survive a round trip",
  "Every serializable public type (requests, replies, errors, entries, membership, votes, log ids, snapshot meta, metrics, config) decodes from its encoding to an equal value, and the upgrade wrapper decodes both the old and the new encoding to the right value. Encoding is stable: encode(decode(encode(x))) equals encode(x).",
  ["inputs"],"for generated values of every such type",
  "feature_serde_test.rs checks three or four values.",
  [E+"raft/message",E+"entry",E+"membership",E+"vote",E+"compat/upgrade.rs",E+"metrics/serde_instant.rs",E+"error.rs"],
  [("serde derives","each type"),("Compat/Upgrade","compat/upgrade.rs")],
  ["serde_json round trip"])
p("D07","Initial state is derived correctly from any legal storage content",
  "From any legal storage content the helper functions report the latest membership up to a position, the vote, the purge and last log ids and the initial node state exactly as a full scan would, honouring limited reads, log gaps below the purge point, and a state machine ahead of or behind the log.",
  ["inputs","crash_points"],"for all generated storage contents",
  "The store test suite has one example per function.",
  [E+"storage/helper.rs",E+"storage/log_reader_ext.rs",E+"storage/v2/raft_log_reader.rs"],
  [("StorageHelper","storage/helper.rs")],
  ["StorageHelper results vs naive scan"])
p("D08","The bundled stores behave like the storage contract's model",
  "Each bundled store (in-memory, RocksDB, sled) returns after any legal sequence of storage calls what a simple model of the storage contract returns, and the persistent ones return the same after being closed and reopened. Building and installing snapshots round-trips the state machine and never replaces a newer snapshot's effect with an older one.",
  ["inputs","histories","crash_points"],"for generated sequences of vote, append, truncate, purge, read, apply, snapshot build/install, committed and reopen calls",
  "The store suite exercises single operations on fresh stores and never reopens them.",
  ["stores/memstore/src/lib.rs","stores/rocksstore/src/lib.rs","stores/sledstore/src/lib.rs"],
  [("RaftLogStorage/RaftStateMachine impls","stores/*/src/lib.rs")],
  ["store calls vs model"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
