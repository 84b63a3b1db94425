#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the list is maintained here).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe or [], "hook_needed": None}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

RAFT = "src/raft.cc"; RN = "src/rawnode.cc"
p("C01", "Election safety: at most one leader per term, one vote per node per term",
  "In every term at most one node ever acts as leader, and a node only becomes leader after votes from a majority of the voters (of both halves of a joint configuration) have really been cast for it in that term. A node never casts votes for two different candidates in one term, including across crashes and restarts.",
  ["schedules", "crash_points", "configurations", "fault_sequences"],
  "Every message schedule (loss, duplication, reordering, delay, partitions), every crash/restart point between the stages of persisting, sending and applying, and every sequence of membership changes.",
  "Unit tests drive a handful of fixed elections over an in-memory network that never crashes nodes and delivers synchronously; none quantifies over schedules or crash points.",
  [RAFT, "src/tracker/tracker.cc", "src/quorum/majority.cc", "src/quorum/joint.cc", RN],
  [("vote granting and recording", "src/raft.cc Step"), ("vote tally", "src/tracker/tracker.cc TallyVotes"), ("persist vote before reply", "src/rawnode.cc NewReady/MustSync")],
  ["status after every operation", "vote replies handed to the application", "hard states handed to the application"])
p("C02", "Leader completeness: a new leader already holds every committed entry",
  "Every entry that any node has reported as committed is present, unchanged, in the log of every node that becomes leader afterwards. Votes and pre-votes are granted only to candidates whose log is at least as up to date as the voter's.",
  ["schedules", "crash_points", "configurations", "fault_sequences"],
  "Every reachable combination of divergent logs, election timing, partitions, crashes and membership changes.",
  "Tests check one or two log shapes per rule; no test checks a new leader's log against the set of entries committed anywhere.",
  [RAFT, "src/log.cc"], [("up-to-date check on votes", "src/raft.cc Step / src/log.cc IsUpToData"), ("commit restricted to current term", "src/log.cc MaybeCommit"), ("no campaign with unapplied membership change", "src/raft.cc Hup")],
  ["status after every operation", "log accessors at leader change"])
p("C03", "Log matching: equal index and term imply identical log prefixes",
  "If two nodes' logs (or the entries carried by any append message) agree on the term at an index, they are identical in every entry up to that index. A leader never overwrites or deletes entries of its own log, and every append message it sends is a contiguous, faithful slice of its log.",
  ["schedules", "crash_points", "fault_sequences"],
  "All interleavings of appends, truncations, rejections, snapshots, crashes with torn suffixes, and leader changes.",
  "Tests compare final logs of a few scripted scenarios.",
  [RAFT, "src/log.cc", "src/log_unstable.cc"], [("consistency check", "src/log.cc MaybeAppend/FindConflict"), ("truncation", "src/log_unstable.cc TruncateAndAppend"), ("append construction", "src/raft.cc MaybeSendAppend")],
  ["entries handed out for persistence", "append messages handed out for sending"])
p("C04", "State machine safety: committed history is unique and permanent",
  "All nodes deliver exactly the same entry at every log index, and an entry once reported committed is never changed, lost or replaced on any node, whatever crashes, partitions, snapshots and membership changes follow.",
  ["schedules", "crash_points", "configurations", "fault_sequences"],
  "Every history of client operations, faults and reconfigurations.",
  "Tests check a few synchronous clusters without crashes; the guarantee ranges over all histories.",
  [RAFT, "src/log.cc", RN], [("commit computation", "src/raft.cc MaybeCommit"), ("commit propagation", "src/raft.cc HandleAppendEntries/HandleHearbeat"), ("delivery", "src/log.cc NextEnts")],
  ["committed entries and commit indexes handed to the application"])
p("C05", "Committed entries are delivered in order, exactly once, without gaps",
  "Each node hands committed entries to its application in strictly consecutive index order, never repeating, skipping or delivering an uncommitted entry, also across size-limited batches, snapshot installation and restart from a declared applied position. Every delivered entry is already covered by the commit index and durable locally.",
  ["schedules", "crash_points", "inputs", "fault_sequences"],
  "Every batching, snapshot and restart point, and every choice of applied position and batch limit.",
  "Tests check single delivery steps with fixed sizes.",
  ["src/log.cc", RAFT, RN], [("cursor", "src/log.cc NextEnts/AppliedTo"), ("acknowledgement", "src/raft.cc Advance")],
  ["committed entries and snapshots handed to the application"])
p("C06", "Commit rule: only majority-durable entries of the leader's own term",
  "A leader advances its commit index only to an entry of its own term that is durably stored on a majority of voters (in both halves of a joint configuration); learners and removed nodes never count. Followers never advance their commit index past entries known to match the leader's log.",
  ["schedules", "crash_points", "configurations"],
  "All combinations of acknowledgement arrival, stale or duplicated acknowledgements, configuration, and crash points.",
  "Tests feed chosen acknowledgement vectors; they never compare with what is really durable on the acknowledging nodes.",
  [RAFT, "src/tracker/tracker.cc", "src/quorum/majority.cc", "src/quorum/joint.cc", "src/log.cc"], [("quorum index", "src/quorum/majority.cc CommittedIndex"), ("term restriction", "src/log.cc MaybeCommit"), ("heartbeat commit bound", "src/raft.cc SendHeartbeat")],
  ["status after every operation", "durable state of all nodes"])
p("C07", "Term, vote, commit and applied positions never go backwards",
  "On every node the term, the commit index and the applied index never decrease, and within one term a recorded vote never changes, including in the sequence of states handed out for persistence and across restarts.",
  ["schedules", "crash_points", "fault_sequences"],
  "Every operation sequence, including stale, duplicated and reordered messages and restarts.",
  "Tests assert final values of selected scripts.",
  [RAFT, "src/log.cc", RN], [("term handling", "src/raft.cc Step/Reset"), ("commit monotone", "src/log.cc CommitTo")],
  ["status after every operation", "hard states handed out"])
p("C08", "Ready contract: what must be durable is handed out before it is relied on",
  "Following the documented persist-then-send discipline is sufficient: every outgoing message only claims term, vote and log state contained in what was handed out for persistence before or with it, and a synchronous write is requested whenever term, vote or entries changed. Every outgoing message, read result and new entry is handed out exactly once, and the pending-work indicator agrees with whether a batch contains anything.",
  ["schedules", "crash_points", "histories"],
  "Every batch in every history, including inputs arriving while a batch is being processed.",
  "Tests inspect a few batches by value.",
  [RN, RAFT, "src/log_unstable.cc"], [("batch construction", "src/rawnode.cc NewReady"), ("acceptance and advance", "src/rawnode.cc AcceptReady/Advance"), ("stability tracking", "src/log_unstable.cc StableTo")],
  ["every batch handed to the application"])
p("C09", "Crash recovery: a restarted node resumes exactly from its durable state",
  "A node restarted from what it had persisted comes back as a follower with exactly the persisted term, vote, commit index, log and configuration, and continues delivering right after the declared applied position (or snapshot). No sequence of crashes at any persist, send or apply step makes the cluster lose or alter committed data or abort.",
  ["crash_points", "schedules", "fault_sequences"],
  "Every crash point between and inside the processing stages, repeated crashes of any subset of nodes, with or without loss of non-synchronous writes.",
  "Tests restart a single node from a few hand-made states.",
  [RAFT, RN, "src/log.cc", "src/storage.cc"], [("initial state load", "src/raft.cc New/LoadState"), ("log recovery", "src/log.cc RaftLog constructor")],
  ["state right after restart", "delivered entries after restart"])
p("C10", "Proposals commit at most once, intact, and refused proposals never commit",
  "Every committed entry is a leader's empty entry or carries, byte for byte, something a client proposed; each accepted proposal is committed at most once per submission that reached a leader, and a proposal reported as refused never appears in any log. With forwarding disabled, non-leaders refuse proposals instead of passing them on.",
  ["schedules", "histories", "inputs"],
  "All interleavings of proposals with leader changes, transfers, quota limits, forwarding, and arbitrary payload bytes.",
  "Tests propose a few constants on stable clusters.",
  [RAFT, RN, "src/util.cc"], [("proposal step", "src/raft.cc StepLeader/StepFollower/StepCandidate"), ("append", "src/raft.cc AppendEntry")],
  ["proposal results", "committed entries"])
p("C11", "Quorum-checked read requests are linearizable",
  "In the default read mode, a read result returned for a request names an index at least as large as every index that had been committed visibly anywhere when the request was made. The leader answers only after it committed an entry of its own term and, unless it is the only voter, after a quorum of its active configuration (of both halves of a joint one) acknowledged it since the request reached it. Each result carries the request's own context and is returned to the requesting node, at most once per request reaching a leader. A request pending at a leader that stays in office is answered once a quorum acknowledges its heartbeats again, even if the first ones were lost.",
  ["schedules", "crash_points", "configurations", "histories"],
  "Every interleaving of reads with leader changes, partitions with stale leaders, delayed or duplicated heartbeat replies, membership changes down to a single voter, and crashes.",
  "Tests read on stable clusters; stale-leader interleavings and membership corner cases are not covered.",
  [RAFT, "src/read_only.cc", "src/tracker/tracker.h"], [("quorum confirmation", "src/raft.cc StepLeader MsgReadIndex/MsgHeartbeatResp"), ("queue", "src/read_only.cc"), ("current-term commit gate", "src/raft.cc CommittedEntryinCurrentTerm"), ("single-voter shortcut", "src/tracker/tracker.h IsSingleton")],
  ["read requests and read results at the API"])
p("C12", "Lease-based reads are linearizable under bounded clocks",
  "With lease-based reads and quorum checking enabled, clocks advancing in lockstep, messages delivered within one tick and no forced leadership transfer, a read result is never older than any index visibly committed when the request was made. Lease-based reads without quorum checking are refused at configuration time.",
  ["schedules", "fault_sequences"],
  "Every partition and message-loss pattern under synchronised ticks.",
  "Tests use one scripted cluster with frozen clocks.",
  [RAFT], [("lease check on votes", "src/raft.cc Step"), ("step-down without quorum", "src/raft.cc StepLeader MsgCheckQuorum"), ("configuration validation", "src/raft.cc Config::Validate")],
  ["read requests and read results at the API"])
p("C13", "Membership changes are agreed, serialised and gated",
  "On every node the active configuration is exactly the one obtained by applying the committed membership changes in order. At most one membership change is in flight at a time: a leader appends one only when all earlier ones are applied, and only a leave request while joint, never a leave request otherwise; a change that does not qualify is neutralised instead of entering the log, and one that qualifies is not.",
  ["schedules", "crash_points", "configurations", "histories"],
  "All sequences of simple and joint membership changes (explicit and automatic leave, learners, context bytes), proposed concurrently, across leader changes, snapshots and restarts.",
  "Tests run a few fixed reconfigurations.",
  [RAFT, "src/confchange/confchange.cc", "src/tracker/tracker.cc"], [("pending gate", "src/raft.cc StepLeader MsgProp"), ("application", "src/raft.cc ApplyConfChange/SwitchToConfig"), ("auto leave", "src/raft.cc Advance")],
  ["configuration after each applied change", "entries appended by leaders"])
p("C14", "Configuration-change algebra: every transition is valid or refused untouched",
  "For every valid configuration and every list of changes, entering joint, leaving joint and simple changes produce exactly the specified configuration and peer set, or an error; a refused change leaves the original configuration and peers untouched. Learners and voters stay disjoint, staged learners are exactly demoted outgoing voters, no change ever leaves zero voters, and simple changes alter at most one voter.",
  ["inputs", "configurations"],
  "All configurations and all change lists (adds, removes, learner changes, updates, zero ids, duplicates, mixtures), including sequences of them.",
  "Data-driven tests list dozens of cases; random tests compare two internal paths, not an independent specification, and do not check non-mutation.",
  ["src/confchange/confchange.cc", "src/raftpb/confchange.cc"], [("changer", "src/confchange/confchange.cc"), ("transition choice", "src/raftpb/confchange.cc EnterJoint/LeaveJoint")],
  ["results of the configuration changer"])
p("C15", "Stored configuration state restores exactly; equality means set equality",
  "Restoring from the serialised form of any valid configuration, in any order of its lists, yields a configuration whose serialised form is equivalent to the original; a node started from stored state, or receiving a snapshot, runs with exactly the configuration stored there, and a form no valid configuration has ends in a fatal report (or is still taken over exactly), never in a different configuration. Two configuration states compare equal exactly when they contain the same members in each role and the same auto-leave flag.",
  ["inputs", "configurations"],
  "All valid configurations, joint or not, all pairs of configuration states, and stored forms no valid configuration has.",
  "One randomised restore test samples a few shapes; equality is tested on a few literals.",
  ["src/confchange/restore.cc", "src/raftpb/confstate.cc", "src/tracker/tracker.cc"], [("restore", "src/confchange/restore.cc Restore"), ("equality", "src/raftpb/confstate.cc operator==")],
  ["restored configurations", "configuration of a node started from stored state or restored by a snapshot"])
p("C16", "Quorum arithmetic equals its definition",
  "For any voter sets and any acknowledgements, the committed index is the largest index acknowledged by a majority of each non-empty half, and a vote is won, lost or pending exactly when a majority of every half granted, some half can no longer grant, or neither. Missing reports never count as acknowledgements or as rejections.",
  ["inputs", "configurations"],
  "All voter sets (including empty halves, overlapping halves and more than seven voters) and all partial acknowledgement and vote maps.",
  "Existing tests list fixed cases and compare two related implementations on small random inputs.",
  ["src/quorum/majority.cc", "src/quorum/joint.cc"], [("committed index", "src/quorum/majority.cc CommittedIndex"), ("vote result", "src/quorum/majority.cc VoteResult"), ("joint", "src/quorum/joint.cc")],
  ["results of the quorum functions"])
p("C17", "Snapshot installation equals replaying the log",
  "A node that installs a snapshot ends with exactly the application state, configuration, commit and log position that replaying the log to the snapshot's index would give; snapshots at or below the commit index or not containing the node never rewind it, and snapshots sent are exactly ones the application produced. A snapshot whose last entry the node already has only moves its commit index.",
  ["schedules", "crash_points", "configurations", "fault_sequences"],
  "All interleavings of snapshots with appends, duplicated or stale snapshots, temporary snapshot unavailability, failure reports, compaction and crashes.",
  "Tests install one literal snapshot in isolation.",
  [RAFT, "src/log.cc", "src/log_unstable.cc", "src/storage.cc"], [("restore", "src/raft.cc Restore/HandleSnapshot"), ("send", "src/raft.cc MaybeSendAppend"), ("snapshot progress", "src/raft.cc StepLeader MsgSnapStatus")],
  ["snapshots handed out, application state after installation"])
p("C18", "Flow control limits are respected and never wedge replication",
  "A leader never has more than the configured number of unacknowledged append messages in flight to a follower, never exceeds the configured message or delivery batch size with more than one entry, sends nothing further to a follower it is probing, that is paused, or that is receiving a snapshot until something happens, and windows are released by acknowledgements so replication resumes. A follower reported unreachable is probed from what it acknowledged, one whose snapshot is reported as received is probed behind that snapshot and one whose snapshot is reported as failed from what it acknowledged, both after an answer or a heartbeat, and no other follower is affected.",
  ["schedules", "inputs", "fault_sequences"],
  "All limits, entry sizes, acknowledgement orders, losses and unreachable or snapshot reports.",
  "Tests exercise a window with scripted acks and two sizes.",
  [RAFT, "src/tracker/progress.cc", "src/tracker/inflights.cc", "src/util.cc", "src/log.cc"], [("window", "src/tracker/inflights.cc"), ("pausing", "src/tracker/progress.cc IsPaused"), ("size limit", "src/util.cc LimitSize")],
  ["append messages handed out", "window structure operations"])
p("C19", "The uncommitted-size quota refuses exactly what exceeds it",
  "With a quota on uncommitted proposal bytes, a leader refuses a proposal exactly when uncommitted bytes already exist and accepting it would exceed the quota; empty entries are never refused, and quota is returned as entries are applied so a healthy leader accepts again. A refused proposal leaves no trace in the log.",
  ["schedules", "inputs", "histories"],
  "All payload sizes, quotas, application speeds and leader changes.",
  "One test fills the quota once with equal-sized entries.",
  [RAFT], [("accounting", "src/raft.cc IncreaseUncommittedSize/ReduceUncommittedSize")],
  ["proposal results against applied entries"])
p("C20", "A leader cut off from its quorum steps down; a connected one does not",
  "With quorum checking enabled, a leader that hears from no quorum of voters for two election timeouts of its own clock is no longer leader, and a leader that heard from a quorum within every election timeout never steps down on its own.",
  ["schedules", "fault_sequences", "configurations"],
  "All partition patterns, timings and configurations (joint, learners, just-added peers).",
  "Tests script one cut-off and one connected leader.",
  [RAFT, "src/tracker/tracker.cc"], [("quorum check", "src/raft.cc TickHeartbeat/StepLeader MsgCheckQuorum"), ("activity", "src/tracker/tracker.cc QuorumActive")],
  ["leader status on each tick against delivered replies"])
p("C21", "Pre-vote and leases keep isolated nodes from disrupting the cluster",
  "With pre-vote, a node raises its term for an ordinary campaign only after a quorum of voters granted its pre-vote, and answering a pre-vote never changes the answering node's term, vote, leader or election timer. With quorum checking, a node that recently heard from a leader ignores ordinary vote requests, so with both enabled a node returning from isolation cannot depose a healthy leader or raise the cluster's term.",
  ["schedules", "fault_sequences"],
  "All isolation lengths, log shapes, message delays and configurations.",
  "Tests script three-node cases.",
  [RAFT], [("pre-vote", "src/raft.cc Campaign/Step"), ("lease", "src/raft.cc Step")],
  ["status before and after every message"])
p("C22", "Leadership transfer is safe, bounded and ends where it was directed",
  "A transfer tells only an up-to-date voter to take over, refuses new proposals while in progress, ends or is abandoned within one election timeout after which proposals are accepted again, and never involves learners or unknown nodes. In a healthy cluster a transfer to a voter makes that voter the leader.",
  ["schedules", "fault_sequences", "configurations"],
  "All log states of the target, concurrent transfers, removals of the target, lost messages and timing.",
  "About fifteen scripted cases on three nodes.",
  [RAFT], [("transfer", "src/raft.cc StepLeader MsgTransferLeader/MsgAppResp"), ("abort", "src/raft.cc TickHeartbeat/SwitchToConfig")],
  ["take-over messages", "proposal results", "status"])
p("C23", "Election and heartbeat timers stay within their documented bounds",
  "A node that heard from a leader, or granted a vote, does not start an election by itself before one election timeout and, when eligible and hearing nothing, does within two; each wait is drawn afresh across that whole range whenever the node becomes follower, candidate or leader, so that competing nodes separate (a pre-candidate that asks again keeps its wait). A leader sends a heartbeat to every peer each heartbeat interval.",
  ["schedules", "inputs"],
  "All timeouts, all orders of ticks and messages, and the distribution of waits.",
  "Paper tests sample fixed timeouts and a coarse distribution from one state.",
  [RAFT, "src/util.cc"], [("timers", "src/raft.cc TickElection/TickHeartbeat"), ("randomisation", "src/raft.cc ResetRandomizedElectionTimeout")],
  ["ticks against campaigns and heartbeats"])
p("C24", "After faults stop, the cluster recovers within a bounded number of ticks",
  "Once faults stop and a majority of the current voters is running and connected, within a bounded number of ticks there is exactly one leader, every member has the same committed and applied state, pending automatic configuration exits finish, and new proposals and reads complete. No reachable state wedges a follower, a snapshot transfer, a transfer of leadership or a joint configuration. (The application keeps its snapshots recent and shuts down removed nodes. Excluded is the known limitation of changes that take effect when applied: if nodes that already applied their own removal hold the only log that could win, the rest cannot elect a leader.)",
  ["schedules", "crash_points", "fault_sequences", "configurations"],
  "Every state reachable by faults, crashes, compaction, flow-control limits and reconfiguration.",
  "Tests do not reach hostile states before checking progress.",
  [RAFT, "src/tracker/progress.cc", "src/tracker/inflights.cc"], [("probe/replicate/snapshot state machine", "src/tracker/progress.cc"), ("heartbeat repair", "src/raft.cc StepLeader MsgHeartbeatResp"), ("election", "src/raft.cc TickElection")],
  ["state of all nodes after a calm phase"])
p("C25", "Divergent logs are reconciled in few probes",
  "When a leader meets a follower with an arbitrarily divergent log, the number of rejected probes before they agree is bounded by the number of distinct terms involved, not by the number of entries, and the follower ends with the leader's log.",
  ["inputs", "histories"],
  "All pairs of legal logs sharing a prefix.",
  "A table of about a dozen log pairs.",
  [RAFT, "src/log.cc"], [("hints", "src/raft.cc HandleAppendEntries/StepLeader MsgAppResp"), ("search", "src/log.cc FindConflictByTerm")],
  ["rejections counted per reconciliation"])
p("C26", "In-memory storage behaves like its sequential specification",
  "For every sequence of appends, compactions, snapshots and reads, the storage returns exactly what a simple list model returns, including the documented errors at every boundary and size limits that always return at least one entry. Objects it has returned are not changed by later operations.",
  ["inputs", "histories"],
  "All operation sequences and argument values within the documented preconditions.",
  "Tests list single operations on one three-entry log.",
  ["src/storage.cc", "src/util.cc"], [("storage", "src/storage.cc")],
  ["results of every storage call"])
p("C27", "The in-flight log view equals stable plus unstable entries",
  "For every history of appends, truncations, commits, stabilisations, restores and compactions, the node's log answers terms, ranges, conflict searches and commit attempts exactly as one flat sequence of entries would, wherever the boundary between persisted and not yet persisted entries lies. Acknowledging persistence of superseded entries never discards newer ones.",
  ["inputs", "histories"],
  "All operation histories, positions of the persistence boundary and snapshot boundaries.",
  "Tests cover each function on a few literal states.",
  ["src/log.cc", "src/log_unstable.cc"], [("log", "src/log.cc"), ("unstable", "src/log_unstable.cc")],
  ["results of every log call"])
p("C28", "Documented concurrent use is free of data races and lost updates",
  "A storage shared between the consensus thread and an application thread (appending, compacting, creating snapshots, saving state), a logger shared by many nodes, and many nodes running in different threads, with batches handed to other threads for persisting, sending and applying, never race, deadlock or corrupt state; log lines come out whole.",
  ["schedules"],
  "All thread interleavings of the documented concurrent uses.",
  "Tests are single threaded.",
  ["src/storage.cc", "src/logger.cc", "src/util.cc", "src/read_only.cc"], [("storage lock", "src/storage.cc"), ("logger lock", "src/logger.cc"), ("thread-local random source", "src/util.cc"), ("function-local statics", "src/read_only.cc, src/raft.cc")],
  ["thread sanitizer reports", "results under concurrency"])
p("C29", "No input makes the library read or write invalid memory",
  "No sequence of API calls and no received message, however malformed, stale or hostile, causes an out-of-bounds access, use after free, null dereference, uninitialised branch or other undefined behaviour; rejected input is ignored, returned as an error, or ends in the library's own fatal-error report. (Null pointers passed as arguments and application errors the documentation forbids, such as compacting beyond what was applied, are excluded.)",
  ["inputs", "histories", "fault_sequences"],
  "All message contents in all node states, and all API call orders.",
  "Tests send well-formed messages and are not run under sanitizers.",
  [RAFT, RN, "src/log.cc", "src/log_unstable.cc", "src/storage.cc", "src/read_only.cc", "src/tracker/inflights.cc", "src/quorum/joint.h"], [("message dispatch", "src/raft.cc Step"), ("API", "src/rawnode.cc")],
  ["address and undefined-behaviour sanitizer reports"])
p("C30", "Membership-change encodings round-trip and keep their meaning",
  "Every membership change, in old or new form, survives encoding into an entry and decoding with identical changes, context and transition, the old form means the same as its one-change new form, and the textual form parses back to the same list; malformed text is refused. Leave-joint requests are recognised exactly when there are no changes and no explicit transition, whatever their context.",
  ["inputs"],
  "All change lists, contexts, transitions and all texts.",
  "A few literals.",
  ["src/raftpb/confchange.cc", "src/util.cc"], [("conversion", "src/raftpb/confchange.cc"), ("text", "src/raftpb/confchange.cc ConfChangesFromString/ConfChangesToString")],
  ["results of the conversion functions"])
p("C31", "Settings are validated and take exactly their documented effect",
  "A node is created exactly when its settings are valid (a non-zero id, a storage, positive heartbeat and window, an election timeout above the heartbeat interval, lease reads only with quorum checking), otherwise creation is refused. Each accepted setting then has its documented effect and no other: timeouts, heartbeat interval, window, message, batch and quota limits (with zero meaning what is documented), pre-vote, quorum checking, read mode and forwarding. A quiesced tick only lets time pass.",
  ["inputs", "configurations"],
  "All combinations of settings, including boundary and extreme values.",
  "Tests run a few fixed settings and never probe most refusals.",
  [RAFT, RN], [("validation", "src/raft.cc Config::Validate, Raft::New"), ("effects", "src/raft.cc constructor, tick functions, AppendEntry, StepLeader, StepFollower"), ("quiesced ticks", "src/rawnode.cc TickQuiesced")],
  ["result of Validate and of creating a node", "behaviour of a node under each setting"])
p("C32", "Status introspection is accurate, independent and read-only",
  "Status and progress queries, pending-work queries and previews of the next batch never change a node's behaviour, report the node's true term, vote, commit, leader, role, applied position, configuration and peer progress, and return copies that stay unchanged as the node moves on. Textual renderings show what the values contain.",
  ["histories", "schedules"],
  "All node states and all interleavings of queries with other operations.",
  "Tests call a query once in a fixed state.",
  [RN, RAFT, "src/tracker/progress.h"], [("status", "src/rawnode.cc GetStatus/GetBasicStatus/WithProgress"), ("preview", "src/rawnode.cc ReadyWithoutAccept/HasReady")],
  ["paired runs with and without queries"])
p("C33", "Only voters of the applied configuration campaign and lead",
  "Learners, removed nodes and nodes not yet in the configuration never start campaigns or become leader, neither by timeout, request nor take-over message, and a node does not campaign while a committed membership change is still unapplied or a received snapshot is still being installed. A leader that is removed stops accepting proposals.",
  ["schedules", "configurations", "histories"],
  "All configurations, promotion, demotion and removal timings.",
  "Tests cover one learner and one removal.",
  [RAFT], [("promotable", "src/raft.cc Promotable/Hup"), ("proposal guard", "src/raft.cc StepLeader MsgProp")],
  ["status and vote requests after every operation"])
p("C34", "Bootstrapping starts identical, consistent clusters and only fresh ones",
  "Starting nodes with the same peer list gives every node the identical initial log, term, commit index and configuration with each peer as voter, and the peers' contexts are delivered to the application. Bootstrapping with no peers or over non-empty storage is refused and changes nothing.",
  ["inputs", "configurations"],
  "All peer lists, contexts and storage contents.",
  "Tests bootstrap a single peer.",
  [RN], [("bootstrap", "src/rawnode.cc Bootstrap")],
  ["first batches of bootstrapped nodes"])
p("C35", "Stale, foreign and local-only messages have no effect",
  "A message from an earlier term changes nothing on the receiver beyond at most a reply that informs the sender, response messages from nodes not in the configuration and local-only message types are refused with an error, and duplicated or late replies never roll back what a leader knows about a follower.",
  ["schedules", "inputs", "histories"],
  "All message types, contents and receiver states.",
  "Tests cover one or two message types.",
  [RAFT, RN, "src/tracker/progress.cc"], [("term filter", "src/raft.cc Step"), ("API filter", "src/rawnode.cc Step"), ("stale progress", "src/tracker/progress.cc MaybeUpdate/MaybeDecrTo")],
  ["state before and after each such message"])
p("C36", "Protocol requests are answered once, truthfully, and passed on faithfully",
  "Every append, snapshot and heartbeat of the current or a newer term, and every vote or pre-vote request not ignored for the sake of a live leader, is answered by exactly one message of the matching kind and term, sent to the node that asked; nobody gets an answer without having asked. A vote or pre-vote is refused only if the voter has voted for another candidate or knows a leader in that term, or has a more up-to-date log, and a refused append is answered with a hint that is true of the refusing log. A campaign asks every other voter once, a node elected by votes announces itself to every other member at once, reads and transfer requests at a follower are passed on once and unchanged to the leader it knows, and a node that reports a leader reports one that really leads that term.",
  ["schedules", "crash points", "histories"],
  "All messages in all states of all nodes.",
  "Tests look at selected messages of selected states.",
  [RAFT, RN], [("requests", "src/raft.cc Step, HandleAppendEntries, HandleHearbeat, HandleSnapshot"), ("campaigns", "src/raft.cc Campaign, StepCandidate"), ("passing on", "src/raft.cc StepFollower, Send")],
  ["messages produced by each operation", "reported leader and role"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
