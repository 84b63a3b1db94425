"""Per property: technique (MANIFEST), rule (evidence: how cases are made and judged), note (MANIFEST: assurance and limits)."""

SIM = ("A case is one simulated cluster history derived from VERIF_SEED and its number: 1-5 members and learners, options, "
       "message loss, duplication, reordering and partitions, crashes at every stage of batch processing, membership changes, compaction, "
       "snapshots, transfers and reads, all drawn at random and driven against the real RawNode code. ")
MOD = "A case is one call sequence derived from VERIF_SEED and its number, run against the real class and an independent reference model side by side. "
LIM = " Nothing is claimed about executions that were not generated; trusts the harness' model of disk, network and application."
MLIM = " Nothing is claimed about call sequences that were not generated; trusts the reference model."

D = {
 "C01": ("online monitor of votes, leaders and quorums over fault-injected cluster executions",
         SIM + "Judged: every vote granted against a per-(node, term) ledger that survives crashes, every new leader against the votes really delivered to it and the expected configuration.",
         "Every vote and leadership of every generated history is judged." + LIM),
 "C02": ("online monitor comparing every new leader's log with the ghost committed log",
         SIM + "Judged: every new leader's whole log against everything any node has made visible as committed, also retrospectively when an older commit becomes visible later; every vote against both logs.",
         "Every election and every vote of every generated history is judged." + LIM),
 "C03": ("online log-matching monitor (chain hashes per index and term) over fault-injected cluster executions",
         SIM + "Judged: after every call, each changed log suffix against a global (index, term) -> chain hash map; every append message against the sender's log; every received append against the result it must have.",
         "Every log change and append message of every generated history is judged." + LIM),
 "C04": ("online monitor of a ghost committed log over fault-injected cluster executions",
         SIM + "Judged: every visible commit and every applied entry against one global committed log; every write to the durable log against the durable commit index; final states of all members.",
         "Every commit and delivery of every generated history is judged." + LIM),
 "C05": ("online exactly-once and order monitor over delivered entries",
         SIM + "Judged: each delivered entry is the successor of the one before, committed, stored locally and unchanged until applied, across batches, snapshots and restarts.",
         "Every delivery of every generated history is judged." + LIM),
 "C06": ("online monitor of commit advances against the durable logs of the voters",
         SIM + "Judged: each commit of a leader, when its batch is durable, against what a quorum of the expected configuration really stored; each commit of a follower against what the message proves to match; acknowledgements and heartbeat commits.",
         "Every commit advance of every generated history is judged." + LIM),
 "C07": ("online monotonicity monitor after every call",
         SIM + "Judged: term, vote, commit and applied position before and after every single call, the sequence of states handed out, and the durable state across restarts.",
         "Every call of every generated history is judged." + LIM),
 "C08": ("online monitor of every batch and every sent message against an independent durable-disk model",
         SIM + "Judged: each batch against what was produced since the previous one (once, complete, unchanged while handed out), and each sent message against the durable state at that moment.",
         "Every batch and message of every generated history is judged, with batches taken both one at a time and with input arriving in between." + LIM),
 "C09": ("crash injection at random points of batch processing with an independent durable-disk model",
         SIM + "Crashes hit between taking, persisting, sending, applying and acknowledging a batch, with and without losing writes not required to be synchronous, and with logs that reach below the last snapshot. Judged: the restarted node's state, log, configuration and next delivery against the disk model.",
         "Every restart of every generated history is judged. Torn writes within one batch are the application's business and not modelled." + LIM),
 "C10": ("offline/online ledger of uniquely tagged proposals",
         SIM + "Each proposal carries a unique payload. Judged: every entry a leader appends, every forwarded proposal and every committed entry against the ledger of what was submitted, refused and already committed.",
         "Every proposal and committed entry of every generated history is judged." + LIM),
 "C11": ("linearizability monitor of reads against the global visible commit index",
         SIM + "Includes split-brain phases in which a superseded leader keeps serving reads. Judged: each read result against the highest index visibly committed anywhere when it was requested, its context, its node and how often it is answered.",
         "Every read of every generated history is judged." + LIM),
 "C12": ("linearizability monitor of lease reads under lockstep clocks",
         SIM + "Clocks advance in lockstep, messages arrive within the tick or are lost to partitions; voters do not crash. Judged: each read result against the highest index visibly committed when it was requested.",
         "Every lease read of every generated history is judged, except for the recorded finding, identified by its conditions (a leader cut off from its quorum inside its check-quorum window)." + LIM),
 "C13": ("online monitor of configurations against a reference algebra applied to the committed changes",
         SIM + "Judged: after every call each node's active configuration against the reference configuration at its applied index; every membership change a leader appends or neutralises against the gating rule.",
         "Every membership change of every generated history is judged." + LIM),
 "C14": ("reference-model differential monitor of configuration changes, plus cluster executions",
         MOD + "Chains of enter-joint, leave-joint and simple changes over random valid configurations, valid and invalid lists, with progress of members in random states; and simulated clusters. Judged: result or refusal, the peers tracked and that a refusal changes nothing.",
         "Every transition generated is judged." + MLIM),
 "C15": ("round-trip monitor of restore against a set model, with neighbouring states for equality",
         MOD + "Random valid configurations serialised in shuffled order, restored and compared; equality judged against twelve kinds of near-equal neighbours.",
         "Every restore and comparison generated is judged." + MLIM),
 "C16": ("brute-force oracle over generated voter sets, acknowledgements and votes",
         MOD + "Majority, joint and tracker arithmetic against definitions computed by brute force.",
         "Every arithmetic result generated is judged." + MLIM),
 "C17": ("online monitor of snapshots against the replayed state at their index",
         SIM + "The application state is a hash of everything applied. Judged: every snapshot sent against what an application produced at that index, every snapshot received against the state it must lead to, also while a batch is being processed.",
         "Every snapshot of every generated history is judged." + LIM),
 "C18": ("mirror of each follower's in-flight window kept from the observed messages, plus a window model",
         SIM + "Small windows and message sizes. Judged: every message a leader sends against a mirrored window and probe state; releases; bursts replicated without clock ticks. A second program drives Inflights against a list model.",
         "Every message of every generated history is judged." + LIM),
 "C19": ("interval bound on uncommitted bytes kept from the observed appends and deliveries",
         SIM + "Small quotas. Judged: every accepted and refused proposal against bounds on the uncommitted bytes; recovery of the quota in healthy phases.",
         "Every proposal of every generated history is judged." + LIM),
 "C20": ("per-leader clock monitor of replies heard from voters",
         SIM + "Mostly lockstep rounds. Judged: at every tick of a leader, whether a quorum was heard in its last windows, against whether it stepped down.",
         "Every leader tick of every generated history is judged." + LIM),
 "C21": ("online monitor of pre-votes, leases and term increases",
         SIM + "Judged: every term increase against the pre-votes really delivered, every answered pre-vote against the state before it, every ordinary vote request against the lease, and return-from-isolation phases.",
         "Every pre-vote, vote request and term increase of every generated history is judged." + LIM),
 "C22": ("online monitor of transfers, their duration and targets, with healthy-phase completion",
         SIM + "Judged: each take-over message against configuration and logs, refusals during a transfer, the time until it ends, and in healthy phases that the chosen voter leads.",
         "Every transfer of every generated history is judged." + LIM),
 "C23": ("per-node tick monitor of campaigns and heartbeats, plus statistics of drawn waits",
         SIM + "Judged: ticks between contact and campaign, heartbeats at each interval. A second program measures the waits of thousands of elections: range, freshness and independence.",
         "Every tick of every generated history is judged; the statistical tests have false-alarm odds below 1e-9." + LIM),
 "C24": ("bounded-progress monitor after faults stop",
         SIM + "Each case ends in a phase without faults. Judged: within a fixed number of ticks there is one leader, all members agree on commit, application state and configuration, joint configurations are left, and proposals, reads, transfers and failovers complete.",
         "Liveness is judged as progress within a fixed number of ticks after the end of each generated history." + LIM),
 "C25": ("probe counter over reconciliations of generated divergent logs",
         MOD + "A leader and a follower get random logs that diverge over up to a dozen terms and the rejected probes are counted against the number of terms; and simulated clusters.",
         "Every reconciliation generated is judged." + MLIM),
 "C26": ("reference-model differential monitor of MemoryStorage",
         MOD + "Random sequences of appends, compactions, snapshots and reads with boundary arguments, small and huge start indexes, while all objects returned earlier are held and compared again.",
         "Every result generated is judged." + MLIM),
 "C27": ("reference-model differential monitor of the in-memory log against one flat sequence",
         MOD + "Random sequences of appends, truncations, commits, (superseded) persistence acknowledgements, restores and compactions; after each step all queries are compared; and simulated clusters.",
         "Every query generated is judged." + MLIM),
 "C28": ("ThreadSanitizer under real threads, plus lost-update and log-line oracles",
         "A case is one multi-threaded run derived from VERIF_SEED and its number: shared storage, nodes in separate threads, a shared logger or a threaded cluster with injected yields. ThreadSanitizer watches all accesses; final states and every log line are checked.",
         "Races on the executed accesses are reported; interleavings are those of the machine and the injected yields. Nothing is claimed about others."),
 "C29": ("AddressSanitizer, UndefinedBehaviorSanitizer and Memcheck under hostile messages and API calls",
         "A case is one run derived from VERIF_SEED and its number: a node, a start-up, a cluster with mutated messages, direct API calls with boundary arguments or a simulated cluster with all log lines formatted, under sanitizers (and a smaller share under Memcheck).",
         "Every executed access is watched within what red zones can see; nothing is claimed about inputs not generated. Reports through the library's own fatal log level are accepted endings; null pointers passed by the caller are excluded."),
 "C30": ("round-trip and meaning oracle over generated membership changes and text",
         MOD + "Membership changes in both forms, random text and mutated valid text, with boundary ids; and simulated clusters.",
         "Every encoding generated is judged." + MLIM),
 "C31": ("model-based monitor of settings: predicted verdict of validation, scripted node with a simulated peer",
         "Random settings with boundary and extreme values are validated and used to create nodes; a second part runs a node under random valid settings against a peer played by the harness through election, heartbeats, proposals, acknowledgements, reads, isolation and forwarding. Judged: every refusal and acceptance, and each setting's observed effect.",
         "Every generated combination is judged; timeouts beyond 2^40 ticks are not generated." + LIM),
 "C32": ("paired executions with and without queries, and comparison of every status with the observed state",
         SIM + "Judged: every status against the node's state before and after, copies kept and compared later, and the whole history against a twin without queries.",
         "Every query of every generated history is judged." + LIM),
 "C33": ("online monitor of campaigns against the expected configuration and unapplied changes",
         SIM + "Frequent membership changes. Judged: every campaign and new leader against the reference configuration and the changes committed but not applied.",
         "Every campaign of every generated history is judged." + LIM),
 "C34": ("monitor of bootstrapped nodes against the expected initial state, plus clusters grown from it",
         SIM + "All clusters are bootstrapped; a second program bootstraps from random peer lists over empty and non-empty storages. Judged: initial log, term, commit, configuration, delivered contexts and refusals.",
         "Every bootstrap generated is judged." + LIM),
 "C35": ("replay and injection of stale, foreign and local messages with before/after comparison",
         SIM + "Old messages are delivered again, messages of strangers and local kinds injected. Judged: the receiver's state and replies before and after, and that follower progress never goes back.",
         "Every stale or foreign message of every generated history is judged." + LIM),
 "C36": ("online monitor of requests, answers and reported leaders",
         SIM + "Judged on every operation: which answers it produced, to whom, of what kind and term, whether refusals had a reason, whom campaigns and new leaders addressed, what was passed on, and whether the reported leader ever led the term.",
         "Every operation of every generated history is judged." + LIM),
}

PEER = (" Further cases: one node next to a reference follower, talked to by a made-up but legal cluster (vmod peer: successive leaders, late and "
        "repeated messages, candidates, snapshots, crashes, batches acknowledged at any moment); its answers, status and next batch are compared after every operation.")
for _k in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C17", "C25", "C27", "C33", "C35", "C36"):
    _t, _r, _n = D[_k]
    D[_k] = (_t, _r + PEER, _n)
