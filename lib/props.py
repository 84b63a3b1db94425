"""What decides each property: which programs run, how much of each per tier, which counters make a case relevant.

engine = (program, flavor, module, {tier: cases}[, extra arguments])   module: scenario family (--prop for vsim, --mod for vmod ...)
rel    = counters whose events the property's monitors judge (a case is non-trivial if any of them is positive)
need   = counters that must be positive over the whole run, otherwise the run decided nothing"""

import describe

QUICK, THOROUGH = 16000, 600000


def sim(module, quick=QUICK, thorough=THOROUGH):
    return ("vsim", "plain", module, {"quick": quick, "thorough": thorough})


def mod(module, quick, thorough):
    return ("vmod", "plain", module, {"quick": quick, "thorough": thorough})


def san(program, flavor, module, quick, thorough, *extra):
    return (program, flavor, module, {"quick": quick, "thorough": thorough}, list(extra))


def E(*engines, rel, need=None):
    return {"engines": list(engines), "rel": rel, "need": need if need is not None else rel}


PROPS = {
    "C01": E(sim("C01"), mod("peer", 40000, 1000000), rel=["C01.leaders", "C01.votes", "peer.grants", "peer.refused_old_logs"]),
    "C02": E(sim("C02"), mod("peer", 40000, 1000000), rel=["C02.leader_checks", "C02.grants", "C02.rejections", "peer.refused_old_logs"]),
    "C03": E(sim("C03"), mod("peer", 40000, 1000000), rel=["C03.appends_accepted", "C03.appends_rejected", "C03.truncations", "peer.appends", "peer.truncations"]),
    "C04": E(sim("C04"), mod("peer", 40000, 1000000), rel=["C04.committed", "C05.applied", "peer.checks"]),
    "C05": E(sim("C05"), mod("peer", 40000, 1000000), rel=["C05.delivered", "C05.applied", "peer.checks"]),
    "C06": E(sim("C06"), mod("peer", 40000, 1000000), rel=["C06.leader_commits", "C06.quorum_checks", "C06.heartbeat_commits", "peer.appends"]),
    "C07": E(sim("C07"), mod("peer", 40000, 1000000), rel=["C07.ops", "peer.checks"]),
    "C08": E(sim("C08"), mod("peer", 40000, 1000000), rel=["C08.batches", "C08.sends_checked", "peer.batches", "peer.superseded_batches"]),
    "C09": E(sim("C09"), mod("peer", 40000, 1000000), rel=["C09.restarts_compared", "peer.restarts"]),
    "C10": E(sim("C10"), rel=["C10.committed", "C10.refused", "C10.leader_proposals"]),
    "C11": E(sim("C11"), rel=["C11.results", "C11.quorum_answers", "C11.joint_answers", "C11.late_reads"]),
    "C12": E(sim("C12"), rel=["C11.results"]),
    "C13": E(sim("C13"), rel=["C13.applied_changes", "C13.conf_proposals"]),
    "C14": E(mod("change", 20000, 2000000), sim("C13", 6000, 100000), rel=["C14.transitions", "C13.applied_changes"]),
    "C15": E(mod("restore", 80000, 1000000), rel=["C15.restores"]),
    "C16": E(mod("quorum", 60000, 1500000), rel=["C16.committed", "C16.votes", "C16.tallies"]),
    "C17": E(sim("C17"), mod("peer", 40000, 1000000), rel=["C17.snapshots_received", "C17.installed", "peer.installs", "peer.superseded_snapshots"]),
    "C18": E(sim("C18"), mod("inflights", 40000, 1000000), rel=["C18.window_checks", "C18.probes", "C18.window_full", "C18.window_ops"], need=["C18.window_checks", "C18.probes", "C18.window_full", "C18.window_ops", "C18.unreachable_reports", "C18.snapshot_successes", "C18.snapshot_failures"]),
    "C19": E(sim("C19"), rel=["C19.accepted", "C19.refused"]),
    "C20": E(sim("C20"), rel=["C20.leader_ticks", "C20.stepdowns", "C20.window_checks"]),
    "C21": E(sim("C21"), rel=["C21.prevotes", "C21.lease_ignores", "C21.prevote_wins"]),
    "C22": E(sim("C22"), rel=["C22.transfers", "C22.timeoutnow"]),
    "C23": E(sim("C23"), mod("timeouts", 1500, 60000), rel=["C23.ticks", "C23.tick_campaigns", "C23.heartbeats", "C23.waits"]),
    "C24": E(sim("C24"), rel=["C24.completed"]),
    "C25": E(mod("probe", 80000, 1000000), sim("C03", 4000, 100000), mod("peer", 40000, 1000000), rel=["C25.reconciliations", "peer.refused_appends"], need=["C25.reconciliations", "C25.diverged", "C25.rejections", "peer.refused_appends"]),
    "C26": E(mod("storage", 80000, 1500000), rel=["C26.results"], need=["C26.results", "C26.held", "C26.truncations", "C26.limited", "C26.installs", "C26.snapshots"]),
    "C27": E(mod("log", 80000, 1500000), sim("C17", 6000, 100000), mod("peer", 40000, 1000000), rel=["C27.queries", "peer.superseded_batches", "peer.superseded_snapshots"], need=["C27.queries", "C27.superseded_acks", "C27.superseded_snaps", "C27.truncate_stable", "C27.truncate_unstable", "C27.compactions", "peer.superseded_batches", "peer.superseded_snapshots"]),
    "C28": E(san("vtsan", "tsan", "storage", 400, 8000), san("vtsan", "tsan", "isolated", 200, 4000), san("vtsan", "tsan", "logger", 400, 8000), san("vtsan", "tsan", "cluster", 400, 8000),
             rel=["C28.storage_reads", "C28.isolated_runs", "C28.log_lines", "C28.threaded_committed"]),
    "C29": E(san("vfuzz", "asan", "node", 8000, 600000), san("vfuzz", "asan", "start", 8000, 400000), san("vfuzz", "asan", "cluster", 4000, 400000), san("vfuzz", "asan", "api", 16000, 1000000),
             san("vsim", "asan", "C29", 500, 50000, "--format-all"), san("vfuzz", "memcheck", "node", 120, 8000), san("vfuzz", "memcheck", "cluster", 80, 6000), san("vfuzz", "memcheck", "api", 120, 8000), san("vsim", "memcheck", "C29", 24, 1500, "--format-all"),
             rel=["C29.messages", "C29.api_calls", "C29.started", "C29.mutated", "C07.ops"], need=["C29.messages", "C29.api_calls", "C29.started", "C29.mutated"]),
    "C30": E(mod("encoding", 60000, 1000000), sim("C13", 4000, 100000), rel=["C30.v1", "C30.v2", "C30.text"], need=["C30.v1", "C30.v2", "C30.text", "C30.malformed"]),
    "C31": E(mod("settings", 150000, 3000000), rel=["C31.scripts", "C31.valid", "C31.refused"]),
    "C32": E(sim("C32", 8000), rel=["C32.queries", "C32.paired_runs"]),
    "C33": E(sim("C33"), mod("roles", 60000, 2000000), mod("peer", 40000, 1000000), rel=["C33.campaigns", "C33.nonvoter_asked", "peer.campaigns"], need=["C33.campaigns", "C33.nonvoter_asked", "C33.demoted_candidates", "C33.elected", "peer.campaigns"]),
    "C34": E(sim("C34", 10000), mod("bootstrap", 20000, 500000), rel=["C34.bootstraps", "C34.nodes", "C34.refused"]),
    "C35": E(sim("C35"), mod("peer", 40000, 1000000), rel=["C35.stale", "C35.injected", "C35.match_checks", "peer.stale", "peer.repeated"]),
    "C36": E(sim("C36"), mod("peer", 40000, 1000000), rel=["C36.requests", "C36.vote_requests", "C36.campaigns", "C36.passed_on", "C36.refusals", "peer.checks", "peer.campaigns"]),
}
# wall-clock caps in seconds for running (building not included)
CAP = {"quick": 240, "thorough": 3000}
ASSUME = {
    "*": ["the harness' storage and transport honour the documented contract (persist before send, snapshot reports delivered)",
          "judged on the executions generated from VERIF_SEED only"],
}
TECH = {k: v[0] for k, v in describe.D.items()}
RULES = {k: v[1] for k, v in describe.D.items()}
NOTE = {k: v[2] for k, v in describe.D.items()}
NA = {}
