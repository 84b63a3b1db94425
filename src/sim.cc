#include "sim.h"
#include <cassert>
#include <algorithm>
#include <functional>
using namespace craft;
namespace vv {

static std::string snapdata(uint64_t i, uint64_t chain, int pad) { return fmt("snap:%lu:%016lx:", i, chain) + std::string(pad, 'x'); }
static int snappad(uint64_t i) { return (int)(mix64(i) % 40); }

Sim::Sim(const Params& p, uint64_t seed, bool vb) : P(p), rng(seed), qrng(seed ^ 0xabcdef), verbose(vb) {
  logger = std::make_shared<SimLogger>(p.format_all);
}

void Sim::log(const char* f, ...) {
  if (!verbose) return;
  va_list ap; va_start(ap, f); vfprintf(stderr, f, ap); va_end(ap);
  fputc('\n', stderr);
}

void Sim::viol(const std::string& props, const std::string& key, const std::string& msg) {
  for (auto& v : viols) if (v.key == key && v.props == props) return;
  log("!!! VIOLATION [%s] %s: %s", props.c_str(), key.c_str(), msg.c_str());
  viols.push_back({props, key, msg});
  if (key == "stale-lease-read-lease-window") return;  // recorded finding: look further
  if (props == "ANY" || P.prop == "ALL" || (" " + props + " ").find(" " + P.prop + " ") != std::string::npos || viols.size() > 12) {
    stopped = true;
    throw Stop();
  }
}

std::string Sim::mstr(const Message& m) {
  std::string s = fmt("%s %lu->%lu t=%lu lt=%lu i=%lu c=%lu n=%d%s hint=%lu ctx=%s", raftpb::MessageType_Name(m.type()).c_str(), m.from(), m.to(), m.term(),
             m.logterm(), m.index(), m.commit(), m.entries_size(), m.reject() ? " REJ" : "", m.rejecthint(), m.context().c_str());
  if (m.type() == raftpb::MsgSnap) s += fmt(" snap=%lu/%lu", m.snapshot().metadata().index(), m.snapshot().metadata().term());
  return s;
}

std::vector<Node*> Sim::live() { std::vector<Node*> r; for (auto& p : nodes) if (p.second->up) r.push_back(p.second.get()); return r; }
std::vector<Node*> Sim::all() { std::vector<Node*> r; for (auto& p : nodes) if (!p.second->retired) r.push_back(p.second.get()); return r; }
Node* Sim::leader() {
  Node* b = nullptr;
  for (auto* n : live()) if (n->v.state == kLeader && (!b || n->v.term > b->v.term)) b = n;
  return b;
}

bool Sim::ever_durable(uint64_t id, uint64_t idx, uint64_t term, uint64_t chain) {
  Node* n = node(id);
  if (!n) return false;
  if (idx == 0) return true;
  if (idx <= n->max_snap_ever && idx <= cmax() && idx >= cbase && cchain(idx) == chain) return true;
  auto it = durable.find(key(idx, chain));
  return it != durable.end() && (it->second >> (id & 63) & 1);
}

// ---------------------------------------------------------------- node lifecycle

NView Sim::view(Node& n) {
  Raft* r = n.rn->GetRaft();
  NView v;
  v.term = r->Term(); v.vote = r->Vote(); v.lead = r->Lead(); v.state = r->State();
  v.commit = r->GetRaftLog()->Committed(); v.applied = r->GetRaftLog()->Applied();
  v.last = r->GetRaftLog()->LastIndex(); v.last_term = r->GetRaftLog()->LastTerm();
  v.transferee = r->LeadTransferee(); v.psnap = r->GetRaftLog()->HasPendingSnapshot();
  v.nm = r->Msgs().size(); v.nrs = r->GetReadStates().size();
  if (v.state == kLeader) {
    r->GetTracker().Visit([&](uint64_t id, ProgressPtr& p) {
      PrView q;
      q.match = p->Match(); q.next = p->Next(); q.pend = p->PendingSnapshot(); q.st = (int)p->State(); q.paused = p->IsPaused();
      q.probe = p->ProbeSent(); q.active = p->RecentActive(); q.learner = p->IsLearner(); q.infl = p->GetInflights()->Count();
      v.pr[id] = q;
    });
  }
  return v;
}

std::shared_ptr<const LogView> Sim::rebuild(Node& n) {
  craft::RaftLog* l = n.rn->GetRaft()->GetRaftLog();
  auto lv = std::make_shared<LogView>();
  uint64_t fi = l->FirstIndex();
  lv->base = fi - 1;
  auto us = l->UnstableSnapshot();
  if (us && us->metadata().index() > 0) {
    lv->base_term = us->metadata().term();
    lv->base_chain = (lv->base >= cbase && lv->base <= cmax()) ? cchain(lv->base) : 0xdead;
  } else {
    lv->base_term = n.disk.has(lv->base) ? n.disk.term(lv->base) : 0xdead;
    lv->base_chain = n.disk.has(lv->base) ? n.disk.chain(lv->base) : 0xdead;
  }
  auto es = l->AllEntries();
  uint64_t c = lv->base_chain, i = lv->base;
  lv->e.reserve(es.size());
  for (auto& e : es) {
    if (e->index() != ++i) viol("C03 C27 C04", "log-index-gap", fmt("node %lu: log entry at position %lu carries index %lu", n.id, i, e->index()));
    c = chain_next(c, *e);
    lv->e.push_back({e->term(), c, is_conf(*e)});
  }
  return lv;
}

Conf Sim::tracker_conf(Node& n) {
  auto& c = n.rn->GetRaft()->GetTracker().GetConfig();
  Conf r;
  r.V = c.voters.Incoming().IDs(); r.O = c.voters.Outgoing().IDs(); r.L = c.learners; r.LN = c.learners_next; r.al = c.auto_leave;
  return r;
}

void Sim::check_conf(Node& n, const char* where) {
  Conf c = tracker_conf(n);
  if (c != n.conf)
    viol("C13 C14", "active-config-differs", fmt("node %lu after %s: active configuration %s, expected %s", n.id, where, c.str().c_str(), n.conf.str().c_str()));
}

void Sim::add_node(uint64_t id) {
  if (nodes.count(id)) return;
  auto n = std::make_unique<Node>();
  n->id = id;
  nodes[id] = std::move(n);
}

void Sim::start_node(Node& n, bool first) {
  if (n.up || n.retired) return;
  ctr["node_starts"]++;
  auto& d = n.disk;
  // volatile part is rebuilt from the durable part only
  if (d.soft) d.soft.reset();
  // A storage may keep entries below its newest snapshot; the application then resumes from that snapshot or replays the log.
  bool keep = d.snap && d.snap->metadata().index() > d.base && d.has(d.snap->metadata().index()) && d.base >= cbase &&
              d.chain(d.snap->metadata().index()) == d.snap_chain && rng.chance(0.5);
  bool replay = keep && !P.app_durable && rng.chance(0.5);
  if (!keep && d.snap && d.snap->metadata().index() > d.base) {
    uint64_t k = d.snap->metadata().index() - d.base;
    if (k > d.ents.size()) k = d.ents.size();
    uint64_t b = d.snap->metadata().index();
    d.base_term = d.snap->metadata().term();
    d.base_chain = d.snap_chain;
    d.ents.erase(d.ents.begin(), d.ents.begin() + k);
    d.chains.erase(d.chains.begin(), d.chains.begin() + k);
    d.base = b;
  }
  n.st = std::make_shared<SimStorage>(logger);
  if (d.snap && !keep) n.st->ApplySnapshot(std::make_shared<raftpb::Snapshot>(*d.snap));
  if (keep && d.base > 0) {
    auto b = std::make_shared<raftpb::Snapshot>();
    b->mutable_metadata()->set_index(d.base);
    b->mutable_metadata()->set_term(d.base_term);
    *b->mutable_metadata()->mutable_conf_state() = to_cs(conf_at(d.base));
    n.st->ApplySnapshot(b);
  }
  EntryPtrs es;
  for (auto& e : d.ents) es.push_back(std::make_shared<raftpb::Entry>(e));
  n.st->Append(es);
  if (d.hs.term() || d.hs.vote() || d.hs.commit()) n.st->SetHardState(d.hs);

  if (keep) {
    auto cs = d.snap->metadata().conf_state();
    n.st->CreateSnapshot(d.snap->metadata().index(), &cs, d.snap->data());
    ctr["C09.restarts_with_log_below_snapshot"]++;
  }

  uint64_t snapi = d.snap ? d.snap->metadata().index() : 0;
  uint64_t applied = snapi;
  Conf c = d.snap ? from_cs(d.snap->metadata().conf_state()) : Conf();
  uint64_t chain = d.snap ? d.snap_chain : 0;
  if (P.app_durable && d.app_applied > snapi) {
    applied = d.app_applied;
    c = d.app_conf;
    chain = d.has(applied) ? d.chain(applied) : 0xdead;
    n.st->cs_override = to_cs(c);
  }
  if (replay) {
    applied = d.base; c = conf_at(d.base); chain = d.base_chain;
    n.st->cs_override = to_cs(c);
    ctr["C09.restarts_with_replay"]++;
  }
  Raft::Config cfg;
  cfg.id = n.id; cfg.election_tick = P.E; cfg.heartbeat_tick = P.H; cfg.storage = n.st;
  cfg.applied = (P.app_durable && applied > snapi) ? applied : (P.app_durable && rng.chance(0.5) ? applied : 0);
  if (keep && !replay) cfg.applied = applied;
  cfg.max_size_per_msg = P.max_size; cfg.max_committed_size_per_ready = P.max_commit;
  cfg.max_uncommitted_entries_size = P.quota; cfg.max_inflight_msgs = P.inflight;
  cfg.check_quorum = P.cq; cfg.pre_vote = P.pv;
  cfg.read_only_option = P.lease ? ReadOnly::kLeaseBased : ReadOnly::kSafe;
  cfg.disable_proposal_forwarding = P.nofwd;
  cfg.logger = logger;

  int inc = n.inc + 1;
  // reset every volatile field, keep identity, durable state and long-lived ghosts
  Disk disk = std::move(n.disk);
  auto st = n.st;
  uint64_t id = n.id; bool boot = n.bootstrapped; uint64_t mse = n.max_snap_ever;
  n = Node();
  n.id = id; n.bootstrapped = boot; n.inc = inc; n.disk = std::move(disk); n.st = st; n.max_snap_ever = mse;
  bool do_boot = boot && !n.disk.dirty;
  log("[%lu] start node %lu inc %d hs={%lu,%lu,%lu} log=(%lu,%lu] applied=%lu conf=%s%s", now, id, inc, n.disk.hs.term(), n.disk.hs.vote(),
      n.disk.hs.commit(), n.disk.base, n.disk.last(), applied, c.str().c_str(), do_boot ? " BOOTSTRAP" : "");
  try {
    if (do_boot) {
      std::vector<Peer> peers;
      for (int i = 1; i <= P.n; i++) peers.push_back({nid(i), fmt("ctx%d", i)});
      n.rn = RawNode::Start(cfg, peers);
    } else {
      n.rn = RawNode::ReStart(cfg);
    }
  } catch (Panic& p) {
    viol("ANY", "fatal-on-start", fmt("node %lu: library fatal error on start: %s", id, p.what()));
  }
  n.up = true;
  n.app_applied = applied; n.app_chain = chain; n.app_conf = c;
  n.conf = c;
  n.last_hs = n.disk.hs;
  n.rd_sent.clear(); n.rd_acked.clear(); n.rd_first.clear();
  if (do_boot) {
    for (int i = 1; i <= P.n; i++) n.conf.V.insert(nid(i));
    n.last_hs.Clear();
  }
  n.log = rebuild(n);
  n.v = view(n);
  // C09: the restarted node resumes exactly from its durable state.
  auto& v = n.v;
  if (v.state != kFollower || v.lead != 0) viol("C09", "restart-not-follower", fmt("node %lu restarts in state %d lead %lu", id, v.state, v.lead));
  if (!do_boot) {
    uint64_t ecommit = std::max<uint64_t>(n.disk.hs.commit(), n.disk.base);
    if (v.term != n.disk.hs.term() || v.vote != n.disk.hs.vote() || v.commit != ecommit)
      viol("C09 C07 C01", "restart-hardstate", fmt("node %lu restarts with term/vote/commit %lu/%lu/%lu, durable %lu/%lu/%lu", id, v.term, v.vote, v.commit,
                                              n.disk.hs.term(), n.disk.hs.vote(), ecommit));
    if (v.applied != applied) viol("C09 C05", "restart-applied", fmt("node %lu restarts with applied %lu, declared %lu", id, v.applied, applied));
    if (v.last != n.disk.last() || n.log->base != n.disk.base) viol("C09 C27", "restart-log", fmt("node %lu restarts with log (%lu,%lu], durable (%lu,%lu]", id, n.log->base, v.last, n.disk.base, n.disk.last()));
    else
      for (uint64_t i = n.disk.base; i <= n.disk.last(); i++)
        if (n.log->chain(i) != n.disk.chain(i)) viol("C09 C27 C26", "restart-log-content", fmt("node %lu restarts with different entry at %lu", id, i));
    ctr["C09.restarts_compared"]++;
  } else {
    if (v.term != 1 || v.commit != (uint64_t)P.n || v.last != (uint64_t)P.n) viol("C34 C09", "bootstrap-state", fmt("node %lu bootstraps to term %lu commit %lu last %lu", id, v.term, v.commit, v.last));
    ctr["C34.bootstraps"]++;
  }
  check_conf(n, "start");
  trace = hcomb(trace, hcomb(id, v.term * 31 + v.commit));
}

void Sim::crash(Node& n) {
  if (!n.up) return;
  ctr["crashes"]++;
  log("[%lu] CRASH node %lu (stage %d)", now, n.id, n.stage);
  if (n.disk.soft) {
    if (rng.chance(0.5)) n.disk.hs = *n.disk.soft;
    else ctr["lost_unsynced_writes"]++;
    n.disk.soft.reset();
  }
  n.rn.reset(); n.rd.reset(); n.st.reset();
  n.up = false; n.stage = 0;
  n.gen.clear(); n.gen_rs.clear(); n.pend_commit.clear(); n.rd_pend.clear(); n.lead_pending = n.rd_lead = 0; n.rd_msgs.clear();
}

void Sim::setup() {
  for (int i = 1; i <= P.n + P.nlearn; i++) add_node(nid(i));
  if (P.bootstrap) {
    cbase = 0; cbase_term = 0; cbase_chain = 0;
    for (int i = 1; i <= P.n; i++) {
      raftpb::ConfChange cc;
      cc.set_type(raftpb::ConfChangeAddNode); cc.set_node_id(nid(i)); cc.set_context(fmt("ctx%d", i));
      auto& p = props[cc.SerializeAsString()];
      p.submissions = 1; p.conf = true; p.type = raftpb::EntryConfChange;
      nodes[nid(i)]->bootstrapped = true;
    }
  } else {
    cbase = P.base_index; cbase_term = P.base_term; cbase_chain = mix64(777);
    for (int i = 1; i <= P.n; i++) cbase_conf.V.insert(nid(i));
    for (int i = P.n + 1; i <= P.n + P.nlearn; i++) cbase_conf.L.insert(nid(i));
    if (P.joint_start && P.n >= 2) {
      cbase_conf.O = cbase_conf.V;
      uint64_t k = nid(rng.range(1, P.n));
      if (cbase_conf.V.size() > 1) { cbase_conf.V.erase(k); if (rng.chance(0.5)) cbase_conf.LN.insert(k); }
      cbase_conf.al = rng.chance(0.5);
    }
    for (int i = 1; i <= P.n + P.nlearn; i++) {
      auto& d = nodes[nid(i)]->disk;
      d.snap = std::make_shared<raftpb::Snapshot>();
      d.snap->mutable_metadata()->set_index(cbase);
      d.snap->mutable_metadata()->set_term(cbase_term);
      *d.snap->mutable_metadata()->mutable_conf_state() = to_cs(cbase_conf);
      d.snap->set_data(snapdata(cbase, cbase_chain, snappad(cbase)));
      d.snap_chain = cbase_chain;
      d.base = cbase; d.base_term = cbase_term; d.base_chain = cbase_chain;
      d.hs.set_term(cbase_term); d.hs.set_commit(cbase);
      d.dirty = true;
      nodes[nid(i)]->max_snap_ever = cbase;
    }
  }
  for (auto* n : all()) start_node(*n, true);
}

// ---------------------------------------------------------------- operations

template <class F> void Sim::op(Node& n, Op k, const Message* in, uint64_t arg, F f) {
  nops++;
  if (n.stage != 0 && k != Op::ApplyCC && k != Op::Query && k != Op::Advance) n.rd_in_async = true;
  NView pre = n.v;
  auto prelog = n.log;
  if (k == Op::Tick) n.ticks++;
  craft::Status st;
  try {
    st = f();
  } catch (Panic& p) {
    viol("ANY", "library-fatal", fmt("node %lu: library fatal error during %s%s%s: %s", n.id, opname(k), in ? " of " : "", in ? mstr(*in).c_str() : "", p.what()));
  }
  after(n, k, in, arg, pre, *prelog, st);
}

void Sim::after(Node& n, Op k, const Message* in, uint64_t arg, const NView& pre, const LogView& prelog, const craft::Status& st) {
  NView post;
  try { post = view(n); } catch (Panic& p) { viol("ANY", "library-fatal", fmt("node %lu: fatal while reading state: %s", n.id, p.what())); }
  Raft* r = n.rn->GetRaft();
  bool full = post.last != pre.last || post.last_term != pre.last_term || (pre.state != post.state && post.state == kLeader) || k == Op::Propose || k == Op::Advance ||
              (in && (in->type() == raftpb::MsgApp || in->type() == raftpb::MsgSnap || in->type() == raftpb::MsgProp)) || post.psnap != pre.psnap;
  if (full) {
    try { n.log = rebuild(n); } catch (Panic& p) { viol("ANY", "library-fatal", fmt("node %lu: fatal while reading log: %s", n.id, p.what())); }
  }
  n.v = post;
  if (post.nm < pre.nm || post.nrs < pre.nrs) viol("C08", "output-lost", fmt("node %lu: pending messages/reads vanished during %s (%zu->%zu, %zu->%zu)", n.id, opname(k), pre.nm, post.nm, pre.nrs, post.nrs));
  std::vector<const Message*> out;
  for (size_t i = pre.nm; i < post.nm; i++) out.push_back(r->Msgs()[i].get());
  for (auto* m : out) n.gen.push_back(m->SerializeAsString());
  for (size_t i = pre.nrs; i < post.nrs; i++) {
    auto& rs = r->GetReadStates()[i];
    n.gen_rs.push_back(fmt("%lu@", rs.index) + rs.request_ctx);
  }
  if (verbose) {
    log("[%lu] node %lu %s%s%s arg=%lu%s -> t=%lu v=%lu l=%lu s=%d c=%lu a=%lu last=%lu/%lu out=%zu", now, n.id, opname(k), in ? " " : "", in ? mstr(*in).c_str() : "", arg,
        st.IsOK() ? "" : fmt(" ERR(%s)", st.Str()).c_str(), post.term, post.vote, post.lead, post.state, post.commit, post.applied, post.last, post.last_term, out.size());
    for (auto* m : out) log("      + %s", mstr(*m).c_str());
  }
  // trace hash for C32 pairing
  trace = hcomb(trace, hcomb(n.id * 64 + (uint64_t)k, hcomb(post.term * 8 + post.state, hcomb(post.commit, post.last * 16 + post.lead))));
  for (auto* m : out) trace = hcomb(trace, hstr(m->SerializeAsString()));
  if (post.term > max_term) max_term = post.term;
  max_commit_ever = std::max(max_commit_ever, post.commit);

  // C07 monotonicity
  if (post.term < pre.term) viol("C07 C01", "term-decreased", fmt("node %lu: term %lu -> %lu on %s", n.id, pre.term, post.term, opname(k)));
  if (post.term == pre.term && pre.vote != 0 && post.vote != pre.vote) viol("C07 C01", "vote-changed", fmt("node %lu term %lu: vote %lu -> %lu on %s", n.id, pre.term, pre.vote, post.vote, opname(k)));
  if (post.commit < pre.commit) viol("C07 C04", "commit-decreased", fmt("node %lu: commit %lu -> %lu on %s", n.id, pre.commit, post.commit, opname(k)));
  if (post.applied < pre.applied) viol("C07 C05", "applied-decreased", fmt("node %lu: applied %lu -> %lu on %s", n.id, pre.applied, post.applied, opname(k)));
  if (post.applied > post.commit) viol("C05 C07", "applied-past-commit", fmt("node %lu: applied %lu > commit %lu", n.id, post.applied, post.commit));
  if (post.commit > post.last) viol("C06 C07", "commit-past-log", fmt("node %lu: commit %lu > last %lu", n.id, post.commit, post.last));
  ctr["C07.ops"]++;

  bool newleader = post.state == kLeader && (pre.state != kLeader || pre.term != post.term);
  check_log(n, k, in, pre, prelog, st, newleader);
  check_elections(n, k, in, pre, out);
  check_timers(n, k, in, arg, pre, out, st);
  for (auto* m : out) check_gen_msg(n, k, in, pre, *m);
  check_flow(n, k, in, arg, pre, out);
  if (k != Op::Query) check_replies(n, k, in, arg, pre, prelog, out, st);

  check_read_quorum(n, k, in, pre, out);
  // C11 / C12: read results
  for (size_t i = pre.nrs; i < post.nrs; i++) {
    auto& rs = r->GetReadStates()[i];
    auto it = reads.find(rs.request_ctx);
    if (it == reads.end()) { viol("C11 C12", "read-unknown-context", fmt("node %lu: read result with unknown context '%s'", n.id, rs.request_ctx.c_str())); continue; }
    auto& rd = it->second;
    rd.results++;
    ctr["C11.results"]++;
    if (rd.node != n.id) viol("C11 C12", "read-wrong-node", fmt("read of node %lu answered on node %lu", rd.node, n.id));
    if (rd.results > rd.local + rd.resp_del) viol("C11 C08", "read-duplicated", fmt("read %s answered %d times for %d local + %d remote answers", rs.request_ctx.c_str(), rd.results, rd.local, rd.resp_del));
    if (rs.index > max_commit_ever) viol("C11 C12", "read-index-beyond-commit", fmt("read result index %lu beyond any commit %lu", rs.index, max_commit_ever));
    if (rs.index < rd.floor) {
      if (!P.lease) viol("C11", "stale-read", fmt("node %lu: read %s returned index %lu but %lu was visibly committed when it was requested (%s)", n.id, rs.request_ctx.c_str(), rs.index, rd.floor, rd.tag.c_str()));
      else if (P.lease_scn) viol("C12", "stale-lease-read" + (rd.tag.empty() ? std::string() : "-" + rd.tag), fmt("node %lu: lease read %s returned index %lu but %lu was visibly committed when it was requested (%s)", n.id, rs.request_ctx.c_str(), rs.index, rd.floor, rd.tag.c_str()));
    }
    if (rs.index > rd.floor) ctr["C11.results_newer"]++;
  }
  check_conf(n, opname(k));
  if (in && in->type() == raftpb::MsgReadIndex && in->entries_size() > 0 && pre.state == kLeader && (k == Op::Step)) {
    // a forwarded request is judged by the state of the leader that answers it
    auto it = reads.find(in->entries(0).data());
    if (it != reads.end() && in_lease_window(n)) it->second.tag = "lease-window";
  }
  absmark();
}

// C11: an answer of a leader is backed by a quorum that acknowledged it after the request reached it.
void Sim::check_read_quorum(Node& n, Op k, const Message* in, const NView& pre, const std::vector<const Message*>& out) {
  auto& post = n.v;
  if (pre.state != kLeader || pre.term != post.term) { n.rd_sent.clear(); n.rd_acked.clear(); }
  if (k == Op::Read) n.rd_first.emplace(in->entries(0).data(), nops);
  else if (k == Op::Step && in->type() == raftpb::MsgReadIndex && in->entries_size() > 0) n.rd_first.emplace(in->entries(0).data(), nops);
  if (P.lease || post.state != kLeader) return;
  if (k == Op::Step && in->type() == raftpb::MsgHeartbeatResp && in->term() == post.term && !in->context().empty()) n.rd_acked[{in->from(), in->context()}] = nops;
  auto answered = [&](const std::string& c, uint64_t to) {
    auto it = n.rd_first.find(c);
    if (it == n.rd_first.end() || k == Op::ApplyCC) return;
    if (n.conf.V.size() == 1 && n.conf.O.empty()) { ctr["C11.single_voter_answers"]++; return; }
    auto backs = [&](uint64_t v) {
      if (v == n.id) return true;
      for (auto a = n.rd_acked.lower_bound({v, ""}); a != n.rd_acked.end() && a->first.first == v; ++a) {
        auto s = n.rd_sent.find(a->first);
        if (a->second >= it->second && s != n.rd_sent.end() && s->second >= it->second) return true;
      }
      return false;
    };
    ctr["C11.quorum_answers"]++;
    if (n.conf.joint()) ctr["C11.joint_answers"]++;
    if (!n.conf.quorum(backs)) viol("C11", "read-without-quorum", fmt("leader %lu answered read %s of node %lu without acknowledgements of a quorum of %s", n.id, c.c_str(), to, n.conf.str().c_str()));
    uint64_t ct = n.log->has(post.commit) ? n.log->term(post.commit) : 0;
    if (ct && ct != post.term) viol("C11", "read-before-commit-in-term", fmt("leader %lu of term %lu answered read %s while its commit index is of term %lu", n.id, post.term, c.c_str(), ct));
  };
  for (auto* m : out) {
    if (m->type() == raftpb::MsgReadIndexResp && m->entries_size() > 0) answered(m->entries(0).data(), m->to());
    if (m->type() == raftpb::MsgHeartbeat && !m->context().empty()) n.rd_sent[{m->to(), m->context()}] = nops;
  }
  if (!(in && in->type() == raftpb::MsgReadIndexResp)) {
    auto& rs = n.rn->GetRaft()->GetReadStates();
    for (size_t i = pre.nrs; i < post.nrs; i++) answered(rs[i].request_ctx, n.id);
  }
}

void Sim::absmark() {
  if (nops % 4) return;
  uint64_t h = 0, mt = UINT64_MAX, mc = UINT64_MAX;
  for (auto& p : nodes) if (p.second->up) { mt = std::min(mt, p.second->v.term); mc = std::min(mc, p.second->v.commit); }
  for (auto& p : nodes) {
    auto& n = *p.second;
    if (!n.up) { h = hcomb(h, 99); continue; }
    h = hcomb(h, n.v.state + 8 * std::min<uint64_t>(n.v.term - mt, 7) + 64 * std::min<uint64_t>(n.v.commit - mc, 7) + 512 * std::min<uint64_t>(n.v.last - n.v.commit, 7) +
                     4096 * n.stage + 32768 * (n.conf.joint() ? 1 : 0) + 65536 * (n.v.lead ? 1 : 0) + (n.v.psnap ? 131072 : 0));
  }
  if (states.size() < 200000) states.insert(h);
}

// --- what may happen to a log in one operation
void Sim::check_log(Node& n, Op k, const Message* in, const NView& pre, const LogView& prelog, const craft::Status& st, bool newleader) {
  const LogView& L = *n.log;
  auto& post = n.v;
  Raft* r = n.rn->GetRaft();
  // compare logs on their common range; returns first index that differs (or 0)
  auto same_upto = [&](uint64_t hi) -> uint64_t {
    for (uint64_t i = std::max(prelog.base, L.base); i <= hi; i++)
      if (!prelog.has(i) || !L.has(i) || prelog.chain(i) != L.chain(i)) return i ? i : 1;
    return 0;
  };
  auto entry = [&](uint64_t i) -> EntryPtr {
    auto [es, s] = r->GetRaftLog()->Slice(i, i + 1, UINT64_MAX);
    return s.IsOK() && es.size() == 1 ? es[0] : nullptr;
  };
  auto unchanged = [&](const char* tags, const char* key) {
    if (&prelog == &L) return;
    if (post.last != pre.last || same_upto(pre.last)) viol(tags, key, fmt("node %lu: log changed on %s%s (last %lu -> %lu)", n.id, opname(k), in ? (" " + mstr(*in)).c_str() : "", pre.last, post.last));
  };
  bool isprop = k == Op::Propose || (k == Op::Step && in && in->type() == raftpb::MsgProp);
  if (newleader) {
    ctr["C03.leader_starts"]++;
    if (post.last != pre.last + 1 || same_upto(pre.last)) viol("C03 C10 C06", "leader-start-append", fmt("node %lu: becoming leader changed log last %lu -> %lu", n.id, pre.last, post.last));
    auto e = entry(post.last);
    if (!e || e->type() != raftpb::EntryNormal || !e->data().empty() || e->term() != post.term) viol("C10 C06", "leader-start-entry", fmt("node %lu: first entry of the term is not an empty entry of term %lu", n.id, post.term));
    n.own_sizes.clear(); n.u_hi = n.u_lo = 0; n.elect_last = pre.last;
    n.best_match.clear();
  } else if (pre.state == kLeader && post.state == kLeader) {
    // a leader only appends
    if (&prelog != &L) if (uint64_t i = same_upto(pre.last)) viol("C03 C04 C02", "leader-overwrote-log", fmt("leader %lu changed its own entry %lu on %s", n.id, i, opname(k)));
    if (isprop) {
      ctr["C10.leader_proposals"]++;
      uint64_t s = 0;
      bool member = n.conf.member(n.id);
      if (st.IsOK()) {
        if (!member) viol("C33 C10", "removed-leader-accepts", fmt("leader %lu not in its configuration accepted a proposal", n.id));
        if (pre.transferee) viol("C22", "proposal-during-transfer", fmt("leader %lu accepted a proposal while transferring to %lu", n.id, pre.transferee));
        if (post.last != pre.last + in->entries_size()) viol("C10 C03", "proposal-append-count", fmt("leader %lu: %d proposed, log grew %lu -> %lu", n.id, in->entries_size(), pre.last, post.last));
        bool pending = false; bool firstconf = true;
        for (uint64_t i = std::max(prelog.base + 1, pre.applied + 1); i <= pre.last; i++) pending |= prelog.conf(i);
        for (int j = 0; j < in->entries_size(); j++) {
          auto& pe = in->entries(j);
          auto e = entry(pre.last + 1 + j);
          if (!e) { viol("C10 C03", "proposal-missing", fmt("leader %lu: entry %lu missing", n.id, pre.last + 1 + j)); continue; }
          bool same = e->type() == pe.type() && e->data() == pe.data();
          bool neutral = is_conf(pe) && e->type() == raftpb::EntryNormal && e->data().empty();
          if (e->term() != post.term || e->index() != pre.last + 1 + j || (!same && !neutral))
            viol("C10", "proposal-altered", fmt("leader %lu: entry %lu differs from the proposal (%zu vs %zu bytes, type %d vs %d, term %lu)", n.id, e->index(), e->data().size(), pe.data().size(), e->type(), pe.type(), e->term()));
          s += e->data().size();
          if (is_conf(pe)) {
            bool leave = to_v2(pe).changes_size() == 0;
            bool okjoint = n.conf.joint() ? leave : !leave;
            ctr["C13.conf_proposals"]++;
            if (!neutral) {
              ctr["C13.conf_appended"]++;
              if (pending) viol("C13", "conf-while-pending", fmt("leader %lu appended a membership change at %lu while an earlier one is unapplied (applied %lu)", n.id, e->index(), pre.applied));
              if (!okjoint) viol("C13", n.conf.joint() ? "conf-while-joint" : "leave-while-not-joint", fmt("leader %lu appended a %s request in configuration %s", n.id, leave ? "leave" : "change", n.conf.str().c_str()));
              pending = true;
            } else if (firstconf && okjoint && !pending && pre.applied >= pre.last) {
              viol("C13 C24", "conf-refused-wrongly", fmt("leader %lu neutralised a qualifying membership change (applied %lu last %lu conf %s)", n.id, pre.applied, pre.last, n.conf.str().c_str()));
            }
            firstconf = false;
          }
          n.own_sizes[pre.last + 1 + j] = e->data().size();
          if (same && !pe.data().empty()) { auto it = props.find(pe.data()); if (it != props.end()) it->second.origin = n.id; }
        }
        if (P.quota && s > 0 && n.u_lo > 0 && n.u_lo + s > P.quota)
          viol("C19", "quota-exceeded", fmt("leader %lu accepted %lu bytes with at least %lu uncommitted bytes, quota %lu", n.id, s, n.u_lo, P.quota));
        n.u_hi += s; n.u_lo += s;
        ctr["C19.accepted"]++;
      } else {
        if (post.last != pre.last) viol("C10 C19", "refused-but-appended", fmt("leader %lu refused a proposal but its log grew", n.id));
        for (auto& e : in->entries()) { s += e.data().size(); }
        for (auto& e : in->entries()) if (!e.data().empty()) props[e.data()].refused = true;
        ctr["C10.refused"]++;
        if (member && !pre.transferee) {
          // only the quota can be the reason
          if (!P.quota || !(n.u_hi > 0 && s > 0 && n.u_hi + s > P.quota))
            viol("C19 C10", "refused-within-quota", fmt("leader %lu refused %lu bytes with at most %lu uncommitted bytes, quota %lu", n.id, s, n.u_hi, P.quota));
          ctr["C19.refused"]++;
        }
        if (pre.transferee) ctr["C22.refused_during_transfer"]++;
        if (!member) ctr["C33.removed_leader_refused"]++;
      }
    } else if (k == Op::Advance && post.last == pre.last + 1) {
      auto e = entry(post.last);
      if (!e || e->type() != raftpb::EntryConfChangeV2 || !e->data().empty() || e->term() != post.term) viol("C10 C13", "fabricated-entry", fmt("leader %lu appended an entry on its own at %lu", n.id, post.last));
      if (!n.conf.joint() || !n.conf.al) viol("C13", "leave-while-not-joint", fmt("leader %lu started leaving in configuration %s", n.id, n.conf.str().c_str()));
      for (uint64_t i = std::max(prelog.base + 1, post.applied + 1); i <= pre.last; i++)
        if (prelog.conf(i)) viol("C13", "conf-while-pending", fmt("leader %lu started leaving while the change at %lu is unapplied", n.id, i));
      ctr["C13.auto_leave"]++;
      n.own_sizes[post.last] = 0;
    } else {
      unchanged("C03 C10", "leader-log-changed");
    }
    if (post.commit > pre.commit) {
      // C06: only own-term entries, durable on a quorum (judged when this leader's batch is durable)
      uint64_t ct = L.has(post.commit) ? L.term(post.commit) : 0;
      if (ct != post.term) viol("C06 C04", "commit-old-term", fmt("leader %lu of term %lu committed up to %lu whose term is %lu", n.id, post.term, post.commit, ct));
      n.pend_commit.push_back({post.commit, L.chain(post.commit), n.conf});
      ctr["C06.leader_commits"]++;
    }
  } else if (in && k == Op::Step && in->type() == raftpb::MsgApp && in->term() >= pre.term && in->term() == post.term) {
    ctr["C03.appends_received"]++;
    uint64_t acked = 0; bool rejected = false; bool haveresp = false;
    for (size_t i = pre.nm; i < post.nm; i++) {
      auto& m = *r->Msgs()[i];
      if (m.type() == raftpb::MsgAppResp) { haveresp = true; acked = m.index(); rejected = m.reject(); }
    }
    if (!haveresp) viol("C24 C18 C25", "append-unanswered", fmt("node %lu did not answer %s", n.id, mstr(*in).c_str()));
    if (in->index() < pre.commit) {
      unchanged("C03 C04 C27", "log-changed-by-old-append");
      if (post.commit != pre.commit) viol("C06", "commit-on-old-append", fmt("node %lu commit moved on an old append", n.id));
      if (haveresp && (rejected || acked != pre.commit)) viol(!rejected && acked > pre.commit ? "C25 C18 C06 C03" : "C25 C18", "old-append-reply", fmt("node %lu replies %lu%s to an append below commit %lu", n.id, acked, rejected ? " reject" : "", pre.commit));
    } else {
      bool match = prelog.has(in->index()) ? prelog.term(in->index()) == in->logterm() : false;
      if (!prelog.has(in->index()) && in->logterm() == 0) match = true;  // beyond the log with no term: never produced by a leader
      if (!match) {
        unchanged("C03 C04 C27", "log-changed-by-rejected-append");
        if (post.commit != pre.commit) viol("C06", "commit-on-rejected-append", fmt("node %lu: commit moved on a rejected append", n.id));
        if (haveresp && !rejected) viol("C03 C06 C27", "append-accepted-on-mismatch", fmt("node %lu accepted %s without matching entry", n.id, mstr(*in).c_str()));
        ctr["C03.appends_rejected"]++;
      } else {
        // expected log: prefix up to first conflicting entry, then the message's entries
        uint64_t c = prelog.chain(in->index()), i = in->index();
        uint64_t elast = pre.last; bool conflict = false;
        std::vector<std::pair<uint64_t, uint64_t>> exp;
        for (auto& e : in->entries()) {
          i++;
          c = chain_next(c, e);
          if (!conflict && !(prelog.has(i) && prelog.term(i) == e.term())) {
            conflict = true;
            if (prelog.has(i)) { ctr["C03.truncations"]++; n.trunc_min = std::min(n.trunc_min, i); }
          }
          exp.push_back({i, c});
        }
        if (conflict) elast = i;
        if (post.last != elast) viol("C03 C27 C04", "append-result-length", fmt("node %lu: log ends at %lu after %s, expected %lu", n.id, post.last, mstr(*in).c_str(), elast));
        for (auto& [xi, xc] : exp)
          if (!L.has(xi) ? xi > L.base : (xi >= L.base && L.chain(xi) != xc)) viol("C03 C04 C27", "append-result-content", fmt("node %lu: entry %lu after append differs from the leader's", n.id, xi));
        if (uint64_t d = same_upto(in->index())) viol("C03 C04 C27", "append-changed-prefix", fmt("node %lu: entry %lu below an append changed", n.id, d));
        uint64_t lastnew = in->index() + in->entries_size();
        uint64_t ec = std::max(pre.commit, std::min(in->commit(), lastnew));
        if (post.commit > ec) viol("C06 C04", "follower-commit-too-far", fmt("node %lu: commit %lu after %s, at most %lu is known to match", n.id, post.commit, mstr(*in).c_str(), ec));
        if (post.commit < ec) viol("C24 C06", "follower-commit-behind", fmt("node %lu: commit %lu after %s, expected %lu", n.id, post.commit, mstr(*in).c_str(), ec));
        if (haveresp && (rejected || acked != lastnew)) viol("C06 C18 C03", "append-ack", fmt("node %lu acknowledges %lu%s for an append ending at %lu", n.id, acked, rejected ? " reject" : "", lastnew));
        ctr["C03.appends_accepted"]++;
      }
    }
  } else if (in && k == Op::Step && in->type() == raftpb::MsgSnap && in->term() >= pre.term && in->term() == post.term) {
    auto& sm = in->snapshot().metadata();
    Conf sc = from_cs(sm.conf_state());
    ctr["C17.snapshots_received"]++;
    uint64_t acked = 0; bool haveresp = false, rej = false;
    for (size_t i = pre.nm; i < post.nm; i++) if (r->Msgs()[i]->type() == raftpb::MsgAppResp) { haveresp = true; acked = r->Msgs()[i]->index(); rej = r->Msgs()[i]->reject(); }
    if (!haveresp) viol("C24 C17", "snapshot-unanswered", fmt("node %lu did not answer a snapshot", n.id));
    if (sm.index() <= pre.commit || !(sc.V.count(n.id) || sc.L.count(n.id) || sc.O.count(n.id))) {
      unchanged("C17", "stale-snapshot-changed-log");
      if (post.commit != pre.commit || post.psnap != pre.psnap) viol("C17", "stale-snapshot-took-effect", fmt("node %lu: snapshot %lu at commit %lu took effect", n.id, sm.index(), pre.commit));
      if (haveresp && (acked != pre.commit || rej)) viol("C17", "snapshot-ack", fmt("node %lu acknowledges %lu for an ignored snapshot, commit %lu", n.id, acked, pre.commit));
      ctr["C17.ignored"]++;
    } else if (prelog.has(sm.index()) && prelog.term(sm.index()) == sm.term()) {
      unchanged("C17", "fast-forward-changed-log");
      if (post.commit != sm.index() || post.psnap != pre.psnap) viol("C17", "fast-forward-commit", fmt("node %lu: commit %lu after fast-forward snapshot %lu", n.id, post.commit, sm.index()));
      if (haveresp && (acked != sm.index() || rej)) viol("C17", "snapshot-ack", fmt("node %lu acknowledges %lu for fast-forward snapshot %lu", n.id, acked, sm.index()));
      ctr["C17.fast_forward"]++;
    } else {
      if (post.last != sm.index() || post.commit != sm.index() || !post.psnap || L.base != sm.index()) viol("C17", "snapshot-install", fmt("node %lu: after snapshot %lu: last %lu commit %lu pending %d first %lu", n.id, sm.index(), post.last, post.commit, post.psnap, L.base + 1));
      if (haveresp && (acked != sm.index() || rej)) viol("C17", "snapshot-ack", fmt("node %lu acknowledges %lu for snapshot %lu", n.id, acked, sm.index()));
      n.conf = sc; n.trunc_min = 0;
      n.conf_tick = n.ticks;
      ctr["C17.installed"]++;
    }
  } else {
    // followers and candidates: nothing else touches the log
    unchanged("C03 C27", "log-changed");
    if (post.commit != pre.commit && post.state != kLeader) {
      bool hb = in && k == Op::Step && in->type() == raftpb::MsgHeartbeat && in->term() >= pre.term;
      if (!hb) viol("C06 C04", "follower-commit-moved", fmt("node %lu: commit %lu -> %lu on %s%s", n.id, pre.commit, post.commit, opname(k), in ? (" " + mstr(*in)).c_str() : ""));
      else if (post.commit > in->commit()) viol("C06 C04", "follower-commit-too-far", fmt("node %lu: commit %lu after heartbeat with %lu", n.id, post.commit, in->commit()));
    }
    if (in && k == Op::Step && in->type() == raftpb::MsgHeartbeat && in->term() >= pre.term && post.state == kFollower) {
      bool resp = false;
      for (size_t i = pre.nm; i < post.nm; i++) {
        auto& m = *r->Msgs()[i];
        if (m.type() == raftpb::MsgHeartbeatResp && m.to() == in->from()) { resp = true; if (m.context() != in->context()) viol("C11 C36", "heartbeat-context", fmt("node %lu answers a heartbeat with another context", n.id)); }
      }
      if (!resp) viol("C24 C20 C11", "heartbeat-unanswered", fmt("node %lu did not answer a heartbeat", n.id));
      if (post.commit < in->commit()) viol("C24", "follower-commit-behind", fmt("node %lu ignored heartbeat commit %lu", n.id, in->commit()));
    }
  }
  if (isprop && pre.state != kLeader) {
    bool fwd = false;
    for (size_t i = pre.nm; i < post.nm; i++) {
      auto& m = *r->Msgs()[i];
      if (m.type() != raftpb::MsgProp) continue;
      fwd = true;
      if (P.nofwd) viol("C10", "forwarded-despite-option", fmt("node %lu forwarded a proposal although forwarding is disabled", n.id));
      if (m.to() != pre.lead) viol("C10", "forward-target", fmt("node %lu forwarded a proposal to %lu, leader is %lu", n.id, m.to(), pre.lead));
      bool same = m.entries_size() == in->entries_size();
      for (int j = 0; same && j < m.entries_size(); j++) same = m.entries(j).data() == in->entries(j).data() && m.entries(j).type() == in->entries(j).type();
      if (!same) viol("C10", "forward-altered", fmt("node %lu altered a forwarded proposal", n.id));
      ctr["C10.forwarded"]++;
    }
    if (!st.IsOK()) {
      if (fwd) viol("C10", "refused-but-forwarded", fmt("node %lu refused and forwarded a proposal", n.id));
      for (auto& e : in->entries()) if (!e.data().empty()) props[e.data()].refused = true;
      ctr["C10.refused"]++;
    } else if (!fwd) viol("C10", "proposal-swallowed", fmt("node %lu accepted a proposal without forwarding it", n.id));
    if (P.nofwd && st.IsOK()) viol("C10", "not-refused", fmt("non-leader %lu did not refuse a proposal although forwarding is disabled", n.id));
  }
  if (pre.state == kLeader && post.state != kLeader) { n.own_sizes.clear(); n.u_hi = n.u_lo = 0; }
}

void Sim::check_elections(Node& n, Op k, const Message* in, const NView& pre, const std::vector<const Message*>& out) {
  auto& post = n.v;
  bool iscand = post.state == kCandidate || post.state == kPreCandidate || post.state == kLeader;
  bool voteout = false, prevoteout = false;
  for (auto* m : out) { voteout |= m->type() == raftpb::MsgVote; prevoteout |= m->type() == raftpb::MsgPreVote; }
  bool newleader = post.state == kLeader && (pre.state != kLeader || pre.term != post.term);
  bool campaigned = voteout || prevoteout || (iscand && (pre.state != post.state || pre.term != post.term));
  // collect grants delivered to a candidate
  if (in && k == Op::Step && !in->reject()) {
    if (in->type() == raftpb::MsgVoteResp && pre.state == kCandidate && in->term() == pre.term) n.grants[pre.term].insert(in->from());
    if (in->type() == raftpb::MsgPreVoteResp && pre.state == kPreCandidate) n.pregrants.insert(in->from());
  }
  if (campaigned && (k == Op::Tick || k == Op::Campaign || (in && in->type() == raftpb::MsgTimeoutNow))) {
    ctr["C33.campaigns"]++;
    n.pregrants.clear();
    // C33: only voters of the applied configuration, nothing pending
    if (!n.conf.voter(n.id)) viol("C33", "non-voter-campaigned", fmt("node %lu campaigned on %s in configuration %s", n.id, opname(k), n.conf.str().c_str()));
    if (pre.psnap) viol("C33", "campaign-with-pending-snapshot", fmt("node %lu campaigned while installing a snapshot", n.id));
    for (uint64_t i = std::max(n.log->base + 1, pre.applied + 1); i <= pre.commit; i++)
      if (n.log->has(i) && n.log->conf(i)) viol("C33", "campaign-with-unapplied-change", fmt("node %lu campaigned with committed membership change %lu unapplied (applied %lu commit %lu)", n.id, i, pre.applied, pre.commit));
  } else if (campaigned && !in) {
    viol("C33 C21 C23", "unexpected-campaign", fmt("node %lu campaigned on %s", n.id, opname(k)));
  } else if (campaigned && in && in->type() != raftpb::MsgVoteResp && in->type() != raftpb::MsgPreVoteResp) {
    viol("C33 C21 C01", "unexpected-campaign", fmt("node %lu campaigned on %s", n.id, mstr(*in).c_str()));
  }
  if (k == Op::Campaign || (in && in->type() == raftpb::MsgTimeoutNow)) if (!n.conf.voter(n.id)) ctr["C33.nonvoter_asked"]++;
  // C21: pre-vote
  if (P.pv && post.term > pre.term && (post.state == kCandidate || post.state == kLeader)) {
    bool transfer = in && in->type() == raftpb::MsgTimeoutNow;
    if (!transfer) {
      auto g = n.pregrants; g.insert(n.id);
      if (!n.conf.quorum([&](uint64_t id) { return g.count(id) > 0; }))
        viol("C21", "term-raised-without-prevotes", fmt("node %lu raised its term to %lu with pre-votes of %zu of %s", n.id, post.term, g.size(), n.conf.str().c_str()));
      ctr["C21.prevote_wins"]++;
    }
  }
  if (in && k == Op::Step && in->type() == raftpb::MsgPreVote) {
    ctr["C21.prevotes"]++;
    if (post.term != pre.term || post.vote != pre.vote || post.lead != pre.lead || post.state != pre.state || post.commit != pre.commit)
      viol("C21", "prevote-changed-state", fmt("node %lu changed state on a pre-vote: term %lu->%lu vote %lu->%lu lead %lu->%lu", n.id, pre.term, post.term, pre.vote, post.vote, pre.lead, post.lead));
  }
  // C02 / C21: grants
  for (auto* m : out) {
    if ((m->type() == raftpb::MsgVoteResp || m->type() == raftpb::MsgPreVoteResp) && !m->reject()) {
      if (!in || (in->type() != raftpb::MsgVote && in->type() != raftpb::MsgPreVote)) { viol("C01 C02", "unsolicited-vote", fmt("node %lu granted a vote on %s", n.id, opname(k))); continue; }
      bool real = in->type() == raftpb::MsgVote;
      if (real != (m->type() == raftpb::MsgVoteResp)) viol("C01 C21", "vote-kind", fmt("node %lu answered %s with the other kind of vote", n.id, mstr(*in).c_str()));
      if (m->to() != in->from() || m->term() != in->term()) viol("C01", "vote-target", fmt("node %lu vote for %lu/%lu answers request of %lu/%lu", n.id, m->to(), m->term(), in->from(), in->term()));
      bool utd = in->logterm() > pre.last_term || (in->logterm() == pre.last_term && in->index() >= pre.last);
      if (!utd) viol("C02", "vote-for-outdated-log", fmt("node %lu (last %lu/%lu) granted %s", n.id, pre.last_term, pre.last, mstr(*in).c_str()));
      if (real && post.vote != in->from()) viol("C01 C08", "vote-not-recorded", fmt("node %lu granted %lu but recorded vote %lu", n.id, in->from(), post.vote));
      if (real && in->term() == pre.term && pre.vote == 0 && pre.lead != 0) viol("C01", "vote-with-known-leader", fmt("node %lu granted a vote in term %lu of leader %lu", n.id, pre.term, pre.lead));
      if (in->term() < pre.term) viol("C01 C35", "vote-for-old-term", fmt("node %lu granted a vote for an old term", n.id));
      ctr["C02.grants"]++;
    }
    if ((m->type() == raftpb::MsgVoteResp || m->type() == raftpb::MsgPreVoteResp) && m->reject()) ctr["C02.rejections"]++;
  }
  if (newleader) {
    ctr["C01.leaders"]++;
    auto g = n.grants[post.term]; g.insert(n.id);
    if (!n.conf.quorum([&](uint64_t id) { return g.count(id) > 0; }))
      viol("C01", "leader-without-quorum", fmt("node %lu became leader of term %lu with votes of %zu nodes, configuration %s", n.id, post.term, g.size(), n.conf.str().c_str()));
    if (!n.conf.voter(n.id)) viol("C33 C01", "non-voter-leads", fmt("node %lu became leader outside the voters %s", n.id, n.conf.str().c_str()));
    if (pre.psnap) viol("C33", "leader-with-pending-snapshot", fmt("node %lu became leader while installing a snapshot", n.id));
    if (post.vote != n.id) viol("C01", "leader-not-self-voted", fmt("node %lu leads term %lu having voted for %lu", n.id, post.term, post.vote));
    if (n.conf.joint()) ctr["C01.leaders_joint"]++;
    n.lead_pending = post.term;
    n.elect_log = n.log;
    // C02: everything visibly committed in earlier terms is in the new leader's log
    for (uint64_t i = cmax(); i > cbase; i--) {
      auto& c = committed[i - cbase - 1];
      if (c.cterm >= post.term) continue;
      ctr["C02.leader_checks"]++;
      if (i < n.log->base) break;
      if (!n.log->has(i) || n.log->chain(i) != c.chain) viol("C02 C04", "leader-misses-committed", fmt("new leader %lu of term %lu lacks entry %lu committed in term %lu (its log ends at %lu)", n.id, post.term, i, c.cterm, n.log->last()));
      break;
    }
  }
  if (post.term != pre.term) { if (n.grants.size() > 8) n.grants.erase(n.grants.begin()); }
}

void Sim::check_timers(Node& n, Op k, const Message* in, uint64_t arg, const NView& pre, const std::vector<const Message*>& out, const craft::Status& st) {
  auto& post = n.v;
  uint64_t E = P.E;
  bool newleader = post.state == kLeader && (pre.state != kLeader || pre.term != post.term);
  bool voteout = false; std::map<uint64_t, int> hbs;
  for (auto* m : out) {
    voteout |= m->type() == raftpb::MsgVote || m->type() == raftpb::MsgPreVote;
    if (m->type() == raftpb::MsgHeartbeat) hbs[m->to()]++;
  }
  bool campaigned = voteout || newleader || ((post.state == kCandidate || post.state == kPreCandidate) && (pre.state != post.state || pre.term != post.term));
  bool step = k == Op::Step && in;
  // --- C35 / C21: what may not have an effect
  auto unchanged = [&] {
    return post.term == pre.term && post.vote == pre.vote && post.lead == pre.lead && post.state == pre.state && post.commit == pre.commit && post.applied == pre.applied &&
           post.last == pre.last && post.last_term == pre.last_term && post.transferee == pre.transferee && post.pr == pre.pr && post.nrs == pre.nrs && post.psnap == pre.psnap;
  };
  if (step && in->term() != 0 && in->term() < pre.term && st.IsOK()) {
    ctr["C35.stale"]++;
    if (!unchanged()) viol("C35 C07", "stale-message-took-effect", fmt("node %lu at term %lu changed state on %s", n.id, pre.term, mstr(*in).c_str()));
    if (out.size() > 1) viol("C35", "stale-message-many-replies", fmt("node %lu sent %zu messages on %s", n.id, out.size(), mstr(*in).c_str()));
    for (auto* m : out) {
      bool ok = m->to() == in->from() && ((m->type() == raftpb::MsgAppResp && !m->reject() && m->index() == 0) || (m->type() == raftpb::MsgPreVoteResp && m->reject()) || (in->type() == raftpb::MsgVote && m->type() == raftpb::MsgVoteResp && m->reject()));
      if (!ok) viol("C35", "stale-message-reply", fmt("node %lu answered %s with %s", n.id, mstr(*in).c_str(), mstr(*m).c_str()));
      if (m->term() != pre.term) viol("C35", "stale-reply-term", fmt("node %lu answered a stale message with term %lu at term %lu", n.id, m->term(), pre.term));
    }
    if ((in->type() == raftpb::MsgApp || in->type() == raftpb::MsgHeartbeat || in->type() == raftpb::MsgVote || in->type() == raftpb::MsgPreVote) && out.size() != 1)
      viol("C24 C35", "stale-sender-not-informed", fmt("node %lu did not inform the sender of %s", n.id, mstr(*in).c_str()));
  }
  if (step && !st.IsOK() && in->type() != raftpb::MsgProp) {
    if (!unchanged() || !out.empty()) viol("C35", "refused-message-took-effect", fmt("node %lu refused %s but changed", n.id, mstr(*in).c_str()));
  }
  if (step && (in->type() == raftpb::MsgVote || in->type() == raftpb::MsgPreVote) && in->term() > pre.term && in->context() != "CampaignTransfer" && P.cq) {
    bool lease = (pre.state == kLeader) || (pre.state == kFollower && pre.lead != 0 && n.has_contact && n.ticks - n.t_contact < E);
    if (lease) {
      ctr["C21.lease_ignores"]++;
      if (!unchanged() || !out.empty()) viol("C21 C12", "lease-broken-by-vote-request", fmt("node %lu (state %d, %lu ticks after its leader) reacted to %s", n.id, pre.state, n.ticks - n.t_contact, mstr(*in).c_str()));
    }
  }
  // Match never decreases while leading
  if (pre.state == kLeader && post.state == kLeader && pre.term == post.term && k != Op::ApplyCC) {
    for (auto& [id, p] : post.pr) {
      auto it = pre.pr.find(id);
      if (it != pre.pr.end() && p.match < it->second.match) viol("C35 C06", "match-decreased", fmt("leader %lu: match of %lu %lu -> %lu on %s", n.id, id, it->second.match, p.match, in ? mstr(*in).c_str() : opname(k)));
    }
    ctr["C35.match_checks"]++;
  }
  if (pre.state == kLeader && post.state == kLeader && pre.term == post.term && step && in->type() == raftpb::MsgAppResp && in->term() == pre.term) {
    for (auto& [id, p] : post.pr) {
      auto it = pre.pr.find(id);
      if (it == pre.pr.end() || p.match == it->second.match) continue;
      if (id != in->from() && id != n.id) viol("C06 C35", "match-of-other", fmt("leader %lu: match of %lu changed on a reply of %lu", n.id, id, in->from()));
      if (id == in->from() && (in->reject() || p.match != in->index())) viol("C06 C35", "match-not-acked", fmt("leader %lu: match of %lu became %lu on %s", n.id, id, p.match, mstr(*in).c_str()));
    }
  }
  // --- contact and grants
  if (step && (in->type() == raftpb::MsgApp || in->type() == raftpb::MsgHeartbeat || in->type() == raftpb::MsgSnap) && in->term() >= pre.term) {
    if (post.state == kFollower && post.term == in->term()) {
      if (post.lead != in->from()) viol("C35 C01", "leader-not-recognised", fmt("node %lu: lead %lu after %s", n.id, post.lead, mstr(*in).c_str()));
      n.t_contact = n.ticks; n.has_contact = true;
    } else viol("C01 C24", "leader-message-state", fmt("node %lu in state %d after %s", n.id, post.state, mstr(*in).c_str()));
  }
  for (auto* m : out) if (m->type() == raftpb::MsgVoteResp && !m->reject()) n.t_grant = n.ticks;
  // --- C23 campaigns by tick
  if (k == Op::Tick) {
    ctr["C23.ticks"]++;
    if (campaigned) {
      uint64_t since = std::min(n.ticks - n.t_contact, std::min(n.ticks - n.t_grant, n.ticks - n.t_camp));
      ctr["C23.tick_campaigns"]++;
      if (since < E) viol("C23 C21", "campaign-too-early", fmt("node %lu campaigned %lu ticks after contact/vote/campaign, election timeout %lu", n.id, since, E));
      n.t_camp = n.ticks;
    }
    bool elig = pre.state != kLeader && n.conf.voter(n.id) && !pre.psnap;
    for (uint64_t i = std::max(n.log->base + 1, pre.applied + 1); elig && i <= pre.commit; i++) if (n.log->has(i) && n.log->conf(i)) elig = false;
    if (!elig || campaigned) n.quiet = n.quiet_stale = n.quiet_pv = 0;
    else if (++n.quiet >= 2 * E - 1) viol(std::string("C23 C24") + (n.quiet_pv ? " C21" : "") + (n.quiet_stale ? " C35" : ""), "campaign-too-late", fmt("node %lu eligible and undisturbed for %lu ticks without campaigning, election timeout %lu", n.id, n.quiet, E));
    // heartbeats
    if (pre.state == kLeader && post.state == kLeader && pre.term == post.term) {
      n.hb_el++;
      if (n.hb_el >= (uint64_t)P.H) {
        n.hb_el = 0;
        for (auto id : n.conf.members()) if (id != n.id && hbs[id] != 1) viol("C23", "heartbeat-missing", fmt("leader %lu sent %d heartbeats to %lu at its heartbeat tick", n.id, hbs[id], id));
        ctr["C23.heartbeats"]++;
      } else if (!hbs.empty()) {
        viol("C23", "heartbeat-early", fmt("leader %lu sent a heartbeat before its interval", n.id));
      }
    }
    if (pre.state == kLeader) {
      auto act = [&](uint64_t lo, bool strict) {
        return n.conf.quorum([&](uint64_t id) {
          if (id == n.id) return true;
          auto it = n.heard.find(id);
          return it != n.heard.end() && (strict ? it->second > lo : it->second >= lo);
        });
      };
      if (post.state != kLeader) {
        ctr["C20.stepdowns"]++;
        if (!P.cq) viol("C20", "stepdown-without-checkquorum", fmt("leader %lu stepped down on a tick without quorum checking", n.id));
        if (act(n.ticks >= E ? n.ticks - E : 0, false)) viol("C20", "connected-leader-stepped-down", fmt("leader %lu stepped down although a quorum answered within the last %lu ticks, configuration %s", n.id, E, n.conf.str().c_str()));
        if (post.term != pre.term) viol("C20", "stepdown-changed-term", fmt("leader %lu changed term on stepping down", n.id));
      } else if (P.cq) {
        ctr["C20.leader_ticks"]++;
        uint64_t t = n.ticks;
        if (t >= n.lead_since + 2 * E && t >= n.conf_tick + 2 * E) {
          ctr["C20.window_checks"]++;
          if (!act(t - 2 * E, true)) viol("C20 C12", "cut-off-leader-stays", fmt("leader %lu heard from no quorum of %s for %lu ticks and is still leader", n.id, n.conf.str().c_str(), 2 * E));
        }
      }
    }
    if (post.transferee && n.tr_since + E <= n.ticks) viol("C22", "transfer-not-abandoned", fmt("leader %lu still transferring to %lu after %lu ticks", n.id, post.transferee, n.ticks - n.tr_since));
  } else if (k != Op::Query && k != Op::GetReady) {
    // Only contact with a leader, a granted vote or a change of role or term starts the wait anew.
    bool contact = step && n.has_contact && n.t_contact == n.ticks && in->term() >= pre.term;
    bool granted = false;
    for (auto* m : out) granted |= m->type() == raftpb::MsgVoteResp && !m->reject();
    if (contact || granted || campaigned || k == Op::ApplyCC || k == Op::Campaign || post.term != pre.term || post.state != pre.state || post.vote != pre.vote || post.lead != pre.lead) n.quiet = n.quiet_stale = n.quiet_pv = 0;
    else {
      if (step && in->type() == raftpb::MsgPreVote) n.quiet_pv++;
      if (step && in->term() != 0 && in->term() < pre.term) n.quiet_stale++;
    }
  }
  if (newleader) {
    n.heard.clear(); n.lead_since = n.conf_tick = n.ticks; n.hb_el = 0;
  }
  if (pre.state == kLeader && post.state == kLeader && step && in->term() == pre.term && (in->type() == raftpb::MsgAppResp || in->type() == raftpb::MsgHeartbeatResp)) n.heard[in->from()] = n.ticks;
  // --- C22
  if (post.transferee != pre.transferee && post.transferee) {
    n.tr_since = n.ticks;
    ctr["C22.transfers"]++;
    if (post.state != kLeader) viol("C22", "transfer-on-non-leader", fmt("node %lu in state %d records transferee %lu", n.id, post.state, post.transferee));
    if (!n.conf.voter(post.transferee)) viol("C22 C33", "transfer-to-non-voter", fmt("leader %lu transfers to %lu, configuration %s", n.id, post.transferee, n.conf.str().c_str()));
    uint64_t want = k == Op::Transfer ? arg : (step && in->type() == raftpb::MsgTransferLeader ? in->from() : 0);
    if (post.transferee != want) viol("C22", "transfer-target", fmt("leader %lu transfers to %lu, asked %lu", n.id, post.transferee, want));
    if (post.transferee == n.id) viol("C22", "transfer-to-self", fmt("leader %lu transfers to itself", n.id));
  }
  if (post.state != kLeader && post.transferee) viol("C22", "transfer-on-non-leader", fmt("node %lu in state %d has transferee %lu", n.id, post.state, post.transferee));
  if (k == Op::ApplyCC && post.transferee && post.state == kLeader && n.conf.member(n.id) && !n.conf.L.count(n.id) && !n.conf.voter(post.transferee)) viol("C22", "transfer-to-removed", fmt("leader %lu keeps transferring to %lu outside %s", n.id, post.transferee, n.conf.str().c_str()));
  for (auto* m : out) if (m->type() == raftpb::MsgTimeoutNow) {
    ctr["C22.timeoutnow"]++;
    auto it = post.pr.find(m->to());
    if (post.state != kLeader || it == post.pr.end() || it->second.match != post.last) viol("C22", "timeoutnow-behind", fmt("leader %lu told %lu to take over (match %lu, last %lu)", n.id, m->to(), it == post.pr.end() ? 0 : it->second.match, post.last));
    if (!n.conf.voter(m->to())) viol("C22 C33", "timeoutnow-non-voter", fmt("leader %lu told non-voter %lu to take over", n.id, m->to()));
    if (post.transferee != m->to()) viol("C22", "timeoutnow-unasked", fmt("leader %lu told %lu to take over, transferee is %lu", n.id, m->to(), post.transferee));
  }
  // term changes only by messages or campaigning
  if (post.term > pre.term && !(step && in->term() > pre.term) && !campaigned) viol("C07 C21", "term-raised-silently", fmt("node %lu: term %lu -> %lu on %s", n.id, pre.term, post.term, opname(k)));
  if (step && post.term > pre.term && in->type() != raftpb::MsgTimeoutNow && !campaigned && post.term != in->term()) viol("C07 C35", "term-adopted-wrongly", fmt("node %lu: term %lu after %s", n.id, post.term, mstr(*in).c_str()));
}

// --- C36: requests are answered once, truthfully, and passed on faithfully
void Sim::check_replies(Node& n, Op k, const Message* in, uint64_t arg, const NView& pre, const LogView& prelog, const std::vector<const Message*>& out, const craft::Status& st) {
  auto& post = n.v;
  const bool step = k == Op::Step && in;
  const std::string what = in ? mstr(*in) : std::string(opname(k));
  const bool isleader = post.state == kLeader && (pre.state != kLeader || pre.term != post.term);
  int answers = 0;
  std::map<uint64_t, int> votes, prevotes, anns, pass;
  for (auto* m : out) {
    if (m->to() == 0) viol("C36", "message-to-nobody", fmt("node %lu sends %s on %s", n.id, mstr(*m).c_str(), what.c_str()));
    auto t = m->type();
    if (t == raftpb::MsgVote) votes[m->to()]++;
    if (t == raftpb::MsgPreVote) prevotes[m->to()]++;
    if (t == raftpb::MsgApp || t == raftpb::MsgSnap) anns[m->to()]++;
    if (t == raftpb::MsgReadIndex || t == raftpb::MsgTransferLeader) {
      pass[m->to()]++;
      bool mine = t == raftpb::MsgReadIndex ? (k == Op::Read || (step && in->type() == t)) : (k == Op::Transfer || (step && in->type() == t));
      if (!mine) { viol("C36", "passed-on-unasked", fmt("node %lu sends %s on %s", n.id, mstr(*m).c_str(), what.c_str())); continue; }
      bool same = true;
      if (t == raftpb::MsgReadIndex) {
        same = m->entries_size() == in->entries_size();
        for (int i = 0; same && i < m->entries_size(); i++) same = m->entries(i).data() == in->entries(i).data();
        if (step) same = same && m->from() == in->from();
      } else same = m->from() == (k == Op::Transfer ? arg : in->from());
      if (!same) viol("C36", "passed-on-altered", fmt("node %lu passes %s on as %s", n.id, what.c_str(), mstr(*m).c_str()));
      if (pre.state == kLeader || m->to() != pre.lead) viol("C36", "passed-on-elsewhere", fmt("node %lu (leader %lu) passes %s on to %lu", n.id, pre.lead, what.c_str(), m->to()));
      ctr["C36.passed_on"]++;
    }
    if (t != raftpb::MsgAppResp && t != raftpb::MsgHeartbeatResp && t != raftpb::MsgVoteResp && t != raftpb::MsgPreVoteResp) continue;
    answers++;
    bool stale = step && in->term() != 0 && in->term() < pre.term;
    bool kind = step && ((t == raftpb::MsgAppResp && (in->type() == raftpb::MsgApp || in->type() == raftpb::MsgSnap || (stale && in->type() == raftpb::MsgHeartbeat))) ||
                         (t == raftpb::MsgHeartbeatResp && in->type() == raftpb::MsgHeartbeat && !stale) ||
                         (t == raftpb::MsgVoteResp && in->type() == raftpb::MsgVote) || (t == raftpb::MsgPreVoteResp && in->type() == raftpb::MsgPreVote));
    if (!kind) { viol("C36", "answer-unasked", fmt("node %lu sends %s on %s", n.id, mstr(*m).c_str(), what.c_str())); continue; }
    if (m->to() != in->from()) viol("C36", "answer-misdirected", fmt("node %lu answers %s with %s", n.id, what.c_str(), mstr(*m).c_str()));
    bool grant = (t == raftpb::MsgVoteResp || t == raftpb::MsgPreVoteResp) && !m->reject();
    if (m->term() != (grant ? in->term() : post.term)) viol("C36", "answer-term", fmt("node %lu at term %lu answers %s with %s", n.id, post.term, what.c_str(), mstr(*m).c_str()));
    if (t == raftpb::MsgAppResp && m->reject()) {
      // the hint is a place of this node's log at or below the refused one
      uint64_t h = m->rejecthint();
      if (m->index() != in->index()) viol("C36 C25", "refusal-index", fmt("node %lu refuses %s at %lu", n.id, what.c_str(), m->index()));
      if (h > in->index() || h > pre.last || (prelog.has(h) && prelog.term(h) != m->logterm())) viol("C36 C25", "refusal-hint", fmt("node %lu refuses %s with hint %lu/%lu, its log has term %lu there and ends at %lu", n.id, what.c_str(), m->logterm(), h, prelog.has(h) ? prelog.term(h) : 0, pre.last));
      ctr["C36.refusals"]++;
    }
  }
  if (answers > 1) viol("C36", "answered-twice", fmt("node %lu answers %s %d times", n.id, what.c_str(), answers));
  if (step && st.IsOK() && in->term() != 0 && in->term() >= pre.term) {
    auto t = in->type();
    if (t == raftpb::MsgApp || t == raftpb::MsgSnap || t == raftpb::MsgHeartbeat) {
      ctr["C36.requests"]++;
      if (answers != 1) viol("C36 C24", "request-unanswered", fmt("node %lu does not answer %s", n.id, what.c_str()));
    }
    if (t == raftpb::MsgVote || t == raftpb::MsgPreVote) {
      ctr["C36.vote_requests"]++;
      bool newer = in->term() > pre.term, real = t == raftpb::MsgVote;
      if (answers == 0) {
        uint64_t last = std::max(n.has_contact ? n.t_contact : 0, std::max(n.t_grant, n.t_inelig));
        bool lease = P.cq && newer && in->context() != "CampaignTransfer" && pre.lead != 0 && (pre.state == kLeader || n.ticks - last <= (uint64_t)P.E);
        if (!lease) viol("C36 C24", "vote-request-ignored", fmt("node %lu does not answer %s (leader %lu, heard %lu ticks ago)", n.id, what.c_str(), pre.lead, n.ticks - last));
      } else {
        bool fresh = newer && real;
        bool free_ = (newer && !real) || pre.vote == in->from() || (pre.vote == 0 && pre.lead == 0) || fresh;
        bool utd = in->logterm() > pre.last_term || (in->logterm() == pre.last_term && in->index() >= pre.last);
        for (auto* m : out) if (m->type() == raftpb::MsgVoteResp || m->type() == raftpb::MsgPreVoteResp) {
          if (m->reject() && free_ && utd) viol("C36 C24", "vote-refused-without-reason", fmt("node %lu (term %lu vote %lu leader %lu last %lu/%lu) refuses %s", n.id, pre.term, pre.vote, pre.lead, pre.last_term, pre.last, what.c_str()));
          if (!m->reject() && !free_) viol("C36 C01", "vote-granted-twice", fmt("node %lu (term %lu vote %lu leader %lu) grants %s", n.id, pre.term, pre.vote, pre.lead, what.c_str()));
        }
      }
    }
  }
  // passing on: exactly once when a leader is known, never otherwise
  if ((k == Op::Read || k == Op::Transfer || (step && st.IsOK() && (in->type() == raftpb::MsgReadIndex || (in->type() == raftpb::MsgTransferLeader && in->term() == pre.term)))) && pre.state == kFollower) {
    int want = pre.lead != 0, got = 0;
    for (auto& p : pass) got += p.second;
    if (got != want) viol("C36", "passed-on-count", fmt("node %lu (leader %lu) passes %s on %d times", n.id, pre.lead, what.c_str(), got));
  }
  // a campaign asks every other voter once
  if (!votes.empty() || !prevotes.empty()) {
    if (!votes.empty() && !prevotes.empty()) viol("C36 C21", "two-kinds-of-campaign", fmt("node %lu asks for votes and pre-votes on %s", n.id, what.c_str()));
    auto& v = votes.empty() ? prevotes : votes;
    for (auto id : n.conf.members()) if (id != n.id && n.conf.voter(id) && v[id] != 1) viol("C36 C24", "voter-not-asked", fmt("node %lu asks voter %lu %d times on %s", n.id, id, v[id], what.c_str()));
    ctr["C36.campaigns"]++;
  } else if ((post.state == kCandidate || post.state == kPreCandidate) && (pre.state != post.state || pre.term != post.term)) {
    for (auto id : n.conf.members()) if (id != n.id && n.conf.voter(id)) viol("C36 C24", "voter-not-asked", fmt("node %lu campaigns on %s without asking voter %lu", n.id, what.c_str(), id));
  }
  // a new leader tells everybody
  if (isleader && step && in->type() == raftpb::MsgVoteResp) {   // (a single voter elected by itself speaks up with its next heartbeat)
    for (auto id : n.conf.members()) if (id != n.id && anns[id] < 1) viol("C36 C24", "leader-not-announced", fmt("new leader %lu of term %lu sends nothing to member %lu", n.id, post.term, id));
    ctr["C36.announcements"]++;
  }
  // a known leader really leads this term
  if (isleader) seen_leaders[post.term].insert(n.id);
  if (post.lead != 0) {
    auto it = seen_leaders.find(post.term);
    if (it == seen_leaders.end() || !it->second.count(post.lead)) viol("C36 C32 C01", "reported-leader-never-led", fmt("node %lu reports %lu as leader of term %lu, which it never was", n.id, post.lead, post.term));
    if ((post.state == kLeader) != (post.lead == n.id)) viol("C36 C32", "leader-and-role-disagree", fmt("node %lu in state %d reports leader %lu", n.id, post.state, post.lead));
    if (post.state == kCandidate) viol("C36 C32", "candidate-with-leader", fmt("candidate %lu reports leader %lu", n.id, post.lead));
    ctr["C36.leaders_checked"]++;
  } else if (post.state == kLeader) viol("C36 C32", "leader-and-role-disagree", fmt("leader %lu reports no leader", n.id));
  bool elig = n.conf.voter(n.id) && !post.psnap;
  for (uint64_t i = std::max(n.log->base + 1, post.applied + 1); elig && i <= post.commit; i++) if (n.log->has(i) && n.log->conf(i)) elig = false;
  if (!elig) n.t_inelig = n.ticks;
}

// --- claims of a freshly generated message, checked against the sender's in-memory state
void Sim::check_gen_msg(Node& n, Op k, const Message* in, const NView& pre, const Message& m) {
  auto& post = n.v;
  const LogView& L = *n.log;
  if (m.from() == 0) viol("C08", "message-without-sender", fmt("node %lu produced %s", n.id, mstr(m).c_str()));
  if (m.from() != n.id && m.type() != raftpb::MsgProp && m.type() != raftpb::MsgReadIndex && m.type() != raftpb::MsgTransferLeader) viol("C08", "message-sender", fmt("node %lu produced %s", n.id, mstr(m).c_str()));
  switch (m.type()) {
    case raftpb::MsgApp: {
      ctr["C03.appends_sent"]++;
      if (post.state != kLeader || m.term() != post.term) { viol("C01 C03", "append-from-non-leader", fmt("node %lu state %d sent %s", n.id, post.state, mstr(m).c_str())); break; }
      if (!L.has(m.index()) || L.term(m.index()) != m.logterm()) viol("C03", "append-anchor", fmt("leader %lu sent %s, its log has term %lu there", n.id, mstr(m).c_str(), L.has(m.index()) ? L.term(m.index()) : 0));
      else {
        uint64_t c = L.chain(m.index()), i = m.index();
        for (auto& e : m.entries()) {
          c = chain_next(c, e); i++;
          if (e.index() != i || !L.has(i) || L.chain(i) != c) { viol("C03", "append-not-slice", fmt("leader %lu sent entry %lu different from its log in %s", n.id, i, mstr(m).c_str())); break; }
        }
      }
      if (m.commit() > post.commit) viol("C06", "append-commit", fmt("leader %lu sent commit %lu, has %lu", n.id, m.commit(), post.commit));
      if (m.entries_size() > 1) {
        uint64_t s = 0;
        for (auto& e : m.entries()) s += e.ByteSizeLong();
        if (s > P.max_size) viol("C18", "append-too-large", fmt("leader %lu sent %d entries of %lu bytes, limit %lu", n.id, m.entries_size(), s, P.max_size));
        ctr["C18.multi_entry_appends"]++;
      }
      break;
    }
    case raftpb::MsgHeartbeat: {
      if (post.state != kLeader) { viol("C01", "heartbeat-from-non-leader", fmt("node %lu state %d sent a heartbeat", n.id, post.state)); break; }
      if (m.commit() > post.commit) viol("C06", "heartbeat-commit", fmt("leader %lu heartbeat commit %lu > %lu", n.id, m.commit(), post.commit));
      if (m.commit() > 0 && L.has(m.commit()) && m.commit() > L.base) {
        if (!ever_durable(m.to(), m.commit(), L.term(m.commit()), L.chain(m.commit())))
          viol("C06", "heartbeat-commit-unmatched", fmt("leader %lu tells %lu that %lu is committed, which it never stored", n.id, m.to(), m.commit()));
        ctr["C06.heartbeat_commits"]++;
      }
      break;
    }
    case raftpb::MsgSnap: {
      ctr["C17.snapshots_sent"]++;
      auto& s = m.snapshot();
      uint64_t i = s.metadata().index();
      if (post.state != kLeader) viol("C17 C01", "snapshot-from-non-leader", fmt("node %lu sent a snapshot in state %d", n.id, post.state));
      if (i < cbase || i > cmax()) { viol("C17", "snapshot-beyond-commit", fmt("node %lu sent snapshot %lu, committed is %lu", n.id, i, cmax())); break; }
      if (s.metadata().term() != cterm(i)) viol("C17", "snapshot-term", fmt("node %lu sent snapshot %lu with term %lu, the entry has %lu", n.id, i, s.metadata().term(), cterm(i)));
      if (s.data() != snapdata(i, cchain(i), snappad(i))) viol("C17", "snapshot-data", fmt("node %lu sent snapshot %lu with other application data", n.id, i));
      if (from_cs(s.metadata().conf_state()) != conf_at(i)) viol("C17 C13", "snapshot-config", fmt("node %lu sent snapshot %lu with configuration %s, expected %s", n.id, i, from_cs(s.metadata().conf_state()).str().c_str(), conf_at(i).str().c_str()));
      break;
    }
    case raftpb::MsgVote: case raftpb::MsgPreVote: {
      if (m.index() != pre.last || m.logterm() != pre.last_term) viol("C02", "vote-request-log", fmt("node %lu asks votes with log %lu/%lu, has %lu/%lu", n.id, m.logterm(), m.index(), pre.last_term, pre.last));
      uint64_t et = m.type() == raftpb::MsgVote ? post.term : post.term + 1;
      if (m.term() != et) viol("C01 C21", "vote-request-term", fmt("node %lu asks votes for term %lu at term %lu", n.id, m.term(), post.term));
      if (!n.conf.voter(m.to())) viol("C33 C01", "vote-request-target", fmt("node %lu asks non-voter %lu", n.id, m.to()));
      bool tr = in && in->type() == raftpb::MsgTimeoutNow;
      if ((m.context() == "CampaignTransfer") != tr) viol("C21 C22", "vote-request-force", fmt("node %lu sent %s on %s", n.id, mstr(m).c_str(), opname(k)));
      break;
    }
    case raftpb::MsgReadIndexResp: {
      if (m.entries_size() < 1) { viol("C11", "read-response-empty", "read response without context"); break; }
      auto it = reads.find(m.entries(0).data());
      if (it == reads.end()) { viol("C11", "read-unknown-context", fmt("node %lu answered an unknown read", n.id)); break; }
      it->second.resp_gen++;
      if (it->second.resp_gen > it->second.reached) viol("C11", "read-answered-twice", fmt("read %s answered %d times, reached leaders %d times", it->first.c_str(), it->second.resp_gen, it->second.reached));
      if (m.to() != it->second.node) viol("C11", "read-wrong-node", fmt("answer of node %lu's read sent to %lu", it->second.node, m.to()));
      if (m.index() > max_commit_ever) viol("C11 C12", "read-index-beyond-commit", fmt("read answer index %lu beyond any commit", m.index()));
      if (m.index() < it->second.floor && !P.lease) viol("C11", "stale-read", fmt("leader %lu answered read %s of node %lu with %lu, floor %lu", n.id, it->first.c_str(), m.to(), m.index(), it->second.floor));
      break;
    }
    default: break;
  }
}

// --- C18: windows, pauses
void Sim::check_flow(Node& n, Op k, const Message* in, uint64_t arg, const NView& pre, const std::vector<const Message*>& out) {
  auto& post = n.v;
  if (post.state != kLeader) { n.win.clear(); n.probe_out.clear(); return; }
  bool newleader = pre.state != kLeader || pre.term != post.term;
  if (newleader) { n.win.clear(); n.probe_out.clear(); }
  for (auto it = n.win.begin(); it != n.win.end();) { if (!post.pr.count(it->first)) it = n.win.erase(it); else ++it; }
  for (auto it = n.probe_out.begin(); it != n.probe_out.end();) { if (!post.pr.count(it->first)) it = n.probe_out.erase(it); else ++it; }
  uint64_t from = 0;
  if (in && k == Op::Step && in->term() == pre.term && (in->type() == raftpb::MsgAppResp || in->type() == raftpb::MsgHeartbeatResp)) from = in->from();
  if (k == Op::Unreach || k == Op::SnapStat) {
    from = arg;
    // what a report of the transport does to the progress of the follower, and to nothing else
    if (pre.state == kLeader) for (auto& [id, p] : post.pr) {
      auto it = pre.pr.find(id);
      if (it == pre.pr.end()) continue;
      PrView want = it->second;
      if (id == arg && id != n.id) {
        if (k == Op::Unreach && want.st == (int)StateType::kReplicate) {
          want.st = (int)StateType::kProbe; want.next = want.match + 1; want.infl = 0; want.paused = want.probe = false;
          ctr["C18.unreachable_reports"]++;
        }
        if (k == Op::SnapStat && want.st == (int)StateType::kSnapshot) {
          want.next = report_ok ? std::max(want.match, want.pend) + 1 : want.match + 1;
          want.st = (int)StateType::kProbe; want.pend = 0; want.infl = 0; want.paused = want.probe = true;
          ctr[report_ok ? "C18.snapshot_successes" : "C18.snapshot_failures"]++;
        }
      } else if (id == n.id) continue;
      if (!(p == want)) viol("C18", "report-effect", fmt("leader %lu, %s of %lu%s: follower %lu was in state %d match %lu next %lu pending %lu, is in state %d match %lu next %lu pending %lu paused %d", n.id, opname(k), arg, k == Op::SnapStat ? report_ok ? " ok" : " failed" : "",
                                                    id, it->second.st, it->second.match, it->second.next, it->second.pend, p.st, p.match, p.next, p.pend, p.paused));
    }
  }
  std::map<uint64_t, int> nsent, nsnap; std::map<uint64_t, std::vector<const Message*>> apps;
  for (auto* m : out) {
    if (m->type() == raftpb::MsgApp) { nsent[m->to()]++; apps[m->to()].push_back(m); }
    if (m->type() == raftpb::MsgSnap) { nsent[m->to()]++; nsnap[m->to()]++; }
    if ((m->type() == raftpb::MsgApp || m->type() == raftpb::MsgSnap) && !post.pr.count(m->to())) viol("C18 C13", "append-to-stranger", fmt("leader %lu sends %s outside its configuration", n.id, mstr(*m).c_str()));
  }
  for (auto& [id, p] : post.pr) {
    if (id == n.id) continue;
    auto it = pre.pr.find(id);
    bool had = it != pre.pr.end() && !newleader;
    bool fresh = !had || k == Op::ApplyCC;
    auto& w = n.win[id];
    if (!had || it->second.st != p.st || (k == Op::ApplyCC && it->second.st != p.st)) w.clear();
    if (k == Op::ApplyCC && had && p.infl == 0 && p.match == 0) w.clear();
    // paused before, nothing happened concerning this follower: nothing may be sent
    if (had && !fresh && it->second.paused && id != from && nsent[id]) viol("C18", "sent-while-paused", fmt("leader %lu sent %d messages to paused follower %lu (state %d) on %s", n.id, nsent[id], id, it->second.st, opname(k)));
    if (had && it->second.paused) ctr["C18.paused_ops"]++;
    if (nsnap[id] > 1) viol("C18", "two-snapshots", fmt("leader %lu sent %d snapshots to %lu at once", n.id, nsnap[id], id));
    if (nsnap[id] && p.st != (int)StateType::kSnapshot) viol("C18 C17", "snapshot-not-tracked", fmt("leader %lu sent a snapshot to %lu but does not wait for it", n.id, id));
    if (p.st == (int)StateType::kReplicate) {
      if (had && it->second.st == p.st) {
        if (id == from && k == Op::Step && in->type() == raftpb::MsgAppResp && !in->reject() && in->index() > it->second.match)
          while (!w.empty() && w.front() <= in->index()) w.pop_front();
        if (id == from && k == Op::Step && in->type() == raftpb::MsgHeartbeatResp && w.size() >= max_inflight()) w.pop_front();
      }
      for (auto* m : apps[id]) if (m->entries_size()) {
        // entries sent while probing in the same operation do not occupy the window
        w.push_back(m->entries(m->entries_size() - 1).index());
      }
      if (had && it->second.st != p.st && !w.empty()) { /* transition then streaming: all sends follow the transition */ }
      if (w.size() > max_inflight()) viol("C18", "window-exceeded", fmt("leader %lu has %zu unacknowledged appends to %lu, window %lu", n.id, w.size(), id, max_inflight()));
      if (p.paused != (w.size() >= max_inflight())) viol("C18", p.paused ? "paused-with-room" : "not-paused-when-full", fmt("leader %lu: follower %lu paused=%d with %zu of %lu in flight on %s", n.id, id, p.paused, w.size(), max_inflight(), in ? mstr(*in).c_str() : opname(k)));
      ctr["C18.window_checks"]++;
      if (w.size() >= max_inflight()) ctr["C18.window_full"]++;
    } else {
      w.clear();
      if (p.st == (int)StateType::kProbe) {
        int ne = 0;
        for (auto* m : apps[id]) ne += m->entries_size() > 0;
        if (ne > 1) viol("C18", "probe-burst", fmt("leader %lu sent %d appends with entries to %lu while probing", n.id, ne, id));
        if (ne && !p.paused) viol("C18", "probe-not-paused", fmt("leader %lu not paused after probing %lu", n.id, id));
        if (ne) ctr["C18.probes"]++;
      } else {
        if (!p.paused) viol("C18", "snapshot-not-paused", fmt("leader %lu: follower %lu in snapshot state is not paused", n.id, id));
        if (!apps[id].empty() && (had && it->second.st == p.st)) viol("C18", "append-during-snapshot", fmt("leader %lu sent appends to %lu while it receives a snapshot", n.id, id));
      }
    }
  }
}

// ---------------------------------------------------------------- batch processing

static uint64_t sumsize(const EntryPtrs& es) { uint64_t s = 0; for (auto& e : es) s += e->ByteSizeLong(); return s; }

void Sim::visible_commit(Node& n, uint64_t c, uint64_t at_term) {
  if (c < cbase) return;
  uint64_t top = std::min(c, cmax());
  if (n.disk.has(top) && top >= cbase && n.disk.chain(top) != cchain(top))
    viol("C04 C03", "committed-differs", fmt("node %lu reports %lu as committed but its entry differs from the one committed earlier", n.id, top));
  if (c <= cmax()) return;
  for (uint64_t i = cmax() + 1; i <= c; i++) {
    if (!n.disk.has(i) || i <= n.disk.base) { viol("C06 C04 C05", "commit-not-stored", fmt("node %lu reports %lu committed without having the entry", n.id, i)); return; }
    auto& e = n.disk.ents[i - n.disk.base - 1];
    CommitRec r{e.term(), n.disk.chain(i), at_term, e.data(), (int)e.type()};
    Conf nc = conf_at(cmax());
    committed.push_back(r);
    ctr["C04.committed"]++;
    if (is_conf(e)) {
      ctr["C13.committed_changes"]++;
      if (auto x = ref_apply(nc, to_v2(e))) nc = *x; else ctr["C13.invalid_changes"]++;
    }
    confs.push_back(nc);
    // C10 accounting
    bool neutral = e.data().empty() && (e.type() == raftpb::EntryNormal || e.type() == raftpb::EntryConfChangeV2);
    if (!neutral) {
      auto it = props.find(e.data());
      if (it == props.end()) viol("C10", "committed-unproposed", fmt("entry %lu of type %d (%zu bytes) was never proposed", i, e.type(), e.data().size()));
      else {
        auto& p = it->second;
        p.committed++;
        if (p.committed > p.submissions) viol("C10", "committed-twice", fmt("proposal at %lu committed %d times, submitted %d times", i, p.committed, p.submissions));
        if (p.refused) viol("C10 C19", "refused-committed", fmt("proposal at %lu was reported as refused", i));
        if (p.type != (int)e.type()) viol("C10", "committed-type", fmt("proposal at %lu committed with type %d, proposed %d", i, e.type(), p.type));
        ctr["C10.committed"]++;
      }
    }
    // C02: leaders of later terms had it
    for (auto it = leaders.upper_bound(at_term); it != leaders.end(); ++it) {
      auto& L = *it->second.second;
      ctr["C02.leader_checks"]++;
      if (i < L.base) continue;
      if (!L.has(i) || L.chain(i) != r.chain) viol("C02 C04", "leader-misses-committed", fmt("leader %lu of term %lu lacked entry %lu committed in term <= %lu", it->second.first, it->first, i, at_term));
    }
  }
}

bool Sim::maybe_crash(Node& n, bool crashes) {
  if (!crashes || !P.crashes || P.crash_stage <= 0 || !rng.chance(P.crash_stage)) return false;
  ctr["crashes_mid_batch"]++;
  crash(n);
  return true;
}

void Sim::st_get(Node& n) {
  Raft* r = n.rn->GetRaft();
  bool has = false; std::shared_ptr<Ready> pv;
  try {
    has = n.rn->HasReady();
    pv = n.rn->ReadyWithoutAccept();
  } catch (Panic& p) { viol("ANY", "library-fatal", fmt("node %lu: fatal while preparing a batch: %s", n.id, p.what())); }
  bool nonempty = pv->soft_state || !IsEmptyHardState(pv->hard_state) || !IsEmptySnap(pv->snapshot) || !pv->entries.empty() || !pv->committed_entries.empty() ||
                  !pv->messages.empty() || !pv->read_states.empty();
  ctr["C08.ready_polls"]++;
  if (has != nonempty) viol("C08 C32", "hasready-disagrees", fmt("node %lu: pending-work indicator says %d, batch non-empty is %d", n.id, has, nonempty));
  if (!nonempty) return;
  bool sync_mode = n.rd_sync_mode;
  NView pre = n.v;
  try { n.rd = n.rn->GetReady(); } catch (Panic& p) { viol("ANY", "library-fatal", fmt("node %lu: fatal while getting a batch: %s", n.id, p.what())); }
  n.v = view(n);
  auto& v = n.v; auto& rd = *n.rd;
  ctr["C08.batches"]++;
  if (v.term != pre.term || v.vote != pre.vote || v.commit != pre.commit || v.applied != pre.applied || v.last != pre.last || v.state != pre.state || v.lead != pre.lead || !(v.pr == pre.pr))
    viol("C08", "getready-changed-state", fmt("node %lu: taking a batch changed its state", n.id));
  if (v.nm || v.nrs) viol("C08", "outputs-not-cleared", fmt("node %lu: %zu messages / %zu reads remain after taking a batch", n.id, v.nm, v.nrs));
  // every message exactly once, in order
  bool same = rd.messages.size() == n.gen.size();
  for (size_t i = 0; same && i < n.gen.size(); i++) same = rd.messages[i]->SerializeAsString() == n.gen[i];
  if (!same) viol("C08", "messages-not-once", fmt("node %lu: batch has %zu messages, %zu were produced (or contents differ)", n.id, rd.messages.size(), n.gen.size()));
  same = rd.read_states.size() == n.gen_rs.size();
  for (size_t i = 0; same && i < n.gen_rs.size(); i++) same = fmt("%lu@", rd.read_states[i].index) + rd.read_states[i].request_ctx == n.gen_rs[i];
  if (!same) viol("C08 C11", "reads-not-once", fmt("node %lu: batch has %zu read results, %zu were produced", n.id, rd.read_states.size(), n.gen_rs.size()));
  ctr["C08.messages"] += n.gen.size();
  n.gen.clear(); n.gen_rs.clear();
  // hard and soft state
  raftpb::HardState cur;
  cur.set_term(v.term); cur.set_vote(v.vote); cur.set_commit(v.commit);
  auto& lh = n.last_hs;
  bool changed = cur.term() != lh.term() || cur.vote() != lh.vote() || cur.commit() != lh.commit();
  if (IsEmptyHardState(rd.hard_state) == changed) viol("C08", "hardstate-presence", fmt("node %lu: hard state %s although it %s", n.id, changed ? "missing" : "present", changed ? "changed" : "did not change"));
  if (changed && !(rd.hard_state.term() == cur.term() && rd.hard_state.vote() == cur.vote() && rd.hard_state.commit() == cur.commit()))
    viol("C08 C07", "hardstate-content", fmt("node %lu: batch hard state {%lu %lu %lu}, actual {%lu %lu %lu}", n.id, rd.hard_state.term(), rd.hard_state.vote(), rd.hard_state.commit(), cur.term(), cur.vote(), cur.commit()));
  bool want_sync = !rd.entries.empty() || cur.term() != lh.term() || cur.vote() != lh.vote();
  if (rd.must_sync != want_sync) viol("C08", "must-sync", fmt("node %lu: must_sync=%d, entries=%zu term %lu->%lu vote %lu->%lu", n.id, rd.must_sync, rd.entries.size(), lh.term(), cur.term(), lh.vote(), cur.vote()));
  SoftState ss; ss.lead = v.lead; ss.raft_state = (RaftStateType)v.state;
  if (rd.soft_state.has_value() == (ss == n.last_soft)) viol("C08", "softstate-presence", fmt("node %lu: soft state presence wrong", n.id));
  if (rd.soft_state && !(*rd.soft_state == ss)) viol("C08", "softstate-content", fmt("node %lu: soft state content wrong", n.id));
  n.last_soft = ss;
  if (changed) n.last_hs = cur;
  // snapshot and entries: disk + batch must equal the in-memory log
  const LogView& L = *n.log;
  bool hassnap = !IsEmptySnap(rd.snapshot);
  if (hassnap != v.psnap) viol("C08 C17", "snapshot-presence", fmt("node %lu: snapshot in batch %d, pending %d", n.id, hassnap, v.psnap));
  uint64_t base = n.disk.base, last = n.disk.last();
  if (hassnap) {
    base = last = rd.snapshot->metadata().index();
    if (base < cbase || base > cmax() || rd.snapshot->metadata().term() != cterm(base) || rd.snapshot->data() != snapdata(base, cchain(base), snappad(base)) || from_cs(rd.snapshot->metadata().conf_state()) != conf_at(base))
      viol("C17", "snapshot-content", fmt("node %lu: batch snapshot %lu differs from what was produced at that index", n.id, base));
  }
  uint64_t c = 0, i = 0;
  if (!rd.entries.empty()) {
    uint64_t f = rd.entries[0]->index();
    if (f <= base || f > last + 1) viol("C08", "entries-gap", fmt("node %lu: batch entries start at %lu, stored log is (%lu,%lu]", n.id, f, base, last));
    else {
      if (sync_mode && !hassnap && f < n.trunc_min && f <= n.disk.last() && f > n.disk.base) {
        uint64_t cc = chain_next(n.disk.chain(f - 1), *rd.entries[0]);
        if (cc == n.disk.chain(f)) viol("C08", "entry-twice", fmt("node %lu: entry %lu handed out again although it was stored and acknowledged", n.id, f));
      }
      c = f - 1 == base ? (hassnap ? (base >= cbase && base <= cmax() ? cchain(base) : 0) : n.disk.base_chain) : n.disk.chain(f - 1);
      i = f - 1;
      for (auto& e : rd.entries) {
        i++;
        if (e->index() != i) { viol("C08", "entries-gap", fmt("node %lu: batch entries not contiguous at %lu", n.id, e->index())); break; }
        c = chain_next(c, *e);
        if (!L.has(i) || L.chain(i) != c) { viol("C08 C03", "entries-differ", fmt("node %lu: batch entry %lu differs from the log", n.id, i)); break; }
      }
      last = i;
    }
  }
  ctr["C08.entries"] += rd.entries.size();
  if (last != L.last()) viol("C08", "entries-incomplete", fmt("node %lu: after storing the batch the log would end at %lu, in memory %lu", n.id, last, L.last()));
  else {
    uint64_t f = rd.entries.empty() ? last + 1 : rd.entries[0]->index();
    uint64_t t = f - 1;
    if (t > base && n.disk.has(t) && L.has(t) && n.disk.chain(t) != L.chain(t)) viol("C08 C03", "entries-differ", fmt("node %lu: stored entry %lu differs from the log and was not handed out", n.id, t));
  }
  n.trunc_min = UINT64_MAX;
  // committed entries
  auto& ce = rd.committed_entries;
  uint64_t from = hassnap ? rd.snapshot->metadata().index() : n.app_applied;
  for (size_t k = 0; k < ce.size(); k++)
    if (ce[k]->index() != from + 1 + k) { viol("C05", "delivery-order", fmt("node %lu: delivered index %lu, expected %lu", n.id, ce[k]->index(), from + 1 + k)); break; }
  if (!ce.empty() && ce.back()->index() > v.commit) viol("C05", "delivered-uncommitted", fmt("node %lu: delivered %lu, commit %lu", n.id, ce.back()->index(), v.commit));
  if (ce.empty() && v.commit > from) viol("C05 C24", "nothing-delivered", fmt("node %lu: committed up to %lu, applied %lu, nothing delivered", n.id, v.commit, from));
  uint64_t lim = P.max_commit ? P.max_commit : P.max_size;
  if (ce.size() > 1 && sumsize(ce) > lim) viol("C18 C05", "batch-too-large", fmt("node %lu: %zu committed entries of %lu bytes, limit %lu", n.id, ce.size(), sumsize(ce), lim));
  if (!ce.empty() && ce.back()->index() < v.commit) ctr["C05.paged_batches"]++;
  ctr["C05.delivered"] += ce.size();
  n.rd_msgs.clear();
  for (auto& m : rd.messages) n.rd_msgs.push_back(std::make_shared<Message>(*m));
  n.rd_ents.clear(); n.rd_comm.clear();
  for (auto& e : rd.entries) n.rd_ents.push_back(e->SerializeAsString());
  for (auto& e : ce) n.rd_comm.push_back(e->SerializeAsString());
  n.ready_log = n.log;
  n.ready_commit = v.commit; n.ready_term = v.term; n.ready_state = v.state;
  n.rd_pend = std::move(n.pend_commit); n.pend_commit.clear();
  n.rd_lead = n.lead_pending; n.lead_pending = 0;
  n.sent = n.applied_n = 0;
  n.rd_in_async = false;
  n.stage = 1;
  n.send_first = rng.chance(0.5);
  (void)r;
  log("[%lu] node %lu batch: ents=%zu comm=%zu msgs=%zu hs=%d snap=%d sync=%d", now, n.id, rd.entries.size(), ce.size(), rd.messages.size(), (int)changed, (int)hassnap, (int)rd.must_sync);
}

void Sim::st_persist(Node& n, bool crashes) {
  auto& rd = *n.rd; auto& d = n.disk;
  bool same = rd.entries.size() == n.rd_ents.size();
  for (size_t i = 0; same && i < n.rd_ents.size(); i++) same = rd.entries[i]->SerializeAsString() == n.rd_ents[i];
  if (!same) viol("C08 C27", "batch-mutated", fmt("node %lu: entries of a batch changed after it was handed out", n.id));
  bool hassnap = !IsEmptySnap(rd.snapshot);
  bool hs = !IsEmptyHardState(rd.hard_state);
  auto put = [&](const raftpb::Entry& e) {
    uint64_t i = e.index();
    if (i <= d.base || i > d.last() + 1) { viol("C08 C09", "append-gap", fmt("node %lu: entry %lu cannot be stored in (%lu,%lu]", n.id, i, d.base, d.last())); return; }
    uint64_t c = chain_next(d.chain(i - 1), e);
    if (d.has(i) && d.chain(i) != c && i <= d.cur().commit())
      viol("C04 C07 C03", "committed-overwritten", fmt("node %lu overwrites entry %lu, commit %lu", n.id, i, d.cur().commit()));
    if (d.has(i) && d.chain(i) == c) {
      // identical: keep the tail only if the batch ends here (append truncates)
    }
    d.ents.resize(i - d.base - 1); d.chains.resize(i - d.base - 1);
    d.ents.push_back(e); d.chains.push_back(c);
    auto it = chains.emplace(key(i, e.term()), c);
    if (!it.second && it.first->second != c) viol("C03 C04", "log-matching", fmt("node %lu: entry %lu of term %lu has a different prefix than on another node", n.id, i, e.term()));
    durable[key(i, c)] |= 1ULL << (n.id & 63);
    ctr["C03.entries_persisted"]++;
    if (!e.data().empty()) {
      auto p = props.find(e.data());
      if (p != props.end() && p->second.refused) viol("C10 C19", "refused-in-log", fmt("node %lu stores a proposal that was reported as refused at %lu", n.id, i));
    }
  };
  // torn write: only a prefix of the entries reaches the disk
  if (crashes && P.torn && P.crashes && !hassnap && rd.entries.size() > 1 && d.dirty && rng.chance(0.05)) {
    size_t k = 1 + rng.below(rd.entries.size() - 1);
    for (size_t i = 0; i < k; i++) put(*rd.entries[i]);
    ctr["torn_writes"]++;
    crash(n);
    return;
  }
  d.dirty = true;
  if (hassnap) {
    auto s = n.st->ApplySnapshot(rd.snapshot);
    if (!s.IsOK()) viol("C17 C26", "storage-refused-snapshot", fmt("node %lu: storage refused snapshot %lu: %s", n.id, rd.snapshot->metadata().index(), s.Str()));
    d.snap = std::make_shared<raftpb::Snapshot>(*rd.snapshot);
    uint64_t i = d.snap->metadata().index();
    d.snap_chain = cchain(i);
    d.base = i; d.base_term = d.snap->metadata().term(); d.base_chain = d.snap_chain;
    d.ents.clear(); d.chains.clear();
    n.max_snap_ever = std::max(n.max_snap_ever, i);
    n.app_applied = i; n.app_chain = d.snap_chain; n.app_conf = from_cs(d.snap->metadata().conf_state());
    if (P.app_durable) { d.app_applied = i; d.app_conf = n.app_conf; }
    n.st->cs_override.reset();
    ctr["C17.persisted"]++;
  }
  if (!rd.entries.empty()) {
    n.st->Append(rd.entries);
    // an append truncates everything after its last entry
    for (auto& e : rd.entries) put(*e);
  }
  if (hs) {
    auto& o = d.cur();
    auto& h = rd.hard_state;
    if (h.term() < o.term() || h.commit() < o.commit() || (h.term() == o.term() && o.vote() && h.vote() != o.vote()))
      viol("C07", "handed-state-goes-back", fmt("node %lu: handed-out state {%lu %lu %lu} after {%lu %lu %lu}", n.id, h.term(), h.vote(), h.commit(), o.term(), o.vote(), o.commit()));
    if (rd.must_sync || hassnap || P.sync_all) { d.soft.reset(); d.hs = h; }
    else d.soft = h;
    n.st->SetHardState(h);
  }
  if ((rd.must_sync || hassnap) && d.soft) { d.hs = *d.soft; d.soft.reset(); }
  if (n.rd_lead) {
    auto it = leaders.find(n.rd_lead);
    if (it == leaders.end()) leaders[n.rd_lead] = {n.id, n.elect_log};
    else if (it->second.first != n.id) viol("C01", "two-leaders", fmt("nodes %lu and %lu both lead term %lu", it->second.first, n.id, n.rd_lead));
    n.rd_lead = 0;
  }
  // C06: what this leader committed must now be durable on a quorum of the configuration it used
  for (auto& p : n.rd_pend) {
    ctr["C06.quorum_checks"]++;
    if (p.conf.joint()) ctr["C06.quorum_checks_joint"]++;
    uint64_t t = 0; (void)t;
    if (!p.conf.quorum([&](uint64_t id) { return ever_durable(id, p.idx, 0, p.chain); }))
      viol("C06 C04", "commit-without-quorum", fmt("leader %lu committed %lu without it being durable on a quorum of %s", n.id, p.idx, p.conf.str().c_str()));
  }
  n.rd_pend.clear();
  if (hs) visible_commit(n, rd.hard_state.commit(), rd.hard_state.term());
  n.stage = 2;
}

void Sim::check_send(Node& n, const Message& m) {
  auto& d = n.disk;
  uint64_t T = d.hs.term();
  ctr["C08.sends_checked"]++;
  bool preresp = m.type() == raftpb::MsgPreVoteResp && !m.reject();
  bool pre = m.type() == raftpb::MsgPreVote;
  bool local = m.type() == raftpb::MsgProp || m.type() == raftpb::MsgReadIndex;
  if (!preresp && !pre && !local && m.term() > T) viol("C08", "message-ahead-of-disk", fmt("node %lu sends %s with durable term %lu", n.id, mstr(m).c_str(), T));
  if (m.type() == raftpb::MsgAppResp && !m.reject() && m.index() > 0 && m.term() == T) {
    uint64_t i = m.index();
    if (i > d.last()) viol("C08 C06", "ack-ahead-of-disk", fmt("node %lu acknowledges %lu, durable log ends at %lu", n.id, i, d.last()));
    else if (i >= d.base && n.ready_log && n.ready_log->has(i) && d.chain(i) != n.ready_log->chain(i)) viol("C08 C06", "ack-other-entry", fmt("node %lu acknowledges %lu but stored another entry there", n.id, i));
    else if (i >= d.base) durable[key(i, d.chain(i))] |= 1ULL << (n.id & 63);
  }
  bool grant = m.type() == raftpb::MsgVoteResp && !m.reject();
  bool cand = m.type() == raftpb::MsgVote;
  if (grant || cand) {
    uint64_t c = grant ? m.to() : n.id;
    if (T == m.term() && d.hs.vote() != c) viol("C08 C01", "vote-ahead-of-disk", fmt("node %lu sends %s, durable vote is %lu", n.id, mstr(m).c_str(), d.hs.vote()));
    auto it = votes.emplace(std::make_pair(n.id, m.term()), c);
    if (!it.second && it.first->second != c) viol("C01", "double-vote", fmt("node %lu voted for %lu and %lu in term %lu", n.id, it.first->second, c, m.term()));
    ctr["C01.votes"]++;
  }
  if (m.type() == raftpb::MsgApp) {
    if (m.term() == T)
      for (auto& e : m.entries()) {
        if (e.index() <= d.base) continue;
        if (e.index() > d.last() || d.ents[e.index() - d.base - 1].term() != e.term() || d.ents[e.index() - d.base - 1].data() != e.data())
          viol("C08 C03", "append-ahead-of-disk", fmt("node %lu sends entry %lu it has not stored", n.id, e.index()));
      }
    if (m.commit() > cmax()) viol("C08 C06", "commit-ahead-of-disk", fmt("node %lu sends commit %lu, visible is %lu", n.id, m.commit(), cmax()));
  }
  if (m.type() == raftpb::MsgHeartbeat && m.commit() > cmax()) viol("C08 C06", "commit-ahead-of-disk", fmt("node %lu sends commit %lu, visible is %lu", n.id, m.commit(), cmax()));
}

void Sim::send_msg(Node& n, const MsgP& m) {
  check_send(n, *m);
  // a leader removed and added again addresses an append to itself; transports have no such peer
  if (m->to() == n.id && m->type() != raftpb::MsgProp) { ctr["self_messages"]++; if (m->type() == raftpb::MsgSnap) lost_snap(*m, n.inc, false); return; }
  Node* d = node(m->to());
  if (!d || d->retired) { if (m->type() == raftpb::MsgSnap) lost_snap(*m, n.inc, false); return; }
  if (net.size() > 3000) { drop_flight(net.front()); net.pop_front(); }
  net.push_back({m, now, (uint64_t)n.inc});
  if (m->type() != raftpb::MsgProp && P.replay) {
    if (old_msgs.size() < 150) old_msgs.push_back(m);
    else if (rng.chance(0.3)) old_msgs[rng.below(old_msgs.size())] = m;
  }
}

void Sim::st_send(Node& n, bool crashes) {
  auto& rd = *n.rd;
  size_t k = n.rd_msgs.size();
  if (P.async && k - n.sent > 1 && rng.chance(0.5)) k = n.sent + 1 + rng.below(k - n.sent);
  while (n.sent < k) {
    size_t i = n.sent++;
    if (rd.messages[i]->SerializeAsString() != n.rd_msgs[i]->SerializeAsString()) viol("C08", "message-mutated", fmt("node %lu: a message changed after it was handed out: %s -> %s", n.id, mstr(*n.rd_msgs[i]).c_str(), mstr(*rd.messages[i]).c_str()));
    send_msg(n, n.rd_msgs[i]);
  }
  (void)crashes;
}

void Sim::st_apply(Node& n, bool crashes) {
  auto& ce = n.rd->committed_entries;
  size_t k = ce.size();
  if (P.async && k - n.applied_n > 1 && rng.chance(0.5)) k = n.applied_n + 1 + rng.below(k - n.applied_n);
  while (n.applied_n < k) {
    size_t j = n.applied_n++;
    auto& e = *ce[j];
    if (e.SerializeAsString() != n.rd_comm[j]) viol("C05 C27", "delivered-mutated", fmt("node %lu: a delivered entry changed after it was handed out", n.id));
    uint64_t i = e.index();
    if (i != n.app_applied + 1) viol("C05", "apply-order", fmt("node %lu applies %lu after %lu", n.id, i, n.app_applied));
    uint64_t c = chain_next(n.app_chain, e);
    if (i > cmax() || i <= cbase) viol("C05 C04", "apply-uncommitted", fmt("node %lu applies %lu, visibly committed is %lu", n.id, i, cmax()));
    else if (cchain(i) != c) viol("C04 C05 C17", "apply-different", fmt("node %lu applies a different entry at %lu than was committed", n.id, i));
    if (!n.disk.has(i) || n.disk.chain(i) != c) viol("C05 C08", "apply-not-durable", fmt("node %lu applies %lu which is not stored locally", n.id, i));
    n.app_applied = i; n.app_chain = c;
    ctr["C05.applied"]++;
    if (is_conf(e)) {
      auto v2 = to_v2(e);
      auto nc = ref_apply(n.app_conf, v2);
      auto mc = ref_apply(n.conf, v2);
      if (nc) {
        n.app_conf = *nc;
        if (!mc) viol("C13 C14", "active-config-differs", fmt("node %lu: change at %lu does not apply to its active configuration %s", n.id, i, n.conf.str().c_str()));
        for (auto id : mc->members()) if (!n.conf.member(id)) n.heard[id] = n.ticks;
        if (*mc != n.conf) n.conf_tick = n.ticks;
        n.conf = *mc;
        raftpb::ConfState cs;
        auto v1 = raftpb::ConfChange();
        bool usev1 = e.type() == raftpb::EntryConfChange && v1.ParseFromString(e.data());
        op(n, Op::ApplyCC, nullptr, 0, [&] { cs = usev1 ? n.rn->ApplyConfChange(ConfChangeI(v1)) : n.rn->ApplyConfChange(ConfChangeI(v2)); return Status::OK(); });
        if (from_cs(cs) != n.conf) viol("C13 C14", "applied-config", fmt("node %lu: applying the change at %lu gives %s, expected %s", n.id, i, from_cs(cs).str().c_str(), n.conf.str().c_str()));
        ctr["C13.applied_changes"]++;
        if (n.conf.joint()) ctr["C13.applied_joint"]++;
      }
    }
    if (i <= cmax() && i > cbase && n.app_conf != conf_at(i)) viol("C13 C17", "app-config", fmt("node %lu: configuration at %lu is %s, expected %s", n.id, i, n.app_conf.str().c_str(), conf_at(i).str().c_str()));
    if (P.app_durable) {
      auto& d = n.disk;
      if (d.soft) { d.hs = *d.soft; d.soft.reset(); }
      d.app_applied = i; d.app_conf = n.app_conf;
    }
    if (crashes && P.crash_stage > 0 && maybe_crash(n, true)) return;
  }
}

void Sim::st_advance(Node& n) {
  auto rd = n.rd;
  uint64_t exp = n.v.applied;
  if (!IsEmptySnap(rd->snapshot)) exp = std::max(exp, rd->snapshot->metadata().index());
  if (!rd->committed_entries.empty()) exp = std::max(exp, rd->committed_entries.back()->index());
  // quota accounting happens before anything else in the operation
  if (n.v.state == kLeader) {
    uint64_t s = 0;
    for (auto& e : rd->committed_entries) {
      s += e->data().size();
      auto it = n.own_sizes.find(e->index());
      if (it != n.own_sizes.end()) { n.u_hi -= std::min(n.u_hi, it->second); n.own_sizes.erase(it); }
    }
    n.u_lo -= std::min(n.u_lo, s);
  }
  n.rd.reset();
  op(n, Op::Advance, nullptr, 0, [&] { n.rn->Advance(); return Status::OK(); });
  if (n.v.applied != exp) viol("C05 C07", "applied-after-advance", fmt("node %lu: applied %lu after advancing over %lu", n.id, n.v.applied, exp));
  n.rd_sync_mode = !n.rd_in_async;
  n.stage = 0;
}

void Sim::do_stage(Node& n, bool crashes) {
  if (!n.up) return;
  switch (n.stage) {
    case 0: st_get(n); break;
    case 1:
      if (maybe_crash(n, crashes)) return;
      st_persist(n, crashes);
      if (n.up) maybe_crash(n, crashes);
      break;
    case 2: {
      bool ms = n.sent < n.rd_msgs.size(), ma = n.applied_n < n.rd->committed_entries.size();
      if (!ms && !ma) { n.stage = 4; break; }
      bool send = ms && (!ma || (P.async ? rng.chance(0.5) : n.send_first));
      if (send) st_send(n, crashes); else st_apply(n, crashes);
      if (n.up) maybe_crash(n, crashes);
      break;
    }
    case 4: st_advance(n); break;
    default: break;
  }
}

void Sim::process(Node& n, bool crashes) {
  if (!n.up) return;
  if (n.stage == 0) do_stage(n, crashes);
  while (n.up && n.stage != 0) do_stage(n, crashes);
}

// ---------------------------------------------------------------- network

void Sim::lost_snap(const Message& m, uint64_t inc, bool ok) { snap_reports.push_back({{m.from(), (int)inc}, {m.to(), ok}}); }

void Sim::drop_flight(const Flight& f) {
  ctr["messages_lost"]++;
  if (f.m->type() == raftpb::MsgSnap) lost_snap(*f.m, f.send_inc, false);
}

void Sim::flush_snap_reports(bool all_) {
  size_t k = snap_reports.size();
  while (k-- > 0) {
    auto r = snap_reports.front(); snap_reports.pop_front();
    if (!all_ && rng.chance(0.7)) { snap_reports.push_back(r); continue; }
    Node* n = node(r.first.first);
    if (!n || !n->up || n->inc != r.first.second) continue;
    report_snapshot(*n, r.second.first, r.second.second);
  }
}

void Sim::deliver_msg(const MsgP& m, bool fresh) {
  Node* d = node(m->to());
  if (!d || !d->up) return;
  auto in = std::make_shared<Message>(*m);
  ctr["deliveries"]++;
  if (!fresh) ctr["redeliveries"]++;
  if (m->type() == raftpb::MsgReadIndex && m->entries_size() > 0) {
    auto it = reads.find(m->entries(0).data());
    if (it != reads.end() && d->v.state == kLeader) {
      if (m->from() == 0 || m->from() == d->id) it->second.local++; else it->second.reached++;
    }
  }
  if (m->type() == raftpb::MsgReadIndexResp && m->entries_size() > 0) {
    auto it = reads.find(m->entries(0).data());
    if (it != reads.end()) it->second.resp_del++;
  }
  op(*d, Op::Step, m.get(), 0, [&] { return d->rn->Step(in); });
}

// A membership change that was delivered is applied before the node hears of a snapshot beyond it.
bool Sim::may_take_snapshot(const Node& d) const {
  if (d.stage == 0) return true;
  if (!d.rd) return false;
  for (size_t i = d.applied_n; i < d.rd->committed_entries.size(); i++) if (is_conf(*d.rd->committed_entries[i])) return false;
  return true;
}

// The leader sends its newest snapshot to a node that may not have asked for it.
void Sim::offer_snapshot(Node& d) {
  Node* l = leader();
  if (!l || l == &d || !d.up || !may_take_snapshot(d) || !l->conf.member(d.id)) return;
  if (l->app_applied > d.v.commit && (!l->disk.snap || l->disk.snap->metadata().index() <= d.v.commit) && l->stage != 1) make_snapshot(*l);
  if (!l->disk.snap) return;
  auto& md = l->disk.snap->metadata();
  if (md.index() <= d.v.commit || l->v.term < d.v.term) return;
  auto m = std::make_shared<Message>();
  m->set_type(raftpb::MsgSnap); m->set_from(l->id); m->set_to(d.id); m->set_term(l->v.term);
  *m->mutable_snapshot() = *l->disk.snap;
  ctr["C17.offered"]++;
  if (d.stage != 0) { ctr["C17.offered_during_batch"]++; if (!IsEmptySnap(d.rd->snapshot)) ctr["C17.offered_during_install"]++; }
  deliver_msg(m, false);
}

void Sim::deliver(size_t i) {
  Flight f = net[i];
  Node* d = node(f.m->to());
  bool snap = f.m->type() == raftpb::MsgSnap;
  if (d && d->up && !d->retired && snap && !may_take_snapshot(*d)) return;
  net.erase(net.begin() + i);
  if (!d || !d->up || d->retired || blocked(f.m->from(), f.m->to()) || rng.chance(P.drop)) { drop_flight(f); return; }
  if (f.m->type() != raftpb::MsgProp && rng.chance(P.dup)) { net.push_back(f); ctr["messages_duplicated"]++; }
  deliver_msg(f.m, true);
  if (snap) lost_snap(*f.m, f.send_inc, true);
}

// ---------------------------------------------------------------- client operations

void Sim::tick(Node& n) { op(n, Op::Tick, nullptr, 0, [&] { n.rn->Tick(); return Status::OK(); }); }
void Sim::campaign(Node& n) { op(n, Op::Campaign, nullptr, 0, [&] { return n.rn->Campaign(); }); }

bool Sim::propose(Node& n, int size) {
  std::string d = fmt("p%lu:", next_prop++);
  if ((int)d.size() < size) d.append(size - d.size(), 'a' + (char)(next_prop % 26));
  auto& p = props[d];
  p.submissions++; p.type = raftpb::EntryNormal;
  Message m; m.set_type(raftpb::MsgProp); m.set_from(n.id); m.add_entries()->set_data(d);
  bool ok = false;
  op(n, Op::Propose, &m, 0, [&] { auto s = n.rn->Propose(d); ok = s.IsOK(); return s; });
  ctr["proposals"]++;
  return ok;
}

static raftpb::ConfChangeV2 rand_cc(Rng& rng, const Conf& c, const std::vector<uint64_t>& pool) {
  raftpb::ConfChangeV2 v;
  auto add = [&](raftpb::ConfChangeType t, uint64_t id) { auto* x = v.add_changes(); x->set_type(t); x->set_node_id(id); };
  auto rnd_type = [&] { double r = rng.chance(0.45) ? 0 : (rng.chance(0.6) ? 1 : 2); return r == 0 ? raftpb::ConfChangeAddNode : r == 1 ? raftpb::ConfChangeRemoveNode : raftpb::ConfChangeAddLearnerNode; };
  if (c.joint() && rng.chance(0.8)) return v;  // leave
  int n = rng.chance(0.55) ? 1 : (int)rng.range(2, 4);
  for (int i = 0; i < n; i++) {
    uint64_t id = pool[rng.below(pool.size())];
    auto t = rnd_type();
    if (c.V.size() >= 5 && t == raftpb::ConfChangeAddNode && rng.chance(0.7)) t = raftpb::ConfChangeRemoveNode;
    if (c.V.size() <= 2 && t == raftpb::ConfChangeRemoveNode && rng.chance(0.7)) t = raftpb::ConfChangeAddNode;
    if (t == raftpb::ConfChangeRemoveNode && rng.chance(0.8) && !c.members().empty()) { auto ms = c.members(); auto it = ms.begin(); std::advance(it, rng.below(ms.size())); id = *it; }
    if (rng.chance(0.03)) t = raftpb::ConfChangeUpdateNode;
    add(t, id);
  }
  if (rng.chance(0.02)) v.clear_changes();
  double r = (double)rng.below(100);
  if (r < 55) v.set_transition(raftpb::ConfChangeTransitionAuto);
  else if (r < 78) v.set_transition(raftpb::ConfChangeTransitionJointImplicit);
  else v.set_transition(raftpb::ConfChangeTransitionJointExplicit);
  return v;
}

bool Sim::propose_cc(Node& n, const ConfChangeI& cc, const std::vector<uint64_t>& newids) {
  auto [t, data, okm] = cc.Marshal();
  (void)okm;
  for (auto id : newids) if (!nodes.count(id)) { add_node(id); start_node(*nodes[id], true); }
  if (!data.empty()) {
    auto& p = props[data];
    p.submissions++; p.conf = true; p.type = (int)t;
  }
  Message m; m.set_type(raftpb::MsgProp);
  auto* e = m.add_entries(); e->set_type(t); e->set_data(data);
  bool ok = false;
  op(n, Op::Propose, &m, 0, [&] { auto s = n.rn->ProposeConfChange(cc); ok = s.IsOK(); return s; });
  ctr["conf_proposals"]++;
  return ok;
}

void Sim::propose_conf(Node& n) {
  std::vector<uint64_t> pool;
  for (uint64_t i = 1; i <= (uint64_t)P.max_ids; i++) { Node* x = node(nid(i)); if (!x || !x->retired) pool.push_back(nid(i)); }
  if (pool.empty()) return;
  auto v = rand_cc(rng, n.conf, pool);
  if (!(v.changes_size() == 0 && rng.chance(0.5))) v.set_context(fmt("cc%lu", next_prop++)); else v.Clear();
  std::vector<uint64_t> ids;
  for (auto& c : v.changes()) if (c.type() != raftpb::ConfChangeRemoveNode) ids.push_back(c.node_id());
  if (v.changes_size() == 1 && rng.chance(0.4)) {
    raftpb::ConfChange o;
    o.set_type(v.changes(0).type()); o.set_node_id(v.changes(0).node_id()); o.set_context(fmt("c1-%lu", next_prop++));
    propose_cc(n, ConfChangeI(o), ids);
  } else propose_cc(n, ConfChangeI(v), ids);
}

void Sim::propose_batch(Node& n) {
  auto m = std::make_shared<Message>();
  m->set_type(raftpb::MsgProp); m->set_from(n.id);
  bool big = rng.chance(P.prop == "C19" ? 0.06 : 0.004);
  int k = big ? (int)rng.range(20, 300) : (int)rng.range(1, 5);
  if (big) ctr["big_batches"]++;
  for (int i = 0; i < k; i++) {
    auto* e = m->add_entries();
    if (P.confchange && rng.chance(big ? 0.01 : 0.15)) {
      std::vector<uint64_t> pool;
      for (uint64_t j = 1; j <= (uint64_t)P.max_ids; j++) { Node* x = node(nid(j)); if (x && !x->retired) pool.push_back(nid(j)); }
      auto v = rand_cc(rng, n.conf, pool);
      v.set_context(fmt("cb%lu", next_prop++));
      e->set_type(raftpb::EntryConfChangeV2); e->set_data(v.SerializeAsString());
    } else if (rng.chance(0.05)) {
      continue;  // empty payload
    } else {
      std::string d = fmt("b%lu:", next_prop++);
      d.append(rng.below(big ? 4 : P.maxpay + 1), 'z');
      e->set_data(d);
    }
    auto& p = props[e->data()];
    p.submissions++; p.type = e->type(); p.conf = e->type() != raftpb::EntryNormal;
  }
  props.erase("");
  auto in = std::make_shared<Message>(*m);
  op(n, Op::Step, m.get(), 0, [&] { return n.rn->Step(in); });
  ctr["proposals"]++;
}

// Is this leader between one and two election timeouts away from the newest tick at which a quorum had answered it?
bool Sim::in_lease_window(const Node& n) const {
  if (!P.lease_scn) return false;
  uint64_t gap = 0;
  for (uint64_t g = 0;; g++) {
    if (g > n.ticks) { gap = g; break; }
    uint64_t lo = n.ticks - g;
    if (n.conf.quorum([&](uint64_t id) { auto it = n.heard.find(id); return id == n.id || (it != n.heard.end() && it->second >= lo); })) { gap = g; break; }
  }
  // A quorum elected this leader, which counts as an answer.
  if (n.ticks >= n.lead_since) gap = std::min(gap, n.ticks - n.lead_since);
  return gap + 1 >= (uint64_t)P.E && gap <= 2 * (uint64_t)P.E + 1;
}

void Sim::read(Node& n) {
  std::string ctx = fmt("r%lu", next_read++);
  Read rd{}; rd.node = n.id; rd.floor = cmax(); rd.tick = n.ticks;
  if (n.v.state == kLeader) {
    rd.local = 1;
    if (in_lease_window(n)) rd.tag = "lease-window";
  }
  reads[ctx] = rd;
  Message m; m.set_type(raftpb::MsgReadIndex); m.add_entries()->set_data(ctx);
  op(n, Op::Read, &m, 0, [&] { n.rn->ReadIndex(ctx); return Status::OK(); });
  ctr["C11.requests"]++;
}

void Sim::transfer(Node& n, uint64_t to) { op(n, Op::Transfer, nullptr, to, [&] { n.rn->TransferLeader(to); return Status::OK(); }); }
void Sim::report_unreachable(Node& n, uint64_t to) { op(n, Op::Unreach, nullptr, to, [&] { n.rn->ReportUnreachable(to); return Status::OK(); }); }
void Sim::report_snapshot(Node& n, uint64_t to, bool ok) {
  report_ok = ok;
  op(n, Op::SnapStat, nullptr, to, [&] { n.rn->ReportSnapshot(to, ok ? kFinish : kFailure); return Status::OK(); });
}

void Sim::make_snapshot(Node& n) {
  auto& d = n.disk;
  uint64_t i = n.app_applied;
  uint64_t si = d.snap ? d.snap->metadata().index() : 0;
  if (n.v.psnap || !n.up || n.stage == 1) return;
  if (P.bootstrap && i < (uint64_t)P.n) return;
  bool have = i > si && d.has(i) && i > d.base;
  if (have && i <= d.cur().commit()) {
    if (d.soft) { d.hs = *d.soft; d.soft.reset(); }
    auto cs = to_cs(n.app_conf);
    auto [sp, st] = n.st->CreateSnapshot(i, &cs, snapdata(i, n.app_chain, snappad(i)));
    if (!st.IsOK()) { viol("C26 C17", "create-snapshot-refused", fmt("node %lu: storage refused to create snapshot %lu: %s", n.id, i, st.Str())); return; }
    d.snap = std::make_shared<raftpb::Snapshot>(*sp);
    d.snap_chain = n.app_chain;
    n.max_snap_ever = std::max(n.max_snap_ever, i);
    si = i;
    ctr["C17.created"]++;
  }
  if (rng.chance(0.75)) {
    uint64_t hi = std::min({si, n.v.applied, n.app_applied});
    if (hi > d.base) {
      uint64_t k = rng.chance(0.6) ? hi : d.base + 1 + rng.below(hi - d.base);
      auto st = n.st->Compact(k);
      if (!st.IsOK()) { viol("C26", "compact-refused", fmt("node %lu: storage refused to compact to %lu: %s", n.id, k, st.Str())); return; }
      uint64_t q = k - d.base;
      uint64_t bt = d.term(k), bc = d.chain(k);
      d.ents.erase(d.ents.begin(), d.ents.begin() + q); d.chains.erase(d.chains.begin(), d.chains.begin() + q);
      d.base = k; d.base_term = bt; d.base_chain = bc;
      ctr["compactions"]++;
      log("[%lu] node %lu compact to %lu snap %lu", now, n.id, k, si);
      try { n.log = rebuild(n); } catch (Panic& p) { viol("ANY", "library-fatal", fmt("node %lu: fatal after compaction: %s", n.id, p.what())); }
    }
  }
}

// what a textual rendering must show: numbers (as whole digit runs, with multiplicity) and words
struct Shown {
  std::map<std::string, int> nums; std::vector<std::string> words;
  void num(uint64_t v) { nums[std::to_string(v)]++; }
  void word(const std::string& x) { words.push_back(x); }
  std::string missing(const std::string& s) const {
    for (auto& x : words) if (s.find(x) == std::string::npos) return "'" + x + "'";
    std::map<std::string, int> got;
    for (size_t i = 0; i < s.size();) {
      if (!isdigit((unsigned char)s[i])) { i++; continue; }
      size_t j = i;
      while (j < s.size() && isdigit((unsigned char)s[j])) j++;
      got[s.substr(i, j - i)]++;
      i = j;
    }
    for (auto& x : nums) { auto it = got.find(x.first); if (it == got.end() || it->second < x.second) return x.first; }
    return "";
  }
};

// status queries never change anything and are accurate (C32); uses its own random stream
void Sim::query(Node& n) {
  int what = (int)qrng.below(8);
  ctr["C32.queries"]++;
  NView pre = n.v;
  auto render = [](const NodeStatus& s) {
    std::string r = fmt("%lu %lu %lu %lu %lu %d %lu %lu", s.basic.id, s.basic.hard_state.term(), s.basic.hard_state.vote(), s.basic.hard_state.commit(), s.basic.soft_state.lead, (int)s.basic.soft_state.raft_state, s.basic.applied, s.basic.lead_transferee);
    std::map<uint64_t, std::string> ps;
    for (auto& p : s.progress) ps[p.first] = fmt("%lu/%lu/%d/%lu/%d/%d/%d/%ld", p.second->Match(), p.second->Next(), (int)p.second->State(), p.second->PendingSnapshot(), (int)p.second->RecentActive(), (int)p.second->ProbeSent(), (int)p.second->IsLearner(), (long)p.second->GetInflights()->Count()) + p.second->String();
    for (auto& p : ps) r += fmt(" [%lu:", p.first) + p.second + "]";
    r += s.config.String();
    return r;
  };
  auto basic = [&](const NodeBasicStatus& b) {
    if (b.id != n.id || b.hard_state.term() != pre.term || b.hard_state.vote() != pre.vote || b.hard_state.commit() != pre.commit || b.soft_state.lead != pre.lead ||
        (int)b.soft_state.raft_state != pre.state || b.applied != pre.applied || b.lead_transferee != pre.transferee)
      viol("C32", "status-inaccurate", fmt("node %lu: status does not match its state", n.id));
  };
  auto same = [&](const PrView& q, ProgressPtr p) {
    return q.match == p->Match() && q.next == p->Next() && q.st == (int)p->State() && q.pend == p->PendingSnapshot() && q.active == p->RecentActive() && q.probe == p->ProbeSent() &&
           q.learner == p->IsLearner() && q.infl == p->GetInflights()->Count();
  };
  std::vector<std::function<std::string()>> keep;
  try {
    if (n.status_copy) {
      if (n.status_copy() != n.status_copy_str) viol("C32", "status-not-independent", fmt("node %lu: a status copy changed after it was returned", n.id));
      ctr["C32.copies_compared"]++;
      if (qrng.chance(0.3)) n.status_copy = nullptr;
    }
    switch (what) {
      case 0: n.rn->HasReady(); break;
      case 1: {
        if (n.stage != 0) break;
        auto rd = n.rn->ReadyWithoutAccept();
        auto rd2 = n.rn->ReadyWithoutAccept();
        if (rd->messages.size() != rd2->messages.size() || rd->entries.size() != rd2->entries.size() || rd->committed_entries.size() != rd2->committed_entries.size() || rd->read_states.size() != rd2->read_states.size() ||
            rd->messages.size() != pre.nm || rd->read_states.size() != pre.nrs)
          viol("C32", "preview-unstable", fmt("node %lu: two previews of the same batch differ", n.id));
        std::string s = rd->String();
        Shown w;
        auto ent = [&](const raftpb::Entry& e) { w.num(e.term()); w.num(e.index()); w.word(raftpb::EntryType_Name(e.type())); w.word(e.data()); };
        if (rd->soft_state) {
          static const char* names[] = {"ollower", "andidate", "eader", "andidate"};
          w.num(rd->soft_state->lead); w.word(names[(int)rd->soft_state->raft_state & 3]);
        }
        w.num(rd->hard_state.term()); w.num(rd->hard_state.vote()); w.num(rd->hard_state.commit());
        for (auto& x : rd->read_states) { w.num(x.index); w.word(x.request_ctx); }
        for (auto& e : rd->entries) ent(*e);
        for (auto& e : rd->committed_entries) ent(*e);
        if (!IsEmptySnap(rd->snapshot)) {
          auto& md = rd->snapshot->metadata();
          w.num(md.index()); w.num(md.term());
          for (auto* l : {&md.conf_state().voters(), &md.conf_state().learners(), &md.conf_state().voters_outgoing(), &md.conf_state().learners_next()}) for (auto id : *l) w.num(id);
        }
        for (auto& m : rd->messages) {
          w.word(raftpb::MessageType_Name(m->type()));
          for (uint64_t v : {m->to(), m->from(), m->term(), m->logterm(), m->index(), m->commit(), m->rejecthint()}) w.num(v);
        }
        std::string miss = w.missing(s);
        if (!miss.empty()) viol("C32", "rendering", fmt("node %lu: batch rendering does not show %s: %s", n.id, miss.c_str(), s.substr(0, 1500).c_str()));
        uint64_t ac = rd->committed_entries.empty() ? (IsEmptySnap(rd->snapshot) ? 0 : rd->snapshot->metadata().index()) : rd->committed_entries.back()->index();
        if (rd->AppliedCursor() != ac) viol("C32 C05", "applied-cursor", fmt("node %lu: applied cursor %lu, expected %lu", n.id, rd->AppliedCursor(), ac));
        break;
      }
      case 2: case 3: case 4: {
        auto s = n.rn->GetStatus();
        basic(s.basic);
        if (pre.state == kLeader) {
          bool ok = s.progress.size() == pre.pr.size();
          for (auto& p : s.progress) { auto it = pre.pr.find(p.first); ok = ok && it != pre.pr.end() && same(it->second, p.second); }
          if (!ok) viol("C32", "status-progress", fmt("leader %lu: status progress differs from its state", n.id));
        } else if (!s.progress.empty()) viol("C32", "status-progress", fmt("node %lu: progress reported by a non-leader", n.id));
        Conf c; c.V = s.config.voters.Incoming().IDs(); c.O = s.config.voters.Outgoing().IDs(); c.L = s.config.learners; c.LN = s.config.learners_next; c.al = s.config.auto_leave;
        Shown w;
        for (auto* l : {&c.V, &c.O, &c.L, &c.LN}) for (auto id : *l) w.num(id);
        std::string cs = s.config.String(), miss = w.missing(cs);
        if (!miss.empty()) viol("C32", "rendering-config", fmt("node %lu: the configuration %s is shown as %s", n.id, c.str().c_str(), cs.c_str()));
        for (auto& p : s.progress) {
          Shown q;
          static const char* names[] = {"Probe", "Replicate", "Snapshot"};
          q.num(p.second->Match()); q.num(p.second->Next()); q.word(names[(int)p.second->State() % 3]);
          if (p.second->PendingSnapshot()) q.num(p.second->PendingSnapshot());
          if (p.second->GetInflights()->Count()) q.num((uint64_t)p.second->GetInflights()->Count());
          if (p.second->IsLearner()) q.word("learner");
          if (!p.second->RecentActive()) q.word("inactive");
          std::string ps = p.second->String();
          miss = q.missing(ps);
          if (!miss.empty()) viol("C32", "rendering-progress", fmt("node %lu: progress of %lu is shown as %s, without %s", n.id, p.first, ps.c_str(), miss.c_str()));
        }
        if (c != n.conf) viol("C32", "status-config", fmt("node %lu: status configuration %s, expected %s", n.id, c.str().c_str(), n.conf.str().c_str()));
        if (!n.status_copy) { auto sp = std::make_shared<NodeStatus>(s); n.status_copy = [sp, render] { return render(*sp); }; n.status_copy_str = n.status_copy(); }
        break;
      }
      case 5: basic(n.rn->GetBasicStatus()); break;
      case 6: case 7: {
        std::map<uint64_t, ProgressPtr> got; std::map<uint64_t, ProgressType> ty;
        n.rn->WithProgress([&](uint64_t id, ProgressType t, ProgressPtr p) { got[id] = p; ty[id] = t; });
        auto ms = n.conf.members();
        bool ok = got.size() == ms.size();
        for (auto& g : got) ok = ok && ms.count(g.first) && (ty[g.first] == kLearner) == (n.conf.L.count(g.first) > 0);
        if (pre.state == kLeader) for (auto& g : got) { auto it = pre.pr.find(g.first); ok = ok && it != pre.pr.end() && same(it->second, g.second); }
        if (!ok) viol("C32", "with-progress", fmt("node %lu: visited progress differs from its state", n.id));
        // the copies are the caller's: changing them must not reach the node
        for (auto& g : got) { g.second->SetProbeSent(!g.second->ProbeSent()); g.second->SetMatch(g.second->Match() + 1000); }
        break;
      }
    }
  } catch (Panic& p) { viol("ANY", "library-fatal", fmt("node %lu: fatal during a status query: %s", n.id, p.what())); }
  NView post = view(n);
  if (!(post.term == pre.term && post.vote == pre.vote && post.lead == pre.lead && post.state == pre.state && post.commit == pre.commit && post.applied == pre.applied && post.last == pre.last &&
        post.nm == pre.nm && post.nrs == pre.nrs && post.pr == pre.pr && post.psnap == pre.psnap && post.transferee == pre.transferee))
    viol("C32", "query-changed-state", fmt("node %lu: a status query changed its state", n.id));
}

// messages that must have no effect: local-only kinds, answers of strangers, anything from an earlier term
void Sim::inject_local(Node& n) {
  auto m = std::make_shared<Message>();
  int w = (int)rng.below(3);
  m->set_to(n.id);
  auto fill = [&] {
    auto below = [&](uint64_t x) { return x > 100 && rng.chance(0.9) ? x - 1 - rng.below(100) : rng.below(x); };
    m->set_index(below(n.v.last + 3)); m->set_logterm(below(n.v.term + 1)); m->set_commit(below(n.v.last + 3));
    m->set_reject(rng.chance(0.3)); m->set_rejecthint(below(n.v.last + 2));
  };
  const char* want = nullptr;
  if (w == 0) {
    static const raftpb::MessageType L[] = {raftpb::MsgHup, raftpb::MsgBeat, raftpb::MsgUnreachable, raftpb::MsgSnapStatus, raftpb::MsgCheckQuorum};
    m->set_type(L[rng.below(5)]); m->set_from(rng.chance(0.5) ? n.id : nid(rng.range(1, P.max_ids)));
    if (rng.chance(0.3)) { m->set_term(n.v.term + rng.below(3)); fill(); }
    want = kErrStepLocalMsg;
  } else if (w == 1) {
    static const raftpb::MessageType R[] = {raftpb::MsgAppResp, raftpb::MsgVoteResp, raftpb::MsgHeartbeatResp, raftpb::MsgPreVoteResp};
    m->set_type(R[rng.below(4)]);
    uint64_t id = 0;
    for (int k = 0; k < 20; k++) { uint64_t c = nid(rng.range(1, 40)); if (!n.conf.member(c)) { id = c; break; } }
    if (!id) return;
    m->set_from(id); m->set_term(n.v.term + rng.below(3)); fill();
    want = kErrStepPeerNotFound;
  } else {
    if (n.v.term < 2) return;
    static const raftpb::MessageType S[] = {raftpb::MsgApp, raftpb::MsgAppResp, raftpb::MsgVote, raftpb::MsgVoteResp, raftpb::MsgSnap, raftpb::MsgHeartbeat, raftpb::MsgHeartbeatResp, raftpb::MsgTransferLeader, raftpb::MsgTimeoutNow, raftpb::MsgReadIndexResp, raftpb::MsgPreVote, raftpb::MsgPreVoteResp};
    m->set_type(S[rng.below(12)]);
    auto ms = n.conf.members();
    uint64_t id = nid(rng.range(1, P.max_ids));
    if (!ms.empty() && rng.chance(0.8)) { auto it = ms.begin(); std::advance(it, rng.below(ms.size())); id = *it; }
    m->set_from(id); m->set_term(rng.range(1, n.v.term - 1)); fill();
    if (m->type() == raftpb::MsgVote && rng.chance(0.5)) m->set_context("CampaignTransfer");
    if (m->type() == raftpb::MsgApp) for (int k = 0; k < 2; k++) { auto* e = m->add_entries(); e->set_index(m->index() + 1 + k); e->set_term(m->term()); e->set_data("forged"); }
    if (m->type() == raftpb::MsgSnap) { auto* s = m->mutable_snapshot()->mutable_metadata(); s->set_index(n.v.last + 5); s->set_term(m->term()); *s->mutable_conf_state() = to_cs(n.conf); }
    if (m->type() == raftpb::MsgReadIndexResp) m->add_entries()->set_data("r1");
  }
  auto in = std::make_shared<Message>(*m);
  Status st;
  op(n, Op::Step, m.get(), 0, [&] { st = n.rn->Step(in); return st; });
  ctr["C35.injected"]++;
  if (want && (st.IsOK() || std::string(st.Str()) != want)) viol("C35", "not-refused", fmt("node %lu: %s gave '%s', expected '%s'", n.id, mstr(*m).c_str(), st.Str(), want));
}

// ---------------------------------------------------------------- workloads

void Sim::lockstep_round(bool faults) {
  now++;
  for (auto* n : live()) tick(*n);
  settle(faults, 60);
}

// everything in flight is delivered and processed, without time passing, until nothing is left
bool Sim::settle(bool faults, int passes) {
  for (int pass = 0; pass < passes; pass++) {
    bool any = false;
    // Clients and partitions do not wait until a round is over.
    if (faults && P.lease_scn) {
      if (P.proposals && rng.chance(0.1)) { if (Node* l = leader()) propose(*l, 4); }
      if (rng.chance(0.25)) for (auto* n : live()) if (n->v.state == kLeader) read(*n);
      if (P.partitions && rng.chance(0.04)) {
        Node* l = leader();
        auto as = all();
        heal();
        if (l && rng.chance(0.7)) for (auto* y : as) if (y != l) { cut[l->id].insert(y->id); cut[y->id].insert(l->id); }
      }
    }
    for (auto* n : live()) {
      if (n->stage == 0) { st_get(*n); }
      if (n->stage != 0) { any = true; process(*n, false); }
    }
    flush_snap_reports(true);
    size_t k = net.size();
    if (k) any = true;
    while (k-- > 0 && !net.empty()) {
      Flight f = net.front(); net.pop_front();
      Node* d = node(f.m->to());
      if (!d || !d->up || d->retired || blocked(f.m->from(), f.m->to()) || (faults && rng.chance(P.drop))) { drop_flight(f); continue; }
      deliver_msg(f.m, true);
      if (f.m->type() == raftpb::MsgSnap) lost_snap(*f.m, f.send_inc, true);
    }
    if (!any) return true;
  }
  return false;
}

bool Sim::retire_check() {
  // the application shuts down nodes that were removed, once every member knows of the removal
  uint64_t last = cbase;
  for (uint64_t i = cmax(); i > cbase; i--) if (committed[i - cbase - 1].type != raftpb::EntryNormal) { last = i; break; }
  const Conf& c = conf_at(cmax());
  auto ms = c.members();
  for (auto id : ms) { Node* x = node(id); if (!x || !x->up || x->disk.cur().commit() < last || x->stage != 0) return false; }
  // ... durably
  for (auto id : ms) { auto& d = node(id)->disk; if (d.soft) { d.hs = *d.soft; d.soft.reset(); } }
  for (auto* n : live()) if (ms.count(n->id) || n->v.state == kLeader) for (uint64_t i = std::max(n->log->base, cmax()) + 1; i <= n->log->last(); i++) if (n->log->conf(i)) return false;
  bool any = false;
  for (auto* n : all()) if (!ms.count(n->id)) {
    if (n->up) crash(*n);
    n->retired = true; any = true;
    ctr["retired"]++;
    log("[%lu] retire node %lu", now, n->id);
  }
  return any;
}

// The documented limitation of configurations that take effect when applied: a change that takes away the quorum of
// the previous configuration can strand it when a node that already applied its own removal holds the longest log.
// True only if no running node could win an election, judged by the logs and configurations alone.
bool Sim::removal_deadlock() {
  bool removed_longer = false;
  for (auto* x : live()) {
    if (x->v.state == kLeader) return false;
    if (x->conf.voter(x->id)) {
      if (x->conf.quorum([&](uint64_t id) { Node* y = node(id); return y && y->up && std::make_pair(y->v.last_term, y->v.last) <= std::make_pair(x->v.last_term, x->v.last); })) return false;
      for (auto* y : live()) if (!y->conf.voter(y->id) && x->conf.voter(y->id) && std::make_pair(y->v.last_term, y->v.last) > std::make_pair(x->v.last_term, x->v.last)) removed_longer = true;
    }
  }
  return removed_longer;
}

// the leader, if the whole cluster is in agreement and nothing is left to do
Node* Sim::steady() {
  Node* L = nullptr;
  for (auto* n : live()) if (n->v.state == kLeader) { if (L) return nullptr; L = n; }
  if (!L || L->v.commit != L->v.last || L->v.applied != L->v.last) return nullptr;
  const Conf& c = conf_at(cmax());
  if (c.joint() || !c.member(L->id)) return nullptr;
  for (auto id : c.members()) { Node* x = node(id); if (!x || !x->up || x->v.applied != L->v.applied || x->v.term != L->v.term || x->v.lead != L->id || x->stage) return nullptr; }
  return L;
}

// What a healthy cluster must do: every step starts from a steady state without faults and ends in one.
void Sim::healthy_phase() {
  bool asyncmode = P.async; double dr = P.drop, du = P.dup;
  struct Restore { Sim& s; bool a; double d, u; ~Restore() { s.P.async = a; s.P.drop = d; s.P.dup = u; } } restore{*this, asyncmode, dr, du};
  P.async = false; P.drop = 0; P.dup = 0;
  uint64_t E = P.E;
  auto all_s = [&] { std::string s; for (auto* n : live()) s += fmt(" [%lu st=%d t=%lu c=%lu a=%lu last=%lu lead=%lu]", n->id, n->v.state, n->v.term, n->v.commit, n->v.applied, n->v.last, n->v.lead); return s; };
  auto again = [&](const char* tags, const char* key, const char* what, uint64_t budget) -> Node* {
    Node* l = steady();
    for (uint64_t i = 0; i < budget && !(l && net.empty()); i++) {
      lockstep_round(false); retire_check();
      Node* x = leader();
      if (x && x->conf.joint() && !x->conf.al && i % (2 * E) == 2 * E - 1 && x->stage == 0) { raftpb::ConfChangeV2 v; v.set_context(fmt("lv%lu", next_prop++)); propose_cc(*x, ConfChangeI(v), {}); }
      if (i % (2 * E) == 2 * E - 1) for (auto* n : live()) if (n->stage == 0) make_snapshot(*n);
      l = steady();
    }
    if (!l && !removal_deadlock()) viol(tags, key, fmt("%s: no steady state after %lu ticks;%s", what, budget, all_s().c_str()));
    return l;
  };
  int steps = (int)rng.range(2, 6);
  for (int k = 0; k < steps; k++) {
    Node* L = steady();
    if (!L) return;
    const Conf C = conf_at(cmax());
    uint64_t T = L->v.term;
    auto ms = C.members();
    std::vector<Node*> mem; for (auto id : ms) mem.push_back(node(id));
    auto same = [&](const char* tags, const char* what) {
      Node* l = leader();
      if (l == L && L->v.term == T) { bool ok = true; for (auto* m : mem) if (m->up && (m->v.term != T || m->v.lead != L->id)) ok = false; if (ok) return true; }
      viol(tags, "healthy-leader-disturbed", fmt("%s: leader %lu of term %lu did not stay;%s", what, L->id, T, all_s().c_str()));
      return false;
    };
    int kind = (int)rng.below(9);
    if (P.prop == "C22" && rng.chance(0.6)) kind = 2;
    if (P.prop == "C21" && rng.chance(0.6)) kind = 3;
    if ((P.prop == "C20" || P.prop == "C23") && rng.chance(0.5)) kind = 0;
    if (P.prop == "C18" && rng.chance(0.5)) kind = 1;
    if ((P.prop == "C11" || P.prop == "C12") && rng.chance(0.5)) kind = 5;
    log("[%lu] ---- healthy step %d", now, kind);
    if (kind == 0) {                                   // undisturbed: nothing changes
      uint64_t r = rng.range(E, 4 * E);
      for (uint64_t i = 0; i < r; i++) {
        if (rng.chance(0.1)) propose(*mem[rng.below(mem.size())], 5);
        lockstep_round(false);
        if (!same("C20 C23 C21 C24", "undisturbed cluster")) return;
      }
      ctr["C20.healthy_ticks"] += r; ctr["C23.healthy_ticks"] += r;
    } else if (kind == 1) {                            // a burst beyond the window is replicated by the acknowledgements alone
      uint64_t cnt = std::min<uint64_t>(2 * std::min<uint64_t>(P.inflight, 1000) + rng.below(8), 60);
      for (uint64_t i = 0; i < cnt; i++) propose(*L, (int)rng.below(P.maxpay + 1));
      bool quiet = settle(false, 600);
      ctr["C18.bursts"]++; ctr["C18.burst_entries"] += cnt;
      if (!quiet) viol("C18 C24", "endless-traffic", fmt("the cluster does not come to rest without time passing;%s", all_s().c_str()));
      if (L->v.state == kLeader && L->v.term == T && L->v.commit != L->v.last) viol("C18 C24 C06", "burst-not-committed", fmt("leader %lu: acknowledgements alone did not commit a burst of %lu entries;%s", L->id, cnt, all_s().c_str()));
      for (auto* m : mem) if (m->v.last != L->v.last || m->v.commit != L->v.commit) viol("C18 C24 C25", "burst-not-replicated", fmt("member %lu did not receive a burst of %lu entries;%s", m->id, cnt, all_s().c_str()));
      if (!same("C20 C24", "burst of proposals")) return;
    } else if (kind == 2 && !P.lease_scn && P.transfers) {   // a transfer ends where it was directed, without time passing
      uint64_t to = rng.chance(0.75) ? mem[rng.below(mem.size())]->id : nid(rng.range(1, P.max_ids + 1));
      Node* via = rng.chance(0.6) ? L : mem[rng.below(mem.size())];
      if (rng.chance(0.4)) { int c = (int)rng.range(1, 3); while (c--) propose(*L, 5); }
      if (rng.chance(0.3)) lockstep_round(false);
      transfer(*via, to);
      bool ok = C.voter(to) && to != L->id;
      settle(false, 300);
      ctr["C22.healthy_transfers"]++;
      if (ok) {
        Node* t = node(to);
        if (t->v.state == kLeader && L->v.state == kLeader) for (int i = 0; i <= P.H; i++) lockstep_round(false);  // a single voter announces itself by its next heartbeat
        if (t->v.state != kLeader || L->v.state == kLeader) viol("C22 C24", "transfer-missed", fmt("transfer from %lu to voter %lu in a healthy cluster did not make it the leader;%s", L->id, to, all_s().c_str()));
        ctr["C22.healthy_transferred"]++;
      } else if (!same("C22", "transfer to a node that cannot lead")) return;
      Node* l = leader();
      if (l) {
        uint64_t before = l->v.last;
        for (int i = 0; i < 3 && l->v.last == before; i++) { propose(*l, 3); if (l->v.last == before) lockstep_round(false); }
        if (l->v.last == before && l->v.state == kLeader) viol("C22 C24 C19", "refused-after-transfer", fmt("leader %lu refuses proposals after a finished transfer", l->id));
        settle(false, 300);
      }
    } else if (kind == 3 || kind == 4) {               // a member is cut off for a while and returns
      Node* x = mem[rng.below(mem.size())];
      auto nv = [&](const IdSet& half) { return half.size() - (half.count(x->id) ? 1 : 0) > half.size() / 2 || half.empty(); };
      bool rest_ok = nv(C.V) && nv(C.O);
      uint64_t r = rng.range(1, 5 * E);
      if (kind == 3) for (auto* y : all()) if (y != x) { cut[x->id].insert(y->id); cut[y->id].insert(x->id); }
      if (kind == 4) {
        if (!P.crashes || P.lease_scn) continue;
        crash(*x);
        if (rng.chance(0.5)) r = 0;
      }
      // nobody can follow these requests, and they must not keep a leader in office
      double asks = kind == 3 && P.transfers && rng.chance(P.prop == "C20" ? 0.6 : 0.2) ? rng.chance(0.5) ? 0.1 : 0.7 : 0;
      for (uint64_t i = 0; i < r; i++) {
        Node* l = leader();
        if (asks > 0 && x->v.state == kLeader && rng.chance(asks)) { transfer(*x, mem[rng.below(mem.size())]->id); ctr["C20.asked_while_cut_off"]++; }
        if (l && l != x && rng.chance(0.2)) propose(*l, 5);
        if (l && l != x && l->stage == 0 && P.snapshots && rng.chance(0.1)) make_snapshot(*l);
        lockstep_round(false);
        if (x != L && rest_ok) {
          if (L->v.state != kLeader || L->v.term != T) { viol("C20 C21 C23 C24", "healthy-leader-disturbed", fmt("leader %lu of term %lu did not stay while member %lu was away;%s", L->id, T, x->id, all_s().c_str())); return; }
        }
      }
      Node* L2 = nullptr; uint64_t T2 = 0;
      for (auto* n : live()) if (n != x && n->v.state == kLeader) { L2 = n; T2 = n->v.term; }
      // with pre-vote and quorum checking its return disturbs nobody, provided that the rest is settled
      bool protect = P.pv && P.cq && rest_ok && L2 && kind == 3;
      if (protect) for (auto* m : mem) if (m != x && (m->v.term != T2 || m->v.lead != L2->id)) protect = false;
      heal();
      if (kind == 4) start_node(*x, false);
      ctr[kind == 3 ? "C21.returns" : "healthy_restarts"]++;
      if (protect) {
        ctr["C21.protected_returns"]++;
        uint64_t w = rng.range(E, 3 * E);
        for (uint64_t i = 0; i < w; i++) {
          lockstep_round(false);
          if (L2->v.state != kLeader || L2->v.term != T2) { viol("C21", "return-disturbed", fmt("the return of isolated node %lu deposed leader %lu of term %lu or raised its term;%s", x->id, L2->id, T2, all_s().c_str())); return; }
        }
      }
      // what it missed shows only with time: a cut-off leader may not have noticed yet
      for (uint64_t i = 0; i < 3 * E; i++) lockstep_round(false);
      if (!again("C24 C17 C18 C09", "not-caught-up", "member away for a while", 30 * E + 60)) return;
    } else if (kind == 5) {                            // reads are answered without time passing
      std::vector<std::string> rs;
      for (auto* m : mem) { rs.push_back(fmt("r%lu", next_read)); read(*m); }
      if (rng.chance(0.5)) { rs.push_back(fmt("r%lu", next_read)); read(*mem[rng.below(mem.size())]); }
      bool late = rng.chance(0.4);
      if (late) {                                      // a request whose first round of heartbeats is lost goes with the next one
        settle(false, 300);
        for (auto* y : all()) if (y != L) { cut[L->id].insert(y->id); cut[y->id].insert(L->id); }
        for (int i = (int)rng.range(1, 3); i > 0; i--) { rs.push_back(fmt("r%lu", next_read)); read(*L); }
        settle(false, 300);
        heal();
        for (int i = 0; i <= P.H; i++) lockstep_round(false);
        if (L->v.state != kLeader || L->v.term != T) { viol("C20 C24", "healthy-leader-disturbed", fmt("leader %lu of term %lu did not stay;%s", L->id, T, all_s().c_str())); return; }
        ctr["C11.late_reads"]++;
      } else settle(false, 300);
      for (auto& r : rs) if (reads[r].results != 1) viol("C11 C12 C24", "read-unanswered", fmt("read %s at node %lu was answered %d times in a healthy cluster;%s", r.c_str(), reads[r].node, reads[r].results, all_s().c_str()));
      ctr["C11.healthy_reads"] += rs.size();
    } else if (kind == 6 && P.confchange) {            // a membership change completes
      propose_conf(*L);
      if (!again("C24 C13", "change-not-completed", "membership change", 40 * E + 100)) return;
      ctr["C13.healthy_changes"]++;
    } else if (kind == 7) {                            // a proposal at any member is committed everywhere without time passing
      Node* m = mem[rng.below(mem.size())];
      if (P.nofwd) m = L;
      std::string d = fmt("p%lu:", next_prop);
      propose(*m, 6);
      settle(false, 300);
      for (auto& p : props) if (p.first.compare(0, d.size(), d) == 0) {
        if (p.second.committed != 1 && !(P.quota && p.second.committed == 0 && p.second.refused)) viol("C24 C10 C19", "proposal-lost", fmt("a proposal at member %lu of a healthy idle cluster was committed %d times;%s", m->id, p.second.committed, all_s().c_str()));
      }
      for (auto* y : mem) if (y->v.applied != L->v.applied) viol("C24 C05 C18", "commit-not-spread", fmt("member %lu did not apply what leader %lu committed;%s", y->id, L->id, all_s().c_str()));
      ctr["C10.healthy_proposals"]++;
    } else if (kind == 8 && !P.lease_scn) {            // the leader crashes for good until another one leads
      if (!P.crashes || C.V.size() < 3) continue;
      crash(*L);
      uint64_t i = 0;
      // the remaining voters see the silence and one of them wins
      for (; i < 40 * E && !leader(); i++) lockstep_round(false);
      if (!leader()) viol("C24 C23", "no-failover", fmt("no new leader %lu ticks after leader %lu of %lu voters crashed;%s", i, L->id, C.V.size(), all_s().c_str()));
      start_node(*L, false);
      ctr["C24.failovers"]++;
      if (!again("C24 C09", "not-caught-up", "restarted former leader", 30 * E + 60)) return;
    }
  }
}

bool Sim::calm_phase() {
  heal();
  bool asyncmode = P.async;
  P.async = false;
  double dr = P.drop; P.drop = 0; double du = P.dup; P.dup = 0;
  log("[%lu] ---- calm", now);
  for (auto* n : all()) { if (n->up) { n->st->snap_unavailable = false; process(*n, false); } else start_node(*n, false); }
  for (auto* n : all()) if (n->up && n->st) n->st->snap_unavailable = false;
  int budget = 60 * P.E + 400;
  int E = P.E;
  ctr["C24.calm_phases"]++;
  int used = 0;
  Node* L = nullptr;
  int last_leave = -1000;
  for (; used < budget; used++) {
    lockstep_round(false);
    retire_check();
    L = steady();
    if (L && net.empty()) break;
    L = nullptr;
    Node* l = leader();
    // the application keeps its snapshots recent, so that members added since can be served
    if (used % (2 * E) == 2 * E - 1) for (auto* n : live()) if (n->stage == 0) make_snapshot(*n);
    if (l && l->conf.joint() && !l->conf.al && used - last_leave >= 2 * E && l->stage == 0) {
      raftpb::ConfChangeV2 v; v.set_context(fmt("lv%lu", next_prop++));
      last_leave = used;
      propose_cc(*l, ConfChangeI(v), {});
      ctr["C24.explicit_leaves"]++;
    }
  }
  if (!L && removal_deadlock()) { ctr["C24.removal_deadlock"]++; P.async = asyncmode; P.drop = dr; P.dup = du; return false; }
  if (!L) {
    std::string s;
    for (auto* n : live()) s += fmt(" [%lu st=%d t=%lu c=%lu a=%lu last=%lu lead=%lu conf=%s%s]", n->id, n->v.state, n->v.term, n->v.commit, n->v.applied, n->v.last, n->v.lead, n->conf.str().c_str(), n->v.psnap ? " psnap" : "");
    viol("C24 C18 C23", "no-recovery", fmt("no steady state %d ticks after faults stopped; latest configuration %s;%s", used, conf_at(cmax()).str().c_str(), s.c_str()));
    return false;
  }
  ctr["C24.recovered"]++;
  ctr["C24.recovery_ticks_total"] += used;
  ctr["C24.recovery_ticks_max"] = std::max<uint64_t>(ctr["C24.recovery_ticks_max"], used);
  // a new proposal and a new read must complete
  auto ms = conf_at(cmax()).members();
  std::vector<uint64_t> mv(ms.begin(), ms.end());
  bool pdone = false, rdone = false;
  std::vector<std::string> mine;
  std::vector<std::string> rds;
  int b2 = 20 * E + 100;
  for (used = 0; used < b2 && !(pdone && rdone); used++) {
    if (used % (3 * E) == 0) {
      Node* at = P.nofwd ? leader() : node(mv[rng.below(mv.size())]);
      if (!at) at = L;
      if (!pdone) { std::string d = fmt("p%lu:", next_prop); propose(*at, 8); for (auto& p : props) if (p.first.compare(0, d.size(), d) == 0) mine.push_back(p.first); }
      Node* ra = node(mv[rng.below(mv.size())]);
      if (!rdone && ra) { rds.push_back(fmt("r%lu", next_read)); read(*ra); }
    }
    lockstep_round(false);
    for (auto& d : mine) if (props[d].committed) pdone = true;
    for (auto& r : rds) if (reads[r].results) rdone = true;
  }
  if (!pdone) viol("C24 C10 C19 C22", "no-progress-proposal", fmt("a proposal did not commit within %d ticks in a healthy cluster", used));
  if (!rdone) viol("C24 C11", "no-progress-read", fmt("a read was not answered within %d ticks in a healthy cluster", used));
  // Members that missed something catch up; an election may still come in between.
  auto differ = [&] {
    for (auto id : conf_at(cmax()).members()) {
      Node* x = node(id);
      if (x->app_applied != cmax() || x->app_chain != cchain(cmax()) || x->app_conf != conf_at(cmax())) return true;
    }
    return false;
  };
  for (int i = 0; i < 2 * E || (i < budget && differ()); i++) lockstep_round(false);
  for (auto id : conf_at(cmax()).members()) {
    Node* x = node(id);
    if (x->app_applied != cmax() || x->app_chain != cchain(cmax()) || x->app_conf != conf_at(cmax()))
      viol("C24 C04 C17", "members-differ", fmt("member %lu applied %lu of %lu after recovery", id, x->app_applied, cmax()));
  }
  ctr["C24.completed"]++;
  P.async = asyncmode; P.drop = dr; P.dup = du;
  return true;
}

// A leader is cut off with a few others while the rest goes on under a new leader; replies from before
// the split reach it late and in any order, mixed with new reads.
void Sim::split_phase() {
  Node* l0 = leader();
  if (!l0) return;
  const uint64_t lid = l0->id;
  auto voters = conf_at(cmax()).V;
  if (conf_at(cmax()).joint() || !voters.count(lid) || voters.size() < 3) return;
  log("[%lu] ---- split", now);
  heal();
  std::deque<Flight> held;
  IdSet G{lid};
  auto run = [&](double hold) {
    for (int pass = 0; pass < 40; pass++) {
      bool any = false;
      for (auto* n : live()) { if (n->stage == 0) st_get(*n); if (n->stage != 0) { any = true; process(*n, false); } }
      flush_snap_reports(true);
      size_t k = net.size();
      if (k) any = true;
      while (k-- > 0 && !net.empty()) {
        Flight f = net.front(); net.pop_front();
        Node* d = node(f.m->to());
        bool snap = f.m->type() == raftpb::MsgSnap;
        if (!d || !d->up || d->retired) { drop_flight(f); continue; }
        if (blocked(f.m->from(), f.m->to())) { if (!snap && rng.chance(0.5)) held.push_back(f); else drop_flight(f); continue; }
        if (!snap && (f.m->to() == lid || f.m->from() == lid) && rng.chance(hold)) { held.push_back(f); continue; }
        deliver_msg(f.m, true);
        if (snap) lost_snap(*f.m, f.send_inc, true);
      }
      if (!any) return;
    }
  };
  auto reads_at_leader = [&](int k) {
    while (k--) { now++; Node* n = node(lid); if (!n->up) return; if (n->v.state == kLeader || rng.chance(0.2)) read(*n); if (rng.chance(0.6)) run(rng.chance(0.5) ? 0.6 : 0.1); }
  };
  double h = rng.chance(0.5) ? 0.7 : 0.4;
  reads_at_leader((int)rng.range(1, 3));
  run(h);
  std::vector<uint64_t> others;
  for (auto id : voters) if (id != lid) others.push_back(id);
  size_t minority = (voters.size() - 1) / 2;
  while (G.size() < minority + (voters.size() % 2 ? 0 : 0) && !others.empty()) { size_t i = rng.below(others.size()); G.insert(others[i]); others.erase(others.begin() + i); }
  auto as = all();
  for (auto* x : as) for (auto* y : as) if (G.count(x->id) != G.count(y->id)) cut[x->id].insert(y->id);
  reads_at_leader((int)rng.below(3));
  Node* nl = nullptr;
  for (int t = 0; t < 8 * P.E && !nl; t++) {
    now++;
    for (auto* n : live()) if (!G.count(n->id)) tick(*n);
    run(0.3);
    for (auto* n : live()) if (!G.count(n->id) && n->v.state == kLeader && n->v.term >= node(lid)->v.term) nl = n;
  }
  if (!nl) { heal(); for (auto& f : held) drop_flight(f); return; }
  ctr["C11.splits"]++;
  for (int k = 0; k < 2; k++) { if (nl->up) propose(*nl, 4); run(0.3); }
  reads_at_leader((int)rng.range(1, 4));
  // late replies, in any order; what went out before is not lost, only slow
  while (!held.empty()) {
    size_t i = rng.below(held.size());
    Flight f = held[i];
    held.erase(held.begin() + i);
    Node* d = node(f.m->to());
    now++;
    if (d && d->up && !d->retired) deliver_msg(f.m, true); else drop_flight(f);
    if (rng.chance(0.3)) { for (auto* n : live()) if (n->stage == 0) st_get(*n); for (auto* n : live()) if (n->stage != 0) process(*n, false); }
    if (rng.chance(0.1)) reads_at_leader(1);
  }
  run(0);
  heal();
  settle(false, 100);
}

void Sim::chaos(int steps) {
  log("[%lu] ---- chaos", now);
  int wproc = P.async ? 70 : 40;
  int wcamp = P.campaigns ? 1 : 0, wtr = P.transfers ? 2 : 0, winj = P.inject ? 3 : 0, wrep = P.replay ? 4 : 0, wbatch = P.proposals ? 2 : 0;
  int wt[] = {P.w_tick, P.w_deliver, wproc, P.proposals ? P.w_prop : 0, wbatch, P.reads ? P.w_read : 0, P.confchange ? P.w_conf : 0, P.w_fault, P.snapshots ? P.w_snap : 0, wcamp, wtr, winj, wrep, 3, 2};
  int total = 0; for (int w : wt) total += w;
  double skew = rng.chance(0.3) ? 0.8 : 0.0;
  uint64_t fast = 0;
  for (int s = 0; s < steps; s++) {
    now++;
    auto lv = live();
    if (P.queries && !lv.empty() && qrng.chance(0.5)) query(*lv[qrng.below(lv.size())]);
    int k = (int)rng.below(total), w = 0;
    while (k >= wt[w]) k -= wt[w++];
    Node* n = lv.empty() ? nullptr : lv[rng.below(lv.size())];
    Node* l = leader();
    auto biased = [&]() { return l && rng.chance(0.7) ? l : n; };
    switch (w) {
      case 0:  // ticks, sometimes with one clock much faster than the others
        if (!n) break;
        if (skew > 0) { if (rng.chance(0.01) || !node(fast) || !node(fast)->up) fast = n->id; if (rng.chance(skew * 0.6)) n = node(fast); }
        if (rng.chance(0.08)) { for (auto* x : live()) if (x->up) tick(*x); }
        else { int c = rng.chance(0.1) ? (int)rng.range(2, P.E + 2) : 1; while (c--) tick(*n); }
        break;
      case 1: {
        int c = (int)rng.range(1, 4);
        while (c-- && !net.empty()) deliver(P.fifo || rng.chance(0.5) ? 0 : rng.below(net.size()));
        break;
      }
      case 2: if (n) { if (P.async) do_stage(*n, true); else process(*n, true); } break;
      case 3: if (n) { int c = rng.chance(0.2) ? (int)rng.range(2, 8) : 1; n = biased(); while (c--) propose(*n, (int)rng.below(P.maxpay + 1)); } break;
      case 4: if (n) propose_batch(*biased()); break;
      case 5: if (n) read(*(rng.chance(0.5) ? n : biased())); break;
      case 6: if (n) propose_conf(*biased()); break;
      case 7: {
        int f = (int)rng.below(100);
        if (f < 30 && P.crashes) { if (n) crash(*biased()); }
        else if (f < 60) { for (auto* x : all()) if (!x->up && rng.chance(0.7)) { start_node(*x, false); } }
        else if (f < 80 && P.partitions) {
          heal();
          int kind = (int)rng.below(4);
          auto as = all();
          if (as.size() < 2) break;
          if (kind == 0) { Node* x = rng.chance(0.5) && l ? l : as[rng.below(as.size())]; for (auto* y : as) if (y != x) { cut[x->id].insert(y->id); cut[y->id].insert(x->id); } }
          else if (kind == 1) { IdSet g; for (auto* y : as) if (rng.chance(0.5)) g.insert(y->id); for (auto* x : as) for (auto* y : as) if (g.count(x->id) != g.count(y->id)) cut[x->id].insert(y->id); }
          else if (kind == 2) { for (auto* x : as) for (auto* y : as) if (x != y && rng.chance(0.25)) cut[x->id].insert(y->id); }
          else { Node* x = as[rng.below(as.size())]; for (auto* y : as) if (y != x) { if (rng.chance(0.5)) cut[x->id].insert(y->id); else cut[y->id].insert(x->id); } }
          ctr["partitions"]++;
        } else if (f < 92) heal();
        else if (n && n->st) n->st->snap_unavailable = !n->st->snap_unavailable;
        break;
      }
      case 8: if (n && !(P.async && n->stage == 1)) make_snapshot(*n); break;
      case 9: if (n) campaign(*n); break;
      case 10: if (n) transfer(*biased(), nid(rng.range(1, P.max_ids))); break;
      case 11: if (n) inject_local(*n); break;
      case 12: if (!old_msgs.empty()) { auto m = old_msgs[rng.below(old_msgs.size())]; Node* d = node(m->to()); if (d && d->up && !(m->type() == raftpb::MsgSnap && !may_take_snapshot(*d))) deliver_msg(m, false); } break;
      case 13: flush_snap_reports(false); break;
      case 14: if (n) report_unreachable(*biased(), nid(rng.range(1, P.max_ids))); break;
    }
    if (P.async && P.snapshots && n && n->up && n->stage != 0 && n->rd && rng.chance(IsEmptySnap(n->rd->snapshot) ? 0.01 : 0.6)) offer_snapshot(*n);
    if (!P.async && rng.chance(0.35) && n && n->up) process(*n, true);
    if (!net.empty() && rng.chance(0.002)) { for (auto& f : net) drop_flight(f); net.clear(); }
  }
}

// lockstep clocks, whole rounds, coarse faults: what the timing properties are stated for
void Sim::directed_phase() {
  log("[%lu] ---- lockstep", now);
  int E = P.E;
  int until_change = 0;
  uint64_t last_leader = 0; int healthy = 0;
  for (int r = 0; r < P.rounds; r++) {
    if (until_change-- <= 0) {
      heal();
      until_change = (int)rng.range(E / 2 + 1, 5 * E);
      int kind = (int)rng.below(10);
      Node* l = leader();
      auto as = all();
      if (!P.partitions) kind = 9;
      if (kind < 3 && l) { for (auto* y : as) if (y != l) { cut[l->id].insert(y->id); cut[y->id].insert(l->id); } }
      else if (kind < 5) { Node* x = as[rng.below(as.size())]; for (auto* y : as) if (y != x) { cut[x->id].insert(y->id); cut[y->id].insert(x->id); } }
      else if (kind < 6) { IdSet g; for (auto* y : as) if (rng.chance(0.5)) g.insert(y->id); for (auto* x : as) for (auto* y : as) if (g.count(x->id) != g.count(y->id)) cut[x->id].insert(y->id); }
      else if (kind < 7) { for (auto* x : as) for (auto* y : as) if (x != y && rng.chance(0.3)) cut[x->id].insert(y->id); }
      healthy = 0;
    }
    if (P.crashes && !P.lease_scn && rng.chance(0.02)) { auto lv = live(); if (!lv.empty()) crash(*lv[rng.below(lv.size())]); healthy = 0; }
    if (rng.chance(0.1)) for (auto* x : all()) if (!x->up) { start_node(*x, false); healthy = 0; }
    // client work spread over the round
    int ops = (int)rng.below(4);
    while (ops--) {
      auto lv = live(); if (lv.empty()) break;
      Node* n = lv[rng.below(lv.size())];
      Node* l = leader();
      int w = (int)rng.below(20);
      if (w < 6 && P.proposals) propose(*(l && rng.chance(0.6) ? l : n), (int)rng.below(P.maxpay + 1));
      else if (w < 13 && P.reads) { Node* x = n; if (rng.chance(0.6)) { std::vector<Node*> ls; for (auto* y : lv) if (y->v.state == kLeader) ls.push_back(y); if (!ls.empty()) x = ls[rng.below(ls.size())]; } read(*x); }
      else if (w == 13 && P.confchange && rng.chance(0.4)) { if (l) propose_conf(*l); }
      else if (w == 14 && P.snapshots && n->stage == 0) make_snapshot(*n);
      else if (w == 15 && P.transfers && l && (cut.empty() || P.prop == "C20") && rng.chance(0.5)) transfer(*(rng.chance(0.7) ? l : n), nid(rng.range(1, P.max_ids)));
      else if (w == 16 && P.confchange && l && l->conf.joint()) { raftpb::ConfChangeV2 v; v.set_context(fmt("lv%lu", next_prop++)); propose_cc(*l, ConfChangeI(v), {}); }
    }
    // C21/C20: in a healthy stretch nothing disturbs the leader
    std::map<uint64_t, uint64_t> terms;
    for (auto* n : live()) terms[n->id] = n->v.term;
    lockstep_round(true);
    Node* l = leader();
    if (P.prop == "C22" || P.prop == "ALL") { }
    (void)last_leader; (void)healthy; (void)l;
  }
}

void Sim::run() {
  try {
    setup();
    if (P.rounds) directed_phase();
    if (!P.lockstep_only) chaos(P.steps);
    if (P.calm) {
      bool ok = calm_phase();
      if (ok && P.healthy) healthy_phase();
      if (ok && P.splits) {
        bool am = P.async; double dr = P.drop, du = P.dup;
        P.async = false; P.drop = P.dup = 0;
        for (int i = 0; i < P.splits; i++) split_phase();
        P.async = am; P.drop = dr; P.dup = du;
        ok = calm_phase();
      }
      if (ok && P.second) { chaos(P.second); calm_phase(); }
    }
  } catch (Stop&) {
  } catch (Panic& p) {
    viols.push_back({"ANY", "library-fatal", fmt("library fatal error outside an operation: %s", p.what())});
  }
}

std::string params_str(const Params& p) {
  auto u = [](uint64_t x) { return x == UINT64_MAX ? std::string("max") : std::to_string(x); };
  std::string s = fmt("n=%d learners=%d election=%d heartbeat=%d", p.n, p.nlearn, p.E, p.H);
  if (p.cq) s += " check-quorum"; if (p.pv) s += " pre-vote"; if (p.lease) s += " lease-reads"; if (p.nofwd) s += " no-forwarding";
  s += " max-msg=" + u(p.max_size) + " max-delivery=" + u(p.max_commit) + " quota=" + u(p.quota) + " inflight=" + std::to_string(p.inflight);
  if (p.id_off) s += fmt(" ids-from-%lu", p.id_off + 1); if (p.base_term > 1) s += fmt(" term-from-%lu", p.base_term); if (p.async) s += " async-batches"; if (p.app_durable) s += " durable-app"; if (p.bootstrap) s += " bootstrap"; if (p.joint_start) s += " joint-start";
  if (p.confchange) s += " membership-changes"; if (p.crashes) s += fmt(" crashes(stage p=%.2f)", p.crash_stage); if (p.partitions) s += " partitions"; if (p.snapshots) s += " snapshots";
  s += fmt(" drop=%.2f dup=%.2f", p.drop, p.dup); if (p.fifo) s += " fifo";
  s += fmt(" random-steps=%d lockstep-rounds=%d", p.lockstep_only ? 0 : p.steps, p.rounds); if (p.queries) s += " queries";
  return s;
}

Params make_params(const std::string& prop, Rng& r, uint64_t idx) {
  Params p;
  p.prop = prop;
  static const int NS[] = {3, 3, 3, 5, 2, 1, 4, 3};
  p.n = NS[r.below(8)];
  p.nlearn = r.chance(0.25) ? (int)r.range(1, 2) : 0;
  static const int ES[] = {10, 5, 3, 10, 20, 8};
  p.E = ES[r.below(6)];
  p.H = p.E > 4 && r.chance(0.4) ? (int)r.range(1, p.E / 2) : 1;
  p.cq = r.chance(0.5); p.pv = r.chance(0.4);
  p.nofwd = r.chance(0.15);
  static const uint64_t MS[] = {UINT64_MAX, UINT64_MAX, 0, 40, 120, 1000};
  p.max_size = MS[r.below(6)];
  static const uint64_t MC[] = {0, 0, 30, 100, UINT64_MAX, 1};
  p.max_commit = MC[r.below(6)];
  static const uint64_t QS[] = {0, 0, 0, 20, 60, 300};
  p.quota = QS[r.below(6)];
  static const int IF[] = {256, 1, 2, 3, 8};
  p.inflight = IF[r.below(5)];
  if (p.inflight == 256 && r.chance(0.4)) p.inflight = r.chance(0.5) ? INT64_MAX : 1LL << r.range(31, 62);
  p.async = r.chance(0.4);
  p.app_durable = r.chance(0.4);
  p.bootstrap = r.chance(0.3);
  p.base_index = r.chance(0.5) ? 1 : r.range(1, 20);
  p.joint_start = !p.bootstrap && r.chance(0.2);
  p.sync_all = r.chance(0.3);
  p.confchange = r.chance(0.65);
  p.w_conf = (int)r.range(1, 5);
  p.snapshots = r.chance(0.8); p.w_snap = (int)r.range(1, 6);
  p.crash_stage = r.chance(0.5) ? 0.01 : (r.chance(0.5) ? 0.05 : 0);
  p.w_fault = (int)r.range(1, 6);
  p.drop = r.chance(0.3) ? 0 : (r.chance(0.5) ? 0.02 : 0.15);
  p.dup = r.chance(0.4) ? 0 : 0.05;
  p.fifo = r.chance(0.2);
  p.maxpay = r.chance(0.7) ? 20 : 80;
  p.w_tick = (int)r.range(10, 50); p.w_deliver = (int)r.range(30, 100); p.w_prop = (int)r.range(2, 14);
  p.steps = (int)r.range(300, 1500);
  p.max_ids = p.n + p.nlearn + (int)r.range(0, 3);
  p.rounds = r.chance(0.3) ? (int)r.range(5, 25) * p.E : 0;
  if (p.rounds && r.chance(0.5)) p.lockstep_only = true;
  p.queries = r.chance(0.1);
  p.healthy = r.chance(0.5);
  if (r.chance(0.15)) p.second = (int)r.range(200, 600);
  if (p.bootstrap) p.nlearn = 0, p.max_ids = std::max(p.max_ids, p.n);
  if (r.chance(0.05)) p.lease = true, p.cq = true;
  auto is = [&](const char* x) { return prop == x; };
  if (is("C12")) {
    p.lease = true; p.cq = true; p.lease_scn = true; p.lockstep_only = true; p.rounds = (int)r.range(10, 30) * p.E; p.transfers = false; p.crashes = false; p.campaigns = false;
    p.drop = 0; p.dup = 0; p.async = false; p.confchange = r.chance(0.2); p.calm = true; p.nofwd = false; if (p.n < 3) p.n = 3; p.max_ids = std::max(p.max_ids, p.n + p.nlearn);
  } else if (is("C20") || is("C23") || is("C22") || is("C21")) {
    if (r.chance(0.7)) { p.rounds = (int)r.range(10, 30) * p.E; p.lockstep_only = r.chance(0.7); }
    if (is("C20")) p.cq = true;
    if (is("C21")) { p.cq = r.chance(0.8); p.pv = r.chance(0.8); }
    if (is("C20") && r.chance(0.5)) { p.pv = true; }
  } else if (is("C13") || is("C14") || is("C33")) {
    p.confchange = true; p.w_conf = (int)r.range(3, 10);
  } else if (is("C17")) {
    p.snapshots = true; p.w_snap = (int)r.range(4, 12);
  } else if (is("C18")) {
    static const int I2[] = {1, 2, 3, 4, 8};
    p.inflight = I2[r.below(5)]; p.w_prop = (int)r.range(8, 24);
    static const uint64_t M2[] = {0, 40, 120, UINT64_MAX};
    p.max_size = M2[r.below(4)];
  } else if (is("C19")) {
    static const uint64_t Q2[] = {1, 10, 30, 60, 150, 400};
    p.quota = Q2[r.below(6)]; p.w_prop = (int)r.range(8, 20);
  } else if (is("C09")) {
    p.crash_stage = r.chance(0.7) ? 0.05 : 0.01; p.w_fault = (int)r.range(3, 8); p.torn = false;
  } else if (is("C11")) {
    p.lease = false; p.w_read = (int)r.range(6, 16); p.splits = r.chance(0.5) ? 2 : 0;
    if (p.splits && r.chance(0.7)) p.n = 5;
    p.max_ids = std::max(p.max_ids, p.n + p.nlearn);
  } else if (is("C34")) {
    p.bootstrap = true; p.nlearn = 0; p.joint_start = false;
  } else if (is("C32")) {
    p.queries = true;
  } else if (is("C02") || is("C04") || is("C01") || is("C06") || is("C03")) {
    p.w_fault = (int)r.range(2, 8);
  }
  // large node ids, indexes and terms: nothing may be narrowed on the way
  static const uint64_t OFF[] = {0, 0, 0, 0, 0, 1ULL << 31, 1ULL << 32, (1ULL << 63) - 64, UINT64_MAX - 127};
  p.id_off = OFF[r.below(9)];
  if (!p.bootstrap && r.chance(0.25)) {
    static const uint64_t B[] = {1ULL << 31, 1ULL << 32, 1ULL << 40, 1ULL << 62};
    p.base_index = B[r.below(4)] - r.below(40);
  }
  if (!p.bootstrap && r.chance(0.25)) {
    static const uint64_t B[] = {1ULL << 31, 1ULL << 32, 1ULL << 40, 1ULL << 62};
    p.base_term = B[r.below(4)] - r.below(6);
  }
  if (p.lease) p.cq = true;
  if (p.lockstep_only) p.steps = 0, p.second = 0;
  if (is("C20") || is("C21") || is("C22") || is("C24") || is("C23") || is("C18")) p.healthy = true;
  return p;
}

}  // namespace vv
