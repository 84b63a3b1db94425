// C31 (settings are validated and take their documented effect), with the node's peer played by the harness.
#include <deque>
#include "mod.h"
#include "src/rawnode.h"
using namespace craft;

namespace vv {
namespace {
using Msg = raftpb::Message;
using MsgP = std::shared_ptr<Msg>;

void validation(Ctx& c) {
  auto& r = c.rng;
  auto tick = [&]() -> int64_t {
    switch (r.below(8)) { case 0: return 0; case 1: return -1; case 2: return 1; case 3: return INT64_MIN; case 4: return -(int64_t)r.below(1000); case 5: return 1LL << r.range(20, 40); default: return r.range(1, 12); }
  };
  Raft::Config g;
  g.id = r.chance(0.1) ? 0 : r.chance(0.3) ? UINT64_MAX - r.below(2) : 1 + r.below(5);
  g.heartbeat_tick = r.chance(0.5) ? r.range(1, 5) : tick();
  g.election_tick = r.chance(0.3) ? g.heartbeat_tick : r.chance(0.4) && g.heartbeat_tick > 0 ? g.heartbeat_tick + r.range(-1, 1) : r.chance(0.7) ? r.range(2, 12) : tick();
  std::shared_ptr<MemoryStorage> st;
  if (!r.chance(0.1)) {
    st = std::make_shared<MemoryStorage>(c.logger);
    auto sn = std::make_shared<raftpb::Snapshot>();
    sn->mutable_metadata()->set_index(1); sn->mutable_metadata()->set_term(1);
    sn->mutable_metadata()->mutable_conf_state()->add_voters(g.id ? g.id : 1);
    st->ApplySnapshot(sn);
  }
  g.storage = st;
  g.max_inflight_msgs = r.chance(0.7) ? r.range(1, 8) : tick();
  g.check_quorum = r.chance(0.5); g.pre_vote = r.chance(0.5);
  g.read_only_option = r.chance(0.5) ? ReadOnly::ReadOnlyOption::kLeaseBased : ReadOnly::ReadOnlyOption::kSafe;
  g.max_size_per_msg = r.chance(0.3) ? 0 : r.chance(0.3) ? UINT64_MAX : r.below(1000);
  g.max_committed_size_per_ready = r.chance(0.5) ? 0 : r.below(1000);
  g.max_uncommitted_entries_size = r.chance(0.5) ? 0 : r.below(1000);
  g.logger = c.logger;
  const char* why = g.id == 0 ? "id 0" : g.heartbeat_tick <= 0 ? "heartbeat not positive" : g.election_tick <= g.heartbeat_tick ? "election not above heartbeat" : !g.storage ? "no storage" :
                    g.max_inflight_msgs <= 0 ? "window not positive" : g.read_only_option == ReadOnly::ReadOnlyOption::kLeaseBased && !g.check_quorum ? "lease reads without quorum checking" : nullptr;
  std::string d = fmt("id=%lu heartbeat=%ld election=%ld storage=%d inflight=%ld lease=%d check-quorum=%d", g.id, (long)g.heartbeat_tick, (long)g.election_tick, g.storage != nullptr, (long)g.max_inflight_msgs,
                      g.read_only_option == ReadOnly::ReadOnlyOption::kLeaseBased, g.check_quorum);
  c.nops++;
  auto v = g;
  bool ok = v.Validate().IsOK();
  c.log("%s -> %d (%s)", d.c_str(), ok, why ? why : "valid");
  c.ctr[why ? "C31.refused" : "C31.valid"]++;
  if (ok && why) c.viol("C31", "invalid-settings-accepted", fmt("%s (%s) passed validation", d.c_str(), why));
  if (!ok && !why) c.viol("C31", "valid-settings-refused", d + " did not pass validation");
  auto w = g;
  bool fatal = c.panics([&] { auto n = RawNode::New(w); });
  if (!fatal && why) c.viol("C31", "node-with-invalid-settings", fmt("a node was created with %s (%s)", d.c_str(), why));
  if (fatal && !why) c.viol("C31", "no-node-with-valid-settings", "no node could be created with " + d);
  c.seen(hstr(why ? why : "valid"));
}

void effects(Ctx& c) {
  auto& r = c.rng;
  const uint64_t me = r.chance(0.2) ? UINT64_MAX - r.below(3) : r.range(1, 5), peer = me == 3 ? 4 : 3;
  Raft::Config g;
  g.id = me; g.election_tick = r.range(2, 12); g.heartbeat_tick = r.range(1, g.election_tick - 1);
  g.max_inflight_msgs = r.chance(0.2) ? (r.chance(0.4) ? INT64_MAX : (1LL << r.range(16, 62)) + (int64_t)r.range(-1, 1)) : r.range(1, 6);
  g.check_quorum = r.chance(0.5); g.pre_vote = r.chance(0.5); g.disable_proposal_forwarding = r.chance(0.5);
  const bool lease = g.check_quorum && r.chance(0.5);
  g.read_only_option = lease ? ReadOnly::ReadOnlyOption::kLeaseBased : ReadOnly::ReadOnlyOption::kSafe;
  g.max_size_per_msg = r.chance(0.3) ? 0 : r.chance(0.3) ? UINT64_MAX : 5 + r.below(120);
  g.max_committed_size_per_ready = r.chance(0.4) ? 0 : r.chance(0.3) ? UINT64_MAX : 1 + r.below(120);
  g.max_uncommitted_entries_size = r.chance(0.4) ? 0 : 1 + r.below(120);
  g.logger = c.logger;
  const uint64_t E = g.election_tick, H = g.heartbeat_tick, quota = g.max_uncommitted_entries_size, msize = g.max_size_per_msg;
  const uint64_t csize = g.max_committed_size_per_ready ? g.max_committed_size_per_ready : msize;
  const size_t window = g.max_inflight_msgs;
  auto st = std::make_shared<MemoryStorage>(c.logger);
  auto sn = std::make_shared<raftpb::Snapshot>();
  sn->mutable_metadata()->set_index(1); sn->mutable_metadata()->set_term(1);
  sn->mutable_metadata()->mutable_conf_state()->add_voters(me); sn->mutable_metadata()->mutable_conf_state()->add_voters(peer);
  st->ApplySnapshot(sn);
  g.storage = st;
  std::string d = fmt("E=%lu H=%lu window=%zu check-quorum=%d pre-vote=%d no-forwarding=%d lease=%d message=%lu batch=%lu quota=%lu", E, H, window, g.check_quorum, g.pre_vote, g.disable_proposal_forwarding, lease, msize, g.max_committed_size_per_ready, quota);
  c.sample = d;
  c.log("%s", d.c_str());
  const bool pv = g.pre_vote, cq = g.check_quorum, nofwd = g.disable_proposal_forwarding;
  auto node = RawNode::New(g);
  std::vector<MsgP> out; std::vector<ReadState> rss;
  auto drain = [&] {
    for (int k = 0; k < 2000 && node->HasReady(); k++) {
      auto rd = node->GetReady();
      EntryPtrs es(rd->entries.begin(), rd->entries.end()); st->Append(es);
      if (!IsEmptyHardState(rd->hard_state)) st->SetHardState(rd->hard_state);
      for (auto& m : rd->messages) out.push_back(std::make_shared<Msg>(*m));
      for (auto& x : rd->read_states) rss.push_back(x);
      uint64_t s = 0; for (auto& e : rd->committed_entries) s += e->ByteSizeLong();
      if (rd->committed_entries.size() > 1 && s > csize) c.viol("C31", "batch-limit", fmt("%zu entries of %lu bytes to apply, limit %lu: %s", rd->committed_entries.size(), s, csize, d.c_str()));
      node->Advance();
    }
  };
  auto term = [&] { return node->GetBasicStatus().hard_state.term(); };
  auto role = [&] { return node->GetBasicStatus().soft_state.raft_state; };
  auto feed = [&](raftpb::MessageType t, std::function<void(Msg&)> f = nullptr, uint64_t tm = 0) {
    auto m = std::make_shared<Msg>(); m->set_type(t); m->set_from(peer); m->set_to(me); m->set_term(tm ? tm : term());
    if (f) f(*m);
    node->Step(m); drain(); c.nops++;
  };
  auto take = [&](raftpb::MessageType t) { std::vector<MsgP> v; for (auto& m : out) if (m->type() == t) v.push_back(m); return v; };
  drain();
  // election timeout, pre-vote
  uint64_t w = 0;
  while (out.empty() && w < 5 * E) { node->Tick(); w++; drain(); c.nops++; }
  if (w < E || w > 2 * E - 1) c.viol("C31", "election-timeout", fmt("first campaign after %lu ticks: %s", w, d.c_str()));
  for (auto& m : out) if (m->type() != (pv ? raftpb::MsgPreVote : raftpb::MsgVote)) c.viol("C31", "pre-vote-option", fmt("the campaign starts with %s: %s", raftpb::MessageType_Name(m->type()).c_str(), d.c_str()));
  if (pv) { out.clear(); feed(raftpb::MsgPreVoteResp, nullptr, term() + 1); }
  if (take(raftpb::MsgVote).size() != 1) c.viol("C31", "pre-vote-option", "no vote request: " + d);
  out.clear();
  feed(raftpb::MsgVoteResp);
  if (role() != RaftStateType::kLeader) c.viol("C31", "not-elected", d);
  auto lastsent = [&] { uint64_t x = 0; for (auto& m : out) if (m->type() == raftpb::MsgApp) x = std::max<uint64_t>(x, m->index() + m->entries_size()); return x; };
  uint64_t acked = lastsent();
  out.clear();
  feed(raftpb::MsgAppResp, [&](Msg& m) { m.set_index(acked); });
  out.clear();
  // heartbeat interval
  for (uint64_t t = 1, n = r.range(H, 4 * E); t <= n; t++) {
    node->Tick(); drain(); c.nops++;
    auto hb = take(raftpb::MsgHeartbeat);
    if (hb.size() != (t % H == 0)) c.viol("C31", "heartbeat-interval", fmt("%zu heartbeats %lu ticks after the election: %s", hb.size(), t, d.c_str()));
    out.clear();
    if (!hb.empty()) feed(raftpb::MsgHeartbeatResp);
    out.clear();
    if (role() != RaftStateType::kLeader) c.viol("C31", "leader-lost", d);
  }
  // quota, window, sizes
  uint64_t unc = 0, accepted = 0, refused = 0;
  for (int round = 0; round < 2; round++) {
    uint64_t have = 0;
    for (int k = 0, n = (int)r.range(1, 14); k < n; k++) {
      std::string data(r.below(r.chance(0.2) ? 90 : 12), 'd');
      bool want = !quota || data.empty() || unc == 0 || unc + data.size() <= quota;
      bool got = node->Propose(data).IsOK(); c.nops++;
      if (got != want) c.viol("C31", got ? "quota-not-kept" : "quota-refuses", fmt("a proposal of %zu bytes was %s with %lu bytes uncommitted: %s", data.size(), got ? "accepted" : "refused", unc, d.c_str()));
      if (got) { unc += data.size(); have++; accepted++; } else refused++;
      if (r.chance(0.3)) drain();
    }
    drain();
    auto apps = take(raftpb::MsgApp);
    size_t infl = 0; for (auto& m : apps) infl += m->entries_size() > 0;
    if (infl != std::min<size_t>(have, window)) c.viol("C31", "window", fmt("%zu messages in flight after %lu proposals: %s", infl, have, d.c_str()));
    for (int k = 0; k < 200; k++) {
      uint64_t x = lastsent();
      for (auto& m : take(raftpb::MsgApp)) {
        uint64_t s = 0; for (auto& e : m->entries()) s += e.ByteSizeLong();
        if (m->entries_size() > 1 && s > msize) c.viol("C31", "message-limit", fmt("an append of %d entries and %lu bytes: %s", m->entries_size(), s, d.c_str()));
      }
      if (x <= acked) break;
      acked = x;
      out.clear();
      feed(raftpb::MsgAppResp, [&](Msg& m) { m.set_index(acked); });
      size_t inflight = 0; for (auto& m : take(raftpb::MsgApp)) inflight += m->entries_size() > 0;
      if (inflight > window) c.viol("C31", "window", fmt("%zu messages in flight: %s", inflight, d.c_str()));
    }
    if (node->GetBasicStatus().applied != acked || node->GetRaft()->GetRaftLog()->LastIndex() != acked) c.viol("C31", "not-replicated", fmt("acknowledged %lu, applied %lu, log ends at %lu: %s", acked, node->GetBasicStatus().applied, node->GetRaft()->GetRaftLog()->LastIndex(), d.c_str()));
    unc = 0;
    out.clear();
  }
  c.ctr["C31.accepted"] += accepted; c.ctr["C31.over_quota"] += refused;
  // how reads are answered
  rss.clear();
  node->ReadIndex("ctx"); drain(); c.nops++;
  auto hb = take(raftpb::MsgHeartbeat);
  if (lease) {
    if (rss.size() != 1 || !hb.empty()) c.viol("C31", "read-option", fmt("a lease read gave %zu results and %zu heartbeats: %s", rss.size(), hb.size(), d.c_str()));
  } else {
    if (!rss.empty() || hb.size() != 1 || hb[0]->context() != "ctx") c.viol("C31", "read-option", fmt("a quorum read gave %zu results and %zu heartbeats: %s", rss.size(), hb.size(), d.c_str()));
    feed(raftpb::MsgHeartbeatResp, [&](Msg& m) { m.set_context("ctx"); });
    if (rss.size() != 1) c.viol("C31", "read-option", fmt("a quorum read gave %zu results after its confirmation: %s", rss.size(), d.c_str()));
  }
  // quorum checking
  for (uint64_t k = 0; k < 2 * E + 1; k++) { node->Tick(); drain(); c.nops++; }
  if ((role() == RaftStateType::kLeader) == cq) c.viol("C31", "check-quorum-option", fmt("alone for %lu ticks the node is in state %d: %s", 2 * E + 1, (int)role(), d.c_str()));
  // forwarding
  feed(raftpb::MsgHeartbeat, nullptr, term() + 5);
  if (role() != RaftStateType::kFollower) c.viol("C31", "not-following", d);
  out.clear();
  bool ok = node->Propose("fwd").IsOK(); drain();
  auto f = take(raftpb::MsgProp);
  if (nofwd ? ok || !f.empty() : !ok || f.size() != 1 || f[0]->to() != peer || f[0]->entries_size() != 1 || f[0]->entries(0).data() != "fwd")
    c.viol("C31", "forwarding-option", fmt("a proposal at a follower was %s and passed on %zu times: %s", ok ? "accepted" : "refused", f.size(), d.c_str()));
  // quiesced ticks are time that passes, nothing else
  out.clear();
  auto before = node->GetBasicStatus();
  uint64_t q = r.chance(0.5) ? r.below(E) : 2 * E - 1 + r.below(3);
  for (uint64_t k = 0; k < q; k++) node->TickQuiesced();
  auto after = node->GetBasicStatus();
  if (node->HasReady() || before.hard_state.SerializeAsString() != after.hard_state.SerializeAsString() || before.soft_state.raft_state != after.soft_state.raft_state) c.viol("C31", "quiesced-tick-acts", fmt("%lu quiesced ticks changed the node: %s", q, d.c_str()));
  node->Tick(); drain();
  bool camp = !take(pv ? raftpb::MsgPreVote : raftpb::MsgVote).empty();
  if (q + 1 < E && camp) c.viol("C31", "quiesced-tick-time", fmt("a campaign %lu ticks after the leader spoke: %s", q + 1, d.c_str()));
  if (q >= 2 * E - 1 && !camp) c.viol("C31", "quiesced-tick-time", fmt("no campaign %lu ticks after the leader spoke: %s", q + 1, d.c_str()));
  // the role of a follower changes nothing about forwarding; without a leader nobody forwards
  if (r.chance(0.5)) {
    raftpb::ConfChange cc; cc.set_node_id(me);
    bool learner = r.chance(0.6);
    cc.set_type(learner ? raftpb::ConfChangeAddLearnerNode : raftpb::ConfChangeRemoveNode);
    node->ApplyConfChange(ConfChangeI(cc)); drain();
    bool led = r.chance(0.8);
    if (led) feed(raftpb::MsgHeartbeat, nullptr, term() + 1);
    else feed(raftpb::MsgVote, [&](Msg& m) { m.set_context("CampaignTransfer"); m.set_index(1); m.set_logterm(0); }, term() + 1);
    if (role() != RaftStateType::kFollower) c.viol("C31", "not-following", d);
    out.clear();
    ok = node->Propose("fwd2").IsOK(); drain();
    f = take(raftpb::MsgProp);
    if (nofwd || !led ? ok || !f.empty() : !ok || f.size() != 1 || f[0]->to() != peer)
      c.viol("C31", "forwarding-option", fmt("a proposal at a %s %s was %s and passed on %zu times: %s", learner ? "learner" : "removed node", led ? "with a leader" : "without a leader", ok ? "accepted" : "refused", f.size(), d.c_str()));
    c.ctr["C31.role_forwarding"]++;
  }
  c.ctr["C31.scripts"]++;
  c.seen(hstr(d));
}
}  // namespace

void mod_settings(Ctx& c) {
  for (int k = 0; k < 4; k++) validation(c);
  effects(c);
}
}  // namespace vv
