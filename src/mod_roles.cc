// C33: who campaigns and leads, when membership changes reach a node at any moment of an election.
#include "mod.h"
#include "src/rawnode.h"
using namespace craft;

namespace vv {
using Msg = raftpb::Message;
using MsgP = std::shared_ptr<Msg>;

void mod_roles(Ctx& c) {
  auto& r = c.rng;
  const uint64_t me = r.chance(0.8) ? 1 : UINT64_MAX - 1;
  auto id = [&](int k) { return k == 0 ? me : (uint64_t)(k * 7); };
  const int N = (int)r.range(1, 6);
  Conf conf;
  for (int k = 0; k < N; k++) if (k ? r.chance(0.8) : r.chance(0.85)) (r.chance(0.8) ? conf.V : conf.L).insert(id(k));
  if (conf.V.empty()) conf.V.insert(id((int)r.below(N)));
  for (auto v : conf.V) conf.L.erase(v);
  if (r.chance(0.15)) {
    conf.O = conf.V; conf.al = r.chance(0.5);
    for (auto v : IdSet(conf.V)) if (conf.V.size() > 1 && r.chance(0.3)) { conf.V.erase(v); if (r.chance(0.6)) conf.LN.insert(v); }
  }
  auto st = std::make_shared<MemoryStorage>(c.logger);
  auto sn = std::make_shared<raftpb::Snapshot>();
  uint64_t base = r.range(1, 6);
  sn->mutable_metadata()->set_index(base); sn->mutable_metadata()->set_term(1);
  *sn->mutable_metadata()->mutable_conf_state() = to_cs(conf);
  st->ApplySnapshot(sn);
  raftpb::HardState hs; hs.set_term(r.range(1, 4)); hs.set_commit(base); st->SetHardState(hs);
  Raft::Config g;
  int E = (int)r.range(3, 8);
  g.id = me; g.election_tick = E; g.heartbeat_tick = 1; g.storage = st; g.max_size_per_msg = UINT64_MAX; g.max_inflight_msgs = 16; g.logger = c.logger;
  g.pre_vote = r.chance(0.5); g.check_quorum = r.chance(0.3);
  auto node = RawNode::New(g);
  std::string hist = fmt("node %lu, %s, pre-vote %d quorum-check %d:", me, conf.str().c_str(), g.pre_vote, g.check_quorum);
  int prole = 0;
  auto role = [&] { return (int)node->GetBasicStatus().soft_state.raft_state; };
  auto term = [&] { return (uint64_t)node->GetBasicStatus().hard_state.term(); };
  enum { F = (int)RaftStateType::kFollower, L = (int)RaftStateType::kLeader };
  // one operation, then what it may have led to
  auto done = [&](const std::string& what, const Conf& before) {
    c.nops++;
    hist += " " + what;
    std::vector<MsgP> out;
    for (int k = 0; k < 100 && node->HasReady(); k++) {
      auto rd = node->GetReady();
      EntryPtrs es(rd->entries.begin(), rd->entries.end()); st->Append(es);
      if (!IsEmptyHardState(rd->hard_state)) st->SetHardState(rd->hard_state);
      for (auto& m : rd->messages) out.push_back(std::make_shared<Msg>(*m));
      node->Advance();
    }
    int now = role();
    // the operation that changed the configuration is judged by the configuration it leads to
    (void)before;
    bool asked = false;
    for (auto& m : out) if (m->type() == raftpb::MsgVote || m->type() == raftpb::MsgPreVote) {
      asked = true;
      if (!conf.voter(m->to())) c.viol("C33", "asks-non-voter", hist + fmt(" => asks %lu for its vote", m->to()));
    }
    c.ctr["C33.role_checks"]++;
    if (asked) c.ctr["C33.campaigns"]++;
    if (!conf.voter(me)) {
      c.ctr["C33.nonvoter_asked"]++;
      if (asked) c.viol("C33", "non-voter-campaigned", hist + " => campaigns outside the voters of " + conf.str());
      if (now == L && prole != L) c.viol("C33", "non-voter-leads", hist + " => leads outside the voters of " + conf.str());
      if (now != F && prole == F) c.viol("C33", "non-voter-candidate", hist + " => stands for election outside the voters of " + conf.str());
    }
    if (now == L && prole != L) c.ctr["C33.elected"]++;
    c.seen(hcomb(hcomb(now, prole), hcomb(conf.voter(me) + 2 * conf.member(me) + 4 * conf.joint(), conf.V.size())));
    prole = now;
  };
  prole = role();
  for (int k = 0, n = (int)r.range(15, 90); k < n; k++) {
    Conf before = conf;
    int o = (int)r.below(100);
    int cand = role();
    auto step = [&](raftpb::MessageType t, uint64_t from, uint64_t tm, bool rej = false) {
      auto m = std::make_shared<Msg>(); m->set_type(t); m->set_from(from); m->set_to(me); m->set_term(tm); m->set_reject(rej);
      if (t == raftpb::MsgHeartbeat) m->set_commit(0);
      node->Step(m);
    };
    if (cand != F && cand != L && r.chance(0.45)) {
      // somebody answers
      bool pre = cand == (int)RaftStateType::kPreCandidate;
      uint64_t f = id((int)r.below(N));
      bool rej = r.chance(0.25);
      step(pre ? raftpb::MsgPreVoteResp : raftpb::MsgVoteResp, f, pre && !rej ? term() + 1 : term(), rej);
      done(fmt("%s-of-%lu", rej ? "refusal" : "grant", f), before);
    } else if (o < 30) {
      int q = r.chance(0.5) ? 1 : (int)r.range(1, 2 * E);
      for (int i = 0; i < q; i++) { node->Tick(); done(i ? "." : "tick", before); }
    } else if (o < 45) { node->Campaign(); done("campaign", before); }
    else if (o < 52) { step(raftpb::MsgTimeoutNow, id((int)r.below(N)), term()); done("take-over", before); }
    else if (o < 60) { step(raftpb::MsgHeartbeat, id(1 + (int)r.below(5)), term() + (r.chance(0.5) ? 1 : 0)); done("heartbeat", before); }
    else if (o < 66) {
      bool member = conf.member(me), lead = role() == L;
      auto s = node->Propose("x");
      if (lead && !member) { c.ctr["C33.removed_leader_refused"]++; if (s.IsOK()) c.viol("C33", "removed-leader-accepts", hist + " => the removed leader accepts a proposal"); }
      done("propose", before);
    } else {
      raftpb::ConfChangeV2 v2; raftpb::ConfChange v1;
      bool one = r.chance(0.5);
      auto type = [&] { int t = (int)r.below(3); return t == 0 ? raftpb::ConfChangeAddNode : t == 1 ? raftpb::ConfChangeRemoveNode : raftpb::ConfChangeAddLearnerNode; };
      auto who = [&] { return r.chance(0.45) ? me : id((int)r.below(N + 1)); };
      if (conf.joint()) one = false;
      if (one) {
        v1.set_type(type()); v1.set_node_id(who());
        auto* x = v2.add_changes(); x->set_type(v1.type()); x->set_node_id(v1.node_id());
      } else if (!conf.joint()) {
        for (int q = (int)r.range(1, 3); q > 0; q--) { auto* x = v2.add_changes(); x->set_type(type()); x->set_node_id(who()); }
        v2.set_transition(r.chance(0.4) ? raftpb::ConfChangeTransitionAuto : r.chance(0.5) ? raftpb::ConfChangeTransitionJointImplicit : raftpb::ConfChangeTransitionJointExplicit);
      }
      auto nc = ref_apply(conf, v2);
      if (!nc) continue;
      auto cs = one ? node->ApplyConfChange(ConfChangeI(v1)) : node->ApplyConfChange(ConfChangeI(v2));
      if (from_cs(cs) != *nc) c.viol("C14", "configuration-differs", hist + " => " + from_cs(cs).str() + ", expected " + nc->str());
      conf = *nc;
      c.ctr["C33.changes"]++;
      if (cand != F && cand != L && !conf.voter(me)) c.ctr["C33.demoted_candidates"]++;
      done("now " + conf.str(), before);
    }
  }
  c.sample = hist.substr(0, 300);
}
}  // namespace vv
