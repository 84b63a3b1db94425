// Hostile inputs against the real code, run under the address and undefined-behaviour sanitizers (or memcheck).
// The library may ignore input, return an error or end in its fatal-error report (here: Panic); it must not touch invalid memory.
#include "mod.h"
#include "src/rawnode.h"
#include "src/storage.h"
#include "src/util.h"
#include "src/confchange/restore.h"
using namespace craft;
namespace vv {
namespace {
constexpr uint64_t kMax = UINT64_MAX;

struct Acks : AckedIndexer {
  uint64_t s;
  explicit Acks(uint64_t s) : s(s) {}
  std::tuple<Index, bool> AckedIndex(uint64_t i) const override { uint64_t h = mix64(i ^ s); return std::make_tuple((Index)(h % 7 == 0 ? kMax : h % 50), h % 5 != 0); }
};

struct Gen {
  Rng& r;
  // values around which indexes and terms are drawn
  std::vector<uint64_t> idx, terms, ids;
  std::vector<std::string> ctxs{"", "CampaignTransfer", "r1", "r2", std::string("\0x", 2), "CampaignElection"};
  double tame = 0;   // how often values that would end the node are drawn again
  explicit Gen(Rng& r) : r(r) { tame = r.chance(0.7) ? 0.97 : 0; }
  uint64_t near(const std::vector<uint64_t>& v, double wild) {
    if (r.chance(wild)) {
      static const uint64_t w[] = {0, 1, 2, kMax, kMax - 1, kMax / 2, kMax / 2 + 1, 1ull << 32, (1ull << 31) - 1, 1ull << 31, 1ull << 63};
      return r.chance(0.8) ? w[r.below(11)] : r.next();
    }
    uint64_t x = v.empty() ? 0 : v[r.below(v.size())];
    switch (r.below(8)) { case 0: return x + 1; case 1: return x - 1; case 2: return x + r.below(6); case 3: return x - r.below(4); default: return x; }
  }
  uint64_t index(double wild = 0.08) { return near(idx, wild); }
  uint64_t term(double wild = 0.05) { return near(terms, wild); }
  uint64_t id() { return r.chance(0.06) ? near({}, 1) : ids.empty() || r.chance(0.1) ? r.below(8) : ids[r.below(ids.size())]; }
  std::string bytes(size_t max) { std::string s; size_t n = r.below(max + 1); for (size_t i = 0; i < n; i++) s += (char)r.below(256); return s; }
  std::string data() {
    switch (r.below(8)) {
      case 0: return "";
      case 1: { auto c = cc1(); return c.SerializeAsString(); }
      case 2: case 3: { auto c = cc2(); return c.SerializeAsString(); }
      case 4: return std::string(r.below(200), 'x');
      default: return bytes(12);
    }
  }
  raftpb::ConfChange cc1() {
    raftpb::ConfChange c;
    if (r.chance(0.9)) c.set_type((raftpb::ConfChangeType)r.below(4));
    if (r.chance(0.9)) c.set_node_id(id());
    if (r.chance(0.2)) c.set_context(bytes(8));
    return c;
  }
  raftpb::ConfChangeV2 cc2() {
    raftpb::ConfChangeV2 c;
    if (r.chance(0.7)) c.set_transition((raftpb::ConfChangeTransition)r.below(3));
    for (uint64_t n = r.below(4); n; n--) { auto* s = c.add_changes(); if (r.chance(0.9)) s->set_type((raftpb::ConfChangeType)r.below(4)); if (r.chance(0.9)) s->set_node_id(id()); }
    if (r.chance(0.2)) c.set_context(bytes(8));
    return c;
  }
  raftpb::ConfState cs(bool valid) {
    raftpb::ConfState s;
    if (valid) {
      Conf c;
      for (uint64_t i = 1; i <= 5; i++) {
        uint64_t k = r.below(6);
        if (k < 3) c.V.insert(i); else if (k == 3) c.L.insert(i);
      }
      c.V.insert(1 + r.below(3));
      for (auto i : c.V) c.L.erase(i);
      if (r.chance(0.3)) {
        c.al = r.chance(0.5);
        for (uint64_t i = 1; i <= 5; i++) if (!c.L.count(i) && r.chance(0.6)) { c.O.insert(i); if (!c.V.count(i) && r.chance(0.4)) c.LN.insert(i); }
        if (c.O.empty()) { c.LN.clear(); c.al = false; }
      }
      return to_cs(c);
    }
    for (uint64_t n = r.below(5); n; n--) s.add_voters(id());
    for (uint64_t n = r.below(3); n; n--) s.add_learners(id());
    if (r.chance(0.4)) for (uint64_t n = r.below(4); n; n--) s.add_voters_outgoing(id());
    if (r.chance(0.4)) for (uint64_t n = r.below(3); n; n--) s.add_learners_next(id());
    if (r.chance(0.5)) s.set_auto_leave(r.chance(0.5));
    return s;
  }
  void fill(raftpb::Entry* e, uint64_t i, uint64_t t) {
    if (r.chance(0.95)) e->set_index(i);
    if (r.chance(0.95)) e->set_term(t);
    if (r.chance(0.6)) e->set_type((raftpb::EntryType)r.below(3));
    if (r.chance(0.8)) e->set_data(data());
  }
  void snap(raftpb::Snapshot* s, bool hostile) {
    auto* m = s->mutable_metadata();
    if (r.chance(0.97)) m->set_index(index(hostile ? 0.2 : 0.01));
    if (r.chance(0.97)) m->set_term(term());
    if (r.chance(0.95)) *m->mutable_conf_state() = cs(!hostile || r.chance(0.5));
    s->set_data(bytes(6));
  }
  static constexpr int kTypes = 19;
  MsgPtr msg(uint64_t self) {
    auto m = std::make_shared<raftpb::Message>();
    static const raftpb::MessageType hot[] = {raftpb::MsgApp, raftpb::MsgAppResp, raftpb::MsgHeartbeat, raftpb::MsgHeartbeatResp, raftpb::MsgSnap, raftpb::MsgVote, raftpb::MsgVoteResp, raftpb::MsgPreVote,
                                              raftpb::MsgPreVoteResp, raftpb::MsgProp, raftpb::MsgReadIndex, raftpb::MsgReadIndexResp, raftpb::MsgTransferLeader, raftpb::MsgTimeoutNow};
    m->set_type(r.chance(0.93) ? hot[r.below(14)] : (raftpb::MessageType)r.below(kTypes));
    if (r.chance(0.95)) m->set_to(r.chance(0.9) ? self : id());
    if (r.chance(0.95)) m->set_from(id());
    bool noterm = m->type() == raftpb::MsgProp || m->type() == raftpb::MsgReadIndex || m->type() == raftpb::MsgTransferLeader;
    if (noterm ? r.chance(0.2) : r.chance(0.97)) m->set_term(r.chance(0.6) ? terms.back() : term(0.01));
    if (r.chance(0.9)) m->set_logterm(term());
    if (r.chance(0.95)) m->set_index(index());
    if (r.chance(0.9)) m->set_commit(index());
    if (r.chance(0.4)) m->set_reject(r.chance(0.6));
    if (r.chance(0.5)) m->set_rejecthint(index());
    if (r.chance(0.4)) m->set_context(r.chance(0.9) ? r.pick(ctxs) : bytes(5));
    bool ents = m->type() == raftpb::MsgApp || m->type() == raftpb::MsgProp || m->type() == raftpb::MsgReadIndex || m->type() == raftpb::MsgReadIndexResp;
    if (r.chance(ents ? 0.85 : 0.05)) {
      uint64_t n = 1 + r.below(r.chance(0.1) ? 12 : 3), i = m->index() + 1, t = m->logterm();
      bool wild = r.chance(0.1);
      for (; n; n--) {
        if (r.chance(0.2)) t = term();
        fill(m->add_entries(), wild && r.chance(0.5) ? index(0.3) : i, t);
        i++;
      }
      if (m->type() == raftpb::MsgReadIndex || m->type() == raftpb::MsgReadIndexResp) m->mutable_entries(0)->set_data(r.pick(ctxs));
    }
    if (r.chance(tame)) {
      if (idx.size() > 1 && m->type() == raftpb::MsgHeartbeat && m->commit() > idx[1]) m->set_commit(r.below(idx[1] + 1));
      if (noterm) m->clear_term();
      if (m->term() > terms[0] + 3 && m->term() > 1000) m->set_term(terms[0]);
      if (m->type() == raftpb::MsgProp) {
        if (!m->entries_size()) fill(m->add_entries(), 0, 0);
        for (int i = 0; i < m->entries_size(); i++) {
          raftpb::ConfChangeV2 x; raftpb::ConfChange y;
          auto* e = m->mutable_entries(i);
          if (e->type() == raftpb::EntryConfChangeV2 ? !x.ParseFromString(e->data()) : e->type() == raftpb::EntryConfChange && !y.ParseFromString(e->data())) e->set_type(raftpb::EntryNormal);
        }
      }
    }
    if (m->type() == raftpb::MsgSnap ? r.chance(0.97) : r.chance(0.02)) snap(m->mutable_snapshot(), r.chance(0.25));
    return m;
  }
};

uint64_t touch(const raftpb::Message& m) { return hcomb(hstr(m.SerializeAsString()), m.type()); }

// One node under attack.
struct Victim {
  Ctx& c;
  Rng& r;
  Gen g;
  uint64_t id;
  std::shared_ptr<MemoryStorage> st;
  std::unique_ptr<RawNode> n;
  Raft::Config cfg;
  bool outstanding = false;
  std::shared_ptr<Ready> rd;
  uint64_t applied = 0;
  raftpb::ConfState ccs;
  std::shared_ptr<Logger> lg;

  Victim(Ctx& c, uint64_t id) : c(c), r(c.rng), g(c.rng), id(id) { lg = std::make_shared<SimLogger>(true); }

  // a storage content that a real history could have left behind
  void seed_storage(bool empty) {
    st = std::make_shared<MemoryStorage>(lg);
    ccs = g.cs(true);
    Conf cf = from_cs(ccs);
    if (!cf.member(id) && r.chance(0.8)) { cf.V.insert(id); ccs = to_cs(cf); }
    uint64_t base = empty ? 0 : r.below(8), t = base ? 1 + r.below(3) : 0;
    auto s = std::make_shared<raftpb::Snapshot>();
    s->mutable_metadata()->set_index(base); s->mutable_metadata()->set_term(t); *s->mutable_metadata()->mutable_conf_state() = ccs;
    if (base) st->ApplySnapshot(s);
    else { st->GetSnapshot()->mutable_metadata()->mutable_conf_state()->CopyFrom(ccs); }
    EntryPtrs es;
    uint64_t last = base, n = r.below(10);
    if (!t) t = 1;
    for (uint64_t i = 0; i < n; i++) {
      if (r.chance(0.3)) t += 1 + r.below(2);
      auto e = std::make_shared<raftpb::Entry>();
      e->set_index(++last); e->set_term(t);
      if (r.chance(0.1)) { e->set_type(raftpb::EntryConfChangeV2); e->set_data(g.cc2().SerializeAsString()); } else e->set_data(g.bytes(10));
      es.push_back(e);
    }
    st->Append(es);
    raftpb::HardState hs;
    uint64_t commit = base + r.below(last - base + 1);
    hs.set_term(t + r.below(2)); hs.set_vote(r.chance(0.3) ? g.id() : 0); hs.set_commit(commit);
    if (r.chance(0.9) || base) st->SetHardState(hs);
    applied = base + r.below(commit - base + 1);
  }
  void options() {
    cfg.id = id; cfg.storage = st; cfg.logger = lg;
    cfg.election_tick = 2 + r.below(9); cfg.heartbeat_tick = 1 + r.below(cfg.election_tick - 1);
    cfg.check_quorum = r.chance(0.5); cfg.pre_vote = r.chance(0.5);
    cfg.read_only_option = cfg.check_quorum && r.chance(0.4) ? ReadOnly::kLeaseBased : ReadOnly::kSafe;
    static const uint64_t sz[] = {0, 1, 20, 100, kMax};
    cfg.max_size_per_msg = sz[r.below(5)]; cfg.max_committed_size_per_ready = sz[r.below(5)]; cfg.max_uncommitted_entries_size = sz[r.below(5)];
    cfg.max_inflight_msgs = r.chance(0.1) ? 256 : r.chance(0.05) ? INT64_MAX >> r.below(40) : 1 + r.below(4);
    cfg.disable_proposal_forwarding = r.chance(0.2);
    cfg.applied = r.chance(0.5) ? applied : 0;
  }
  void start() { n = RawNode::New(cfg); outstanding = false; rd.reset(); refresh(); }
  void refresh() {
    auto* l = n->GetRaft()->GetRaftLog();
    g.idx = {l->FirstIndex(), l->LastIndex(), l->LastIndex(), l->Committed(), l->Applied(), l->LastIndex() + 1, std::get<0>(st->LastIndex()), std::get<0>(st->FirstIndex())};
    g.terms = {n->GetRaft()->Term(), l->LastTerm(), std::get<0>(l->Term(l->Committed())), n->GetRaft()->Term() + 1, 0, n->GetRaft()->Term()};
    g.ids = {1, 2, 3, 4, 5};
  }
  void persist(bool partial) {
    if (!rd) return;
    if (!IsEmptySnap(rd->snapshot)) st->ApplySnapshot(rd->snapshot);
    if (!(partial && r.chance(0.5))) st->Append(rd->entries);
    if (!IsEmptyHardState(rd->hard_state)) st->SetHardState(rd->hard_state);
  }
  void apply() {
    if (!rd) return;
    for (auto& e : rd->committed_entries) {
      applied = e->index();
      // an application does not apply what cannot be applied, most of the time
      if (is_conf(*e) && r.chance(0.98)) {
        auto x = ref_apply(from_cs(n->GetRaft()->GetTracker().ConfState()), to_v2(*e));
        if (!x) continue;
      }
      if (e->type() == raftpb::EntryConfChange) {
        raftpb::ConfChange x;
        if (x.ParseFromString(e->data())) { ccs = n->ApplyConfChange(ConfChangeI(x)); c.ctr["C29.conf_applied"]++; }
      } else if (e->type() == raftpb::EntryConfChangeV2) {
        raftpb::ConfChangeV2 x;
        if (x.ParseFromString(e->data())) { ccs = n->ApplyConfChange(ConfChangeI(x)); c.ctr["C29.conf_applied"]++; }
      }
      applied = e->index();
    }
  }
  // works like an application; misbehave: leaves steps out
  void ready(bool misbehave) {
    if (outstanding && !misbehave) { n->Advance(); outstanding = false; }
    if (!n->HasReady() && !misbehave) return;
    if (misbehave && r.chance(0.2)) { rd = n->ReadyWithoutAccept(); c.ctr["C29.ready_peeked"]++; if (r.chance(0.5)) { n->AcceptReady(rd); outstanding = true; } }
    else { rd = n->GetReady(); outstanding = true; }
    c.ctr["C29.readies"]++;
    uint64_t h = hstr(rd->String());
    for (auto& m : rd->messages) { h = hcomb(h, touch(*m)); if (m->type() == raftpb::MsgHeartbeat && !m->context().empty()) g.ctxs.push_back(m->context()); if (g.ctxs.size() > 12) g.ctxs.erase(g.ctxs.begin() + 6); }
    rd->AppliedCursor();
    c.seen(h);
    persist(misbehave);
    if (!misbehave || r.chance(0.5)) apply();
    if (r.chance(0.8)) { n->Advance(); outstanding = false; }
    if (r.chance(0.05)) compact();
  }
  void compact() {
    auto f = std::get<0>(st->FirstIndex()), l = std::get<0>(st->LastIndex());
    uint64_t a = std::min(r.chance(0.98) ? n->GetRaft()->GetRaftLog()->Applied() : applied, l);
    if (a < f) return;
    uint64_t i = f + r.below(a - f + 1);
    st->CreateSnapshot(i, &ccs, "s");
    st->Compact(i);
    c.ctr["C29.compactions"]++;
  }
  void look() {
    auto s = n->GetStatus();
    uint64_t h = hstr(s.config.String());
    for (auto& p : s.progress) h = hcomb(h, hstr(p.second->String()));
    n->WithProgress([&](uint64_t i, ProgressType, ProgressPtr p) { h = hcomb(h, i ^ p->Match()); });
    n->GetBasicStatus(); n->HasReady();
    h = hcomb(h, hstr(n->GetRaft()->GetTracker().GetConfig().voters.Describe(Acks(3))));
    c.seen(h);
    c.ctr["C29.status"]++;
  }
  // pushes the node into an interesting role by consistent messages
  void promote() {
    n->Campaign();
    for (int k = 0; k < 2 && n->GetRaft()->GetSoftState().raft_state != kLeader; k++) {
      auto ty = n->GetRaft()->GetSoftState().raft_state == kPreCandidate ? raftpb::MsgPreVoteResp : raftpb::MsgVoteResp;
      for (auto v : n->GetRaft()->GetTracker().VoterNodes()) {
        if (v == id || r.chance(0.1)) continue;
        auto m = std::make_shared<raftpb::Message>();
        m->set_type(ty); m->set_from(v); m->set_to(id); m->set_term(n->GetRaft()->Term() + (ty == raftpb::MsgPreVoteResp));
        n->Step(m);
      }
    }
    if (n->GetRaft()->GetSoftState().raft_state == kLeader) c.ctr["C29.led"]++;
  }
  void ack() {   // plausible responses
    auto* l = n->GetRaft()->GetRaftLog();
    for (uint64_t v = 1; v <= 5; v++) {
      if (v == id || r.chance(0.3)) continue;
      auto m = std::make_shared<raftpb::Message>();
      m->set_type(r.chance(0.7) ? raftpb::MsgAppResp : raftpb::MsgHeartbeatResp); m->set_from(v); m->set_to(id); m->set_term(n->GetRaft()->Term());
      m->set_index(r.chance(0.7) ? l->LastIndex() : g.index()); if (r.chance(0.3)) { m->set_reject(true); m->set_rejecthint(g.index()); m->set_logterm(g.term()); }
      if (r.chance(0.3)) m->set_context(r.pick(g.ctxs));
      n->Step(m);
    }
  }
  void op(double misuse) {
    c.nops++;
    if (r.chance(misuse)) {
      switch (r.below(8)) {
        case 0: n->Advance(); outstanding = false; break;
        case 1: ready(true); break;
        case 2: ccs = r.chance(0.5) ? n->ApplyConfChange(ConfChangeI(g.cc1())) : n->ApplyConfChange(ConfChangeI(g.cc2())); break;
        case 3: n->GetRaft()->Step(g.msg(id)); break;   // as the application's own local message
        case 4: { auto s = std::make_shared<raftpb::Snapshot>(); g.snap(s.get(), false); st->ApplySnapshot(s); break; }
        case 5: st->Compact(g.index()); break;
        case 6: st->CreateSnapshot(g.index(), r.chance(0.5) ? &ccs : nullptr, "h"); break;
        case 7: { std::vector<Peer> ps; for (uint64_t k = r.below(4); k; k--) ps.push_back({g.id(), ""}); n->Bootstrap(ps); break; }
      }
      c.ctr["C29.misuse"]++;
    } else {
      uint64_t k = r.below(100);
      if (k < 50) { auto m = g.msg(id); c.seen(touch(*m)); c.log("step %s", m->ShortDebugString().c_str()); auto s = n->Step(m); c.ctr[s.IsOK() ? "C29.messages" : "C29.messages_refused"]++; }
      else if (k < 65) ready(false);
      else if (k < 72) { for (uint64_t t = 1 + r.below(6); t; t--) r.chance(0.95) ? n->Tick() : n->TickQuiesced(); }
      else if (k < 76) promote();
      else if (k < 82) ack();
      else if (k < 85) n->Propose(g.data());
      else if (k < 87) { if (r.chance(0.5)) n->ProposeConfChange(ConfChangeI(g.cc2())); else n->ProposeConfChange(ConfChangeI(g.cc1())); }
      else if (k < 89) n->ReadIndex(r.pick(g.ctxs));
      else if (k < 91) n->TransferLeader(g.id());
      else if (k < 93) n->ReportUnreachable(g.id());
      else if (k < 95) n->ReportSnapshot(g.id(), r.chance(0.5) ? kFinish : kFailure);
      else if (k < 97) look();
      else if (k < 98) compact();
      else if (k < 99) { n.reset(); cfg.applied = r.chance(0.5) ? std::max(applied, std::get<0>(st->FirstIndex()) - 1) : 0; cfg.storage = st; start(); c.ctr["C29.restarts"]++; }
      else n->Campaign();
    }
    refresh();
  }
};

void fuzz_node(Ctx& c) {
  Rng& r = c.rng;
  double misuse = r.chance(0.5) ? 0 : 0.08;
  int lives = 1 + r.below(4);
  for (int k = 0; k < lives; k++) {
    Victim v(c, 1 + r.below(3));
    try {
      v.seed_storage(r.chance(0.2));
      v.options();
      v.start();
      if (r.chance(0.4)) v.promote();
      for (uint64_t n = 20 + r.below(150); n; n--) v.op(misuse);
      v.look();
    } catch (Panic& p) {
      c.ctr["C29.fatal_reports"]++;
      c.log("fatal: %s misuse %g", p.what(), misuse);
      // the node is not used any more but everything it handed out must still be valid
      if (v.rd) c.seen(hstr(v.rd->String()));
    }
  }
  c.sample = fmt("%d nodes attacked with %lu operations, %lu fatal reports", lives, c.nops, c.ctr["C29.fatal_reports"]);
}

// A start from arbitrary storage contents and options.
void fuzz_start(Ctx& c) {
  Rng& r = c.rng;
  for (int k = 0; k < 8; k++) {
    Victim v(c, 1);
    c.nops++;
    try {
      v.seed_storage(r.chance(0.3));
      auto s = v.st->GetSnapshot();
      if (r.chance(0.4)) { v.g.idx = {0, 5, 9}; v.g.terms = {1, 2}; v.g.ids = {1, 2, 3, 4}; *s->mutable_metadata()->mutable_conf_state() = v.g.cs(false); }
      if (r.chance(0.2)) { raftpb::HardState h; h.set_commit(v.g.index()); h.set_term(v.g.term()); h.set_vote(v.g.id()); v.st->SetHardState(h); }
      v.options();
      if (r.chance(0.15)) v.cfg.applied = v.g.index();
      if (r.chance(0.03)) v.cfg.id = 0;
      if (r.chance(0.1)) v.cfg.max_inflight_msgs = (int64_t)v.g.near({}, 1);
      if (r.chance(0.04)) v.cfg.election_tick = (int64_t)v.g.near({}, 1) >> 34;
      if (r.chance(0.04)) v.cfg.heartbeat_tick = (int64_t)v.g.near({}, 1);
      v.start();
      c.ctr["C29.started"]++;
      for (uint64_t n = r.below(40); n; n--) v.op(0);
    } catch (Panic& p) { c.ctr["C29.fatal_reports"]++; c.log("fatal: %s", p.what()); }
  }
  c.sample = fmt("8 starts from arbitrary storage, %lu refused or ended by a fatal report", c.ctr["C29.fatal_reports"]);
}

// A small cluster whose real messages are mutated, duplicated, reordered and replayed.
void fuzz_cluster(Ctx& c) {
  Rng& r = c.rng;
  int N = 1 + r.below(3) * 2;
  std::vector<std::unique_ptr<Victim>> v;
  raftpb::ConfState cs;
  for (int i = 1; i <= N; i++) cs.add_voters(i);
  double pmut = r.chance(0.3) ? 0 : r.chance(0.5) ? 0.03 : 0.15;
  for (int i = 1; i <= N; i++) {
    v.push_back(std::make_unique<Victim>(c, i));
    auto& x = *v.back();
    x.st = std::make_shared<MemoryStorage>(x.lg);
    *x.st->GetSnapshot()->mutable_metadata()->mutable_conf_state() = cs;
    x.ccs = cs;
    x.options();
    x.cfg.applied = 0;
    x.start();
  }
  std::vector<raftpb::Message> net, old;
  auto guarded = [&](Victim& x, auto f) {
    try { f(); }
    catch (Panic& p) {
      c.ctr["C29.fatal_reports"]++; c.log("%lu fatal: %s", x.id, p.what());
      try { x.n.reset(); x.cfg.applied = 0; x.start(); }
      catch (Panic&) {   // what it persisted is beyond repair
        x.st = std::make_shared<MemoryStorage>(x.lg); *x.st->GetSnapshot()->mutable_metadata()->mutable_conf_state() = cs; x.cfg.storage = x.st; x.cfg.applied = 0; x.applied = 0; x.ccs = cs; x.start();
      }
    }
  };
  uint64_t steps = 100 + r.below(500);
  for (uint64_t k = 0; k < steps; k++) {
    auto& x = *v[r.below(N)];
    c.nops++;
    uint64_t q = r.below(100);
    guarded(x, [&] {
      if (q < 15) x.n->Tick();
      else if (q < 55 && !net.empty()) {
        size_t i = r.below(net.size());
        raftpb::Message m = net[i];
        if (r.chance(0.85)) { net[i] = net.back(); net.pop_back(); }
        if (old.size() < 60) old.push_back(m); else old[r.below(60)] = m;
        if (r.chance(pmut)) {
          auto h = x.g.msg(m.to());
          for (uint64_t w = 1 + r.below(2); w; w--) switch (r.below(12)) {
            case 0: m.set_type(h->type()); break; case 1: m.set_from(h->from()); break; case 2: m.set_term(h->term()); break; case 3: m.set_index(h->index()); break;
            case 4: m.set_logterm(h->logterm()); break; case 5: m.set_commit(h->commit()); break; case 6: *m.mutable_entries() = h->entries(); break; case 7: m.set_reject(!m.reject()); break;
            case 8: m.set_rejecthint(h->rejecthint()); break; case 9: m.set_context(h->context()); break; case 10: x.g.snap(m.mutable_snapshot(), true); break;
            case 11: if (m.entries_size()) { auto* e = m.mutable_entries(r.below(m.entries_size())); x.g.fill(e, x.g.index(), x.g.term()); } break;
          }
          c.ctr["C29.mutated"]++;
        }
        uint64_t to = m.to();
        if (to >= 1 && to <= (uint64_t)N) guarded(*v[to - 1], [&] { auto& y = *v[to - 1]; c.seen(touch(m)); y.n->Step(std::make_shared<raftpb::Message>(m)); c.ctr["C29.messages"]++; y.refresh(); });
      } else if (q < 58 && !old.empty()) { auto m = old[r.below(old.size())]; if (m.to() >= 1 && m.to() <= (uint64_t)N) net.push_back(m); }
      else if (q < 85) x.ready(false);
      else if (q < 91) x.n->Propose(x.g.data());
      else if (q < 92) { auto cc = x.g.cc2(); if (r.chance(0.1) || ref_apply(from_cs(x.n->GetRaft()->GetTracker().ConfState()), cc)) x.n->ProposeConfChange(ConfChangeI(cc)); }
      else if (q < 94) x.n->ReadIndex("q" + std::to_string(r.below(5)));
      else if (q < 95) x.n->TransferLeader(1 + r.below(N));
      else if (q < 96) x.look();
      else if (q < 97) x.compact();
      else if (q < 98) x.promote();
      else if (q < 99) { x.n.reset(); x.cfg.applied = r.chance(0.5) ? std::max(x.applied, std::get<0>(x.st->FirstIndex()) - 1) : 0; x.start(); }
      else x.n->ReportSnapshot(x.g.id(), r.chance(0.5) ? kFinish : kFailure);
      x.refresh();
      if (x.rd) { for (auto& m : x.rd->messages) if (net.size() < 200) net.push_back(*m); x.rd.reset(); }
    });
  }
  c.sample = fmt("%d nodes, %lu steps, %lu mutated messages, %lu fatal reports", N, steps, c.ctr["C29.mutated"], c.ctr["C29.fatal_reports"]);
}

// The parts an application can call directly, with arbitrary arguments and in any order.
void fuzz_api(Ctx& c) {
  Rng& r = c.rng;
  Gen g(r);
  g.idx = {0, 3, 5, 9}; g.terms = {1, 2, 3}; g.ids = {1, 2, 3, 4, 5};
  auto lg = std::make_shared<SimLogger>(true);
  auto guarded = [&](auto f) { c.nops++; try { f(); } catch (Panic&) { c.ctr["C29.fatal_reports"]++; return false; } return true; };
  switch (r.below(8)) {
    case 0: {  // inflight window
      std::unique_ptr<Inflights> in;
      auto fresh = [&] { in = std::make_unique<Inflights>(lg, r.chance(0.1) ? 0 : 1 + (int64_t)r.below(9)); };
      fresh();
      for (int k = 0; k < 60; k++) {
        bool ok = guarded([&] {
          switch (r.below(6)) {
            case 0: case 1: case 2: in->Add(g.index()); break;
            case 3: in->FreeLE(g.index()); break;
            case 4: in->FreeFirstOne(); break;
            case 5: if (r.chance(0.3)) in->Reset(); else { auto x = in->Clone(); x->FreeLE(kMax); in = std::move(x); } break;
          }
          c.seen(in->Count() * 64 + in->Start());
        });
        if (!ok) fresh();
        c.ctr["C29.api_calls"]++;
      }
      break;
    }
    case 1: {  // quorums
      for (int k = 0; k < 30; k++) guarded([&] {
        std::set<uint64_t> a, b;
        for (uint64_t n = r.below(9); n; n--) a.insert(g.id());
        for (uint64_t n = r.below(6); n; n--) b.insert(g.id());
        JointConfig j(a, b);
        uint64_t s = r.next();
        Acks f(s);
        j.At(r.below(4)).Add(g.id()); j.At(g.index()).Remove(g.id());
        std::map<uint64_t, bool> votes; for (uint64_t n = r.below(9); n; n--) votes[g.id()] = r.chance(0.5);
        c.seen(hcomb(hcomb(j.CommittedIndex(f), (uint64_t)j.VoteResult(votes)), hstr(j.Describe(f) + j.String())));
        c.ctr["C29.api_calls"]++;
      });
      break;
    }
    case 2: {  // textual and binary encodings
      for (int k = 0; k < 30; k++) guarded([&] {
        std::string s;
        static const char* tok[] = {"v", "l", "r", "u", " ", "1", "23", "18446744073709551615", "18446744073709551616", "-1", "+", "x", "", "\t", "v1", "l2 ", "0"};
        for (uint64_t n = r.below(9); n; n--) s += r.chance(0.9) ? std::string(tok[r.below(17)]) : g.bytes(4);
        auto [cs, st] = ConfChangesFromString(s);
        if (st.IsOK()) ConfChangesToString(cs);
        c.seen(hcomb(hstr(s), cs.size()));
        Util::Split(s, ' '); Util::Trim(s, ' '); Util::Split(std::string_view(s), 'v');
        ConfChangeI a(g.cc1()), b(g.cc2()), e;
        a.AsV2(); b.AsV2(); a.AsV1(); b.AsV1(); a.Marshal(); b.Marshal();
        e.Marshal(); e.AsV1();
        auto v2 = g.cc2(); EnterJoint(lg, v2); LeaveJoint(v2);
        std::vector<raftpb::ConfChangeSingle> ccs; for (auto& x : v2.changes()) ccs.push_back(x);
        ConfChangesToString(ccs);
        c.ctr["C29.api_calls"]++;
      });
      break;
    }
    case 3: {  // storage
      std::shared_ptr<MemoryStorage> st;
      auto fresh = [&] { st = std::make_shared<MemoryStorage>(lg); };
      fresh();
      std::vector<EntryPtrs> held; std::vector<SnapshotPtr> snaps;
      raftpb::ConfState cs = g.cs(true);
      for (int k = 0; k < 80; k++) {
        bool ok = guarded([&] {
          auto l = std::get<0>(st->LastIndex()), f = std::get<0>(st->FirstIndex());
          g.idx = {f, l, l + 1, f - 1, std::get<0>(st->SnapShot())->metadata().index()};
          switch (r.below(10)) {
            case 0: case 1: case 2: { EntryPtrs es; uint64_t i = r.chance(0.6) ? l + 1 : g.index(0.15); for (uint64_t n = r.below(5); n; n--) { auto e = std::make_shared<raftpb::Entry>(); g.fill(e.get(), i++, g.term()); es.push_back(e); } st->Append(es); break; }
            case 3: { uint64_t a = g.index(0.1), b = r.chance(0.5) ? a + r.below(5) : g.index(0.1); auto [es, s] = st->Entries(a, b, g.near({10, 50}, 0.3)); held.push_back(es); break; }
            case 4: st->Term(g.index(0.2)); break;
            case 5: { auto s = std::make_shared<raftpb::Snapshot>(); g.snap(s.get(), r.chance(0.3)); st->ApplySnapshot(s); break; }
            case 6: { auto [s, e] = st->CreateSnapshot(g.index(0.1), r.chance(0.5) ? &cs : nullptr, g.bytes(5)); if (s) snaps.push_back(s); break; }
            case 7: st->Compact(g.index(0.1)); break;
            case 8: { raftpb::HardState h; h.set_commit(g.index()); st->SetHardState(h); break; }
            case 9: { auto [h, s, e] = st->InitialState(); c.seen(h.commit() + s.voters_size()); break; }
          }
          c.seen(hcomb(f, l));
        });
        if (!ok && r.chance(0.5)) fresh();
        c.ctr["C29.api_calls"]++;
      }
      for (auto& h : held) for (auto& e : h) c.seen(hstr(e->data()) + e->index());
      for (auto& s : snaps) c.seen(s->metadata().index());
      break;
    }
    case 4: {  // pending reads
      ReadOnly ro(lg, ReadOnly::kSafe);
      for (int k = 0; k < 60; k++) guarded([&] {
        auto m = std::make_shared<raftpb::Message>();
        m->set_from(g.id()); m->set_context(r.pick(g.ctxs)); m->add_entries()->set_data(r.pick(g.ctxs));
        switch (r.below(4)) {
          case 0: ro.AddRequest(g.index(), m); break;
          case 1: c.seen(ro.RecvAck(g.id(), r.pick(g.ctxs)).size()); break;
          case 2: { auto v = ro.Advance(m); for (auto& s : v) c.seen(hcomb(s->index, hstr(s->req->entries(0).data()))); break; }
          case 3: c.seen(hstr(ro.LastPendingRequestCtx())); break;
        }
        c.ctr["C29.api_calls"]++;
      });
      break;
    }
    case 5: {  // the raft log directly
      auto st = std::make_shared<MemoryStorage>(lg);
      std::unique_ptr<craft::RaftLog> l;
      auto fresh = [&] { st = std::make_shared<MemoryStorage>(lg); l = craft::RaftLog::NewWithSize(lg, st, r.below(60)); };
      fresh();
      for (int k = 0; k < 80; k++) {
        bool ok = guarded([&] {
          auto first = l->FirstIndex(), last = l->LastIndex();
          g.idx = {first, last, last + 1, l->Committed(), l->Applied()};
          auto ents = [&](uint64_t i) { EntryPtrs es; for (uint64_t n = r.below(4); n; n--) { auto e = std::make_shared<raftpb::Entry>(); g.fill(e.get(), r.chance(0.95) ? i : g.index(), g.term()); i++; es.push_back(e); } return es; };
          switch (r.below(14)) {
            case 0: case 1: { uint64_t i = g.index(); l->MaybeAppend(i, g.term(), g.index(), ents(i + 1)); break; }
            case 2: l->Append(ents(r.chance(0.7) ? last + 1 : g.index())); break;
            case 3: l->CommitTo(g.index()); break;
            case 4: l->AppliedTo(g.index()); break;
            case 5: l->StableTo(g.index(), g.term()); break;
            case 6: l->StableSnapTo(g.index()); break;
            case 7: { auto s = std::make_shared<raftpb::Snapshot>(); g.snap(s.get(), r.chance(0.3)); l->Restore(s); break; }
            case 8: { auto [es, s] = l->Entries(g.index(), r.below(80)); for (auto& e : es) c.seen(e->index()); break; }
            case 9: { for (auto& e : l->NextEnts()) c.seen(e->index()); break; }
            case 10: l->FindConflictByTerm(g.index(), g.term()); l->IsUpToData(g.index(), g.term()); break;
            case 11: l->MaybeCommit(g.index(), g.term()); break;
            case 12: { auto un = l->UnstableEntries(); st->Append(un); if (!un.empty() && r.chance(0.8)) l->StableTo(un.back()->index(), un.back()->term()); if (l->HasPendingSnapshot()) { auto s = std::get<0>(l->Snapshot()); st->ApplySnapshot(s); l->StableSnapTo(s->metadata().index()); } break; }
            case 13: { auto [es, s] = l->Slice(g.index(), g.index(), r.below(80)); break; }
          }
          c.seen(hcomb(l->LastIndex(), l->Committed()));
        });
        if (!ok && r.chance(0.7)) fresh();
        c.ctr["C29.api_calls"]++;
      }
      break;
    }
    case 6: {  // configuration changer
      for (int k = 0; k < 20; k++) guarded([&] {
        ProgressTracker t(1 + r.below(4));
        auto cs = g.cs(r.chance(0.6));
        auto [cfg, prs, s] = Restore(Changer(lg, t, g.index()), cs);
        if (!s.IsOK()) return;
        t.SetConfig(cfg); t.SetProgressMap(prs);
        for (int j = 0; j < 5; j++) {
          Changer ch(lg, t, g.index());
          auto v2 = g.cc2();
          std::vector<raftpb::ConfChangeSingle> ccs; for (auto& x : v2.changes()) ccs.push_back(x);
          auto [c2, p2, s2] = r.chance(0.4) ? ch.EnterJoint(r.chance(0.5), ccs) : r.chance(0.5) ? ch.Simple(ccs) : ch.LeaveJoint();
          if (s2.IsOK()) { t.SetConfig(c2); t.SetProgressMap(p2); }
          t.RecordVote(g.id(), r.chance(0.5)); t.TallyVotes(); t.QuorumActive(); t.VoterNodes(); t.LearnerNodes();
          c.seen(hcomb(hstr(t.GetConfig().String() + t.ConfState().SerializeAsString()), t.Committed()));
          t.Visit([&](uint64_t, ProgressPtr& p) { p->MaybeUpdate(g.index()); p->MaybeDecrTo(g.index(), g.index()); if (r.chance(0.2)) p->BecomeSnapshot(g.index()); if (r.chance(0.2)) p->BecomeProbe(); if (r.chance(0.2)) p->BecomeReplicate(); if (r.chance(0.3)) p->OptimisticUpdate(g.index()); c.seen(hstr(p->String())); });
          c.ctr["C29.api_calls"]++;
        }
      });
      break;
    }
    case 7: {  // statuses, names, limits
      for (int k = 0; k < 20; k++) guarded([&] {
        auto s = craft::Status::Error("%s", std::string(r.below(3) ? r.below(100) : 1000 + r.below(200), 'e').c_str()), t = craft::Status::OK();
        craft::Status u = s; u = t; t = s; s = std::move(t); u = u; t = craft::Status::Error("x"); t = s; s = t;
        c.seen(hstr(s.Str()) + hstr(u.Str()));
        RaftStateTypeName((RaftStateType)r.below(6)); CampaignTypeName((CampaignType)r.below(6));
        EntryPtrs es; for (uint64_t n = r.below(6); n; n--) { auto e = std::make_shared<raftpb::Entry>(); g.fill(e.get(), n, 1); es.push_back(e); }
        c.seen(Util::LimitSize(std::move(es), g.near({0, 10, 40}, 0.2)).size());
        Ready rd; rd.snapshot = std::make_shared<raftpb::Snapshot>(); rd.must_sync = false; c.seen(hstr(rd.String())); rd.AppliedCursor();
        c.ctr["C29.api_calls"]++;
      });
      break;
    }
  }
  c.sample = fmt("%lu direct calls, %lu fatal reports", c.nops, c.ctr["C29.fatal_reports"]);
}
}  // namespace

const std::map<std::string, void (*)(Ctx&)>& modules() {
  static const std::map<std::string, void (*)(Ctx&)> m = {{"node", fuzz_node}, {"start", fuzz_start}, {"cluster", fuzz_cluster}, {"api", fuzz_api}};
  return m;
}
}  // namespace vv
