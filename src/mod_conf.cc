// C14, C15, C30: configuration algebra, restore, encodings.
#include "mod.h"
#include "src/confchange/confchange.h"
#include "src/confchange/restore.h"
#include "src/raftpb/confchange.h"
#include "src/raftpb/confstate.h"
#include "src/raftpb/raft.pb.h"
#include "src/rawnode.h"
using namespace craft;

namespace vv {
namespace {
using Ch = std::vector<std::pair<int, uint64_t>>;
std::string show(const Ch& ch) {
  std::string s;
  for (auto& x : ch) s += fmt("%s%lu ", x.first == 0 ? "v" : x.first == 1 ? "r" : x.first == 2 ? "u" : x.first == 3 ? "l" : "?", x.second);
  return s;
}
// number k of the configurations over ids 1..n in which each id has one of six roles
bool nth_conf(uint64_t k, int n, Conf& c) {
  c = Conf();
  for (int i = 1; i <= n; i++) {
    switch (k % 6) { case 1: c.V.insert(i); break; case 2: c.O.insert(i); break; case 3: c.V.insert(i); c.O.insert(i); break; case 4: c.L.insert(i); break; case 5: c.O.insert(i); c.LN.insert(i); break; }
    k /= 6;
  }
  return !c.V.empty();
}
uint64_t g_step = 1;  // distance of neighbouring ids: ids must not be narrowed
Conf rand_conf(Rng& r, int n) {
  Conf c;
  bool joint = r.chance(0.5);
  g_step = r.chance(0.1) ? 1ULL << (r.chance(0.5) ? 32 : 31) : 1;
  uint64_t off = r.chance(0.1) ? UINT64_MAX - 40 * g_step : 1;
  for (int i = 0; i < n; i++) {
    uint64_t id = off + i * g_step;
    switch (r.below(joint ? 6 : 3)) { case 0: break; case 1: c.V.insert(id); break; case 2: c.L.insert(id); break; case 3: c.V.insert(id); c.O.insert(id); break; case 4: c.O.insert(id); break; case 5: c.O.insert(id); c.LN.insert(id); break; }
  }
  if (c.V.empty()) c.V.insert(off + n * g_step);
  c.al = c.joint() && r.chance(0.5);
  return c;
}
ProgressTracker make_tracker(Ctx& x, const Conf& c, std::map<uint64_t, std::string>* desc = nullptr) {
  ProgressTracker t(7);
  ProgressTracker::Config g;
  g.voters = JointConfig(c.V, c.O); g.learners = c.L; g.learners_next = c.LN; g.auto_leave = c.al;
  ProgressMap pm;
  bool big = x.rng.chance(0.1);
  for (auto id : c.members()) {
    uint64_t m = (big ? 1ULL << 40 : 0) + x.rng.below(20);
    auto p = std::make_shared<Progress>(x.logger, m + 1 + x.rng.below(3), m, 7, c.L.count(id) > 0, x.rng.chance(0.5));
    if (x.rng.chance(0.3)) p->BecomeReplicate();
    if (p->State() == StateType::kReplicate && x.rng.chance(0.5)) p->GetInflights()->Add(m + 1);
    pm[id] = p;
  }
  t.SetConfig(g); t.SetProgressMap(pm);
  (void)desc;
  return t;
}
std::string pdesc(const Progress& cp) {
  Progress& p = const_cast<Progress&>(cp);
  return fmt("%lu/%lu/%d/%lu/%d/%d/%ld", p.Match(), p.Next(), (int)p.State(), p.PendingSnapshot(), (int)p.RecentActive(), (int)p.ProbeSent(), (long)p.GetInflights()->Count());
}
Conf conf_of(const ProgressTracker::Config& g) {
  Conf c;
  c.V = g.voters.Incoming().IDs(); c.O = g.voters.Outgoing().IDs(); c.L = g.learners; c.LN = g.learners_next; c.al = g.auto_leave;
  return c;
}
std::map<uint64_t, std::string> pdescs(const ProgressMap& m) { std::map<uint64_t, std::string> r; for (auto& p : m) r[p.first] = pdesc(*p.second) + (p.second->IsLearner() ? "L" : ""); return r; }

void well_formed(Ctx& x, const Conf& c, const ProgressMap& pm, const std::string& what) {
  if (c.V.empty()) x.viol("C14", "no-voters", what + " leaves no voter");
  for (auto id : c.L) if (c.V.count(id) || c.O.count(id)) x.viol("C14", "learner-is-voter", what + " makes a node learner and voter");
  for (auto id : c.LN) if (!c.O.count(id) || c.V.count(id)) x.viol("C14", "staged-not-outgoing", what + " stages a node that is not a demoted outgoing voter");
  if (!c.joint() && (c.al || !c.LN.empty())) x.viol("C14", "joint-leftovers", what + " leaves joint-only state");
  auto ms = c.members();
  bool ok = pm.size() == ms.size();
  for (auto& p : pm) ok = ok && ms.count(p.first) && p.second && p.second->IsLearner() == (c.L.count(p.first) > 0);
  if (!ok) x.viol("C14", "peer-set", what + ": the peers tracked are not the members, or wrong learner marks");
}

// one operation on one configuration
void judge(Ctx& x, const Conf& c, int kind, bool al, const Ch& ch) {
  x.nops++;
  auto t = make_tracker(x, c);
  auto before = pdescs(t.GetProgressMap());
  uint64_t last = 1 + x.rng.below(50);
  std::vector<raftpb::ConfChangeSingle> ccs;
  bool unknown = false;
  for (auto& p : ch) {
    raftpb::ConfChangeSingle s;
    if (p.first > 3) {
      // only what decoding can produce: the field is an open number on the wire
      std::string w; w += (char)0x08; w += (char)p.first;
      s.ParseFromString(w);
      if ((int)s.type() != p.first) continue;
    } else s.set_type((raftpb::ConfChangeType)p.first);
    s.set_node_id(p.second); ccs.push_back(s); unknown |= p.first > 3 && p.second;
  }
  Changer chg(x.logger, t, last);
  std::optional<Conf> want;
  static const char* names[] = {"simple", "enter-joint", "leave-joint"};
  auto what = fmt("%s(%s) on %s", names[kind], show(ch).c_str(), c.str().c_str());
  auto [cfg, pm, st] = kind == 0 ? chg.Simple(ccs) : kind == 1 ? chg.EnterJoint(al, ccs) : chg.LeaveJoint();
  want = kind == 0 ? ref_simple(c, ch) : kind == 1 ? ref_enter(c, al, ch) : ref_leave(c);
  if (unknown && kind != 2) want.reset();
  x.ctr["C14.transitions"]++;
  if (st.IsOK() != want.has_value()) x.viol("C14", st.IsOK() ? "invalid-accepted" : "valid-refused", what + (st.IsOK() ? fmt(" accepted, gives %s", conf_of(cfg).str().c_str()) : fmt(" refused: %s", st.Str())));
  auto& now = chg.GetProgressTracker();
  if (!st.IsOK()) {
    x.ctr["C14.refused"]++;
    if (conf_of(now.GetConfig()) != c || pdescs(now.GetProgressMap()) != before) x.viol("C14", "refused-but-changed", what + " was refused but changed the original");
    x.seen(hstr(what));
    return;
  }
  x.ctr["C14.accepted"]++;
  Conf got = conf_of(cfg);
  if (got != *want) x.viol("C14 C13", "wrong-configuration", what + fmt(" gives %s, expected %s", got.str().c_str(), want->str().c_str()));
  well_formed(x, got, pm, what);
  for (auto& p : pm) {
    auto it = before.find(p.first);
    auto d = pdesc(*p.second);
    if (it != before.end() && c.member(p.first)) {
      // a node removed and added again in one list may start afresh; otherwise its progress is kept
      bool removed = false;
      for (auto& q : ch) removed |= q.second == p.first && q.first == raftpb::ConfChangeRemoveNode;
      auto b = it->second; if (!b.empty() && b.back() == 'L') b.pop_back();
      if (!removed && d != b) x.viol("C14 C18", "progress-lost", what + fmt(": progress of %lu became %s, was %s", p.first, d.c_str(), b.c_str()));
    } else {
      Progress& q = *p.second;
      if (q.Match() != 0 || q.Next() > last + 1 || q.Next() < 1 || q.State() != StateType::kProbe || q.GetInflights()->Count() != 0) x.viol("C14 C06", "fresh-progress", what + fmt(": new peer %lu starts with %s", p.first, d.c_str()));
      if (!q.RecentActive()) x.viol("C14 C20", "fresh-inactive", what + fmt(": new peer %lu starts inactive", p.first));
      if (q.GetInflights()->Size() != 7) x.viol("C14 C18", "fresh-window", what + fmt(": new peer %lu has window %ld", p.first, (long)q.GetInflights()->Size()));
    }
  }
  if (kind == 0) {
    size_t d = 0;
    for (auto i : got.V) d += !c.V.count(i);
    for (auto i : c.V) d += !got.V.count(i);
    if (d > 1) x.viol("C14", "simple-changed-many", what + " changed more than one voter");
  }
  if (kind == 1 && got.O != c.V) x.viol("C14", "outgoing-not-previous", what + ": the outgoing half is not the previous configuration");
  x.seen(hcomb(hstr(what), hstr(got.str())));
}

Ch rand_changes(Rng& r, const Conf& c, int maxlen, int nid) {
  Ch ch;
  int n = (int)r.below(maxlen + 1);
  auto ms = c.members();
  uint64_t off = ms.empty() ? 1 : *ms.begin();
  if (off > 1 && off < 1000 * g_step) off = 1;
  for (int i = 0; i < n; i++) {
    uint64_t id = r.chance(0.05) ? 0 : off + r.below(nid) * g_step;
    int t = (int)r.below(4);
    if (r.chance(0.01)) t = (int)r.range(4, 9);
    ch.push_back({t, id});
  }
  return ch;
}
}  // namespace

void mod_change(Ctx& x) {
  auto& r = x.rng;
  if (x.idx < 216) {
    // exhaustive: every configuration over three ids, every list of at most two changes over them
    Conf c;
    if (!nth_conf(x.idx, 3, c)) { x.sample = "no voters"; return; }
    x.sample = fmt("every list of up to two changes on %s", c.str().c_str());
    for (int al = 0; al <= (c.joint() ? 1 : 0); al++) {
      c.al = al;
      judge(x, c, 2, false, {});
      for (int kind = 0; kind < 2; kind++)
        for (int a = 0; a <= 16; a++)
          for (int b = 0; b <= (a ? 16 : 0); b++) {
            Ch ch;
            if (a) ch.push_back({(a - 1) % 4, (uint64_t)(a - 1) / 4});
            if (b) ch.push_back({(b - 1) % 4, (uint64_t)(b - 1) / 4});
            judge(x, c, kind, (a + b) & 1, ch);
          }
    }
    return;
  }
  // random chains: a configuration evolves through accepted changes
  Conf c = rand_conf(r, (int)r.range(1, 7));
  x.sample = fmt("chain of 60 random changes from %s", c.str().c_str());
  for (int k = 0; k < 60; k++) {
    int kind = (int)r.below(3);
    bool al = r.chance(0.5);
    auto ch = rand_changes(r, c, r.chance(0.5) ? 1 : 5, 8);
    judge(x, c, kind, al, ch);
    auto n = kind == 0 ? ref_simple(c, ch) : kind == 1 ? ref_enter(c, al, ch) : ref_leave(c);
    if (n) c = *n;
    else if (r.chance(0.1)) c = rand_conf(r, (int)r.range(1, 7));
  }
}

// the forms Restore must carry over; any other stored form may only end in a fatal report
bool valid_conf(const Conf& c) {
  if (c.V.empty()) return false;
  for (auto id : c.L) if (c.voter(id)) return false;
  for (auto id : c.LN) if (!c.O.count(id) || c.V.count(id)) return false;
  for (auto* p : {&c.V, &c.O, &c.L, &c.LN}) if (p->count(0)) return false;
  return c.joint() || (!c.al && c.LN.empty());
}
// a node started from stored state, and one that receives a snapshot: the node's configuration is the stored one, or it does not run
void node_from(Ctx& x, const raftpb::ConfState& cs, const Conf& c, bool repeated) {
  auto& r = x.rng;
  auto ms = c.members();
  for (int how = 0; how < 2; how++) {
    uint64_t me = 0;
    if (!ms.empty()) { auto it = ms.begin(); std::advance(it, r.below(ms.size())); me = *it; }
    if (how == 0 && r.chance(0.1)) me = 77777;
    if (me == 0) continue;
    Raft::Config g;
    g.id = me; g.election_tick = 10; g.heartbeat_tick = 1; g.max_size_per_msg = 1000; g.max_inflight_msgs = 4; g.logger = x.logger;
    auto st = std::make_shared<MemoryStorage>(x.logger);
    g.storage = st;
    auto sn = std::make_shared<raftpb::Snapshot>();
    sn->mutable_metadata()->set_index(r.range(1, 9)); sn->mutable_metadata()->set_term(r.range(1, 3));
    *sn->mutable_metadata()->mutable_conf_state() = cs;
    std::unique_ptr<RawNode> n;
    bool fatal;
    if (how == 0) {
      fatal = x.panics([&] { st->ApplySnapshot(sn); n = RawNode::New(g); });
    } else {
      auto s0 = std::make_shared<raftpb::Snapshot>();
      s0->mutable_metadata()->set_index(1); s0->mutable_metadata()->set_term(1); s0->mutable_metadata()->mutable_conf_state()->add_voters(me); s0->mutable_metadata()->mutable_conf_state()->add_voters(me + 1);
      if (r.chance(0.3)) { s0->mutable_metadata()->mutable_conf_state()->add_voters_outgoing(me); s0->mutable_metadata()->mutable_conf_state()->add_learners(me + 2); }
      if (r.chance(0.5)) st->ApplySnapshot(s0);
      sn->mutable_metadata()->set_index(r.range(5, 9)); sn->mutable_metadata()->set_term(3);
      n = RawNode::New(g);
      auto m = std::make_shared<raftpb::Message>();
      m->set_type(raftpb::MsgSnap); m->set_from(me + 1); m->set_to(me); m->set_term(4); *m->mutable_snapshot() = *sn;
      fatal = x.panics([&] { n->Step(m); });
    }
    x.nops++;
    bool valid = valid_conf(c) && !repeated;
    const char* w = how ? "a node receiving it in a snapshot" : "a node started from it";
    x.ctr[fatal ? "C15.invalid_stored_refused" : "C15.nodes_restored"]++;
    if (fatal && valid) x.viol("C15", "node-restore-refused", fmt("stored %s: %s ends in a fatal report", c.str().c_str(), w));
    if (fatal) continue;
    Conf got = conf_of(n->GetStatus().config);
    if (got != c) x.viol("C15", "node-restored-differently", fmt("stored %s: %s runs with %s", c.str().c_str(), w, got.str().c_str()));
  }
}

void mod_restore(Ctx& x) {
  auto& r = x.rng;
  auto one = [&](const Conf& c) {
    x.nops++;
    auto cs = to_cs(c);
    auto shuffle = [&](google::protobuf::RepeatedField<google::protobuf::uint64>* f) { for (int i = f->size() - 1; i > 0; i--) f->SwapElements(i, (int)r.below(i + 1)); };
    shuffle(cs.mutable_voters()); shuffle(cs.mutable_learners()); shuffle(cs.mutable_voters_outgoing()); shuffle(cs.mutable_learners_next());
    uint64_t last = 1 + r.below(100);
    auto orig = cs.SerializeAsString();
    auto [cfg, pm, st] = Restore(Changer(x.logger, ProgressTracker(9), last), cs);
    x.ctr["C15.restores"]++;
    if (!st.IsOK()) x.viol("C15", "restore-refused", fmt("restoring %s: %s", c.str().c_str(), st.Str()));
    if (conf_of(cfg) != c) x.viol("C15", "restore-differs", fmt("restoring %s gives %s", c.str().c_str(), conf_of(cfg).str().c_str()));
    auto ms = c.members();
    bool ok = pm.size() == ms.size();
    for (auto& p : pm) ok = ok && ms.count(p.first) && p.second->IsLearner() == (c.L.count(p.first) > 0) && p.second->Match() == 0 && p.second->GetInflights()->Size() == 9;
    if (!ok) x.viol("C15 C14", "restore-peers", fmt("restoring %s: wrong peers", c.str().c_str()));
    ProgressTracker t(9);
    t.SetConfig(cfg); t.SetProgressMap(pm);
    auto back = t.ConfState();
    if (from_cs(back) != c) x.viol("C15", "confstate-differs", fmt("%s serialises to %s", c.str().c_str(), from_cs(back).str().c_str()));
    if (back.voters_size() != (int)c.V.size() || back.voters_outgoing_size() != (int)c.O.size() || back.learners_size() != (int)c.L.size() || back.learners_next_size() != (int)c.LN.size())
      x.viol("C15", "confstate-duplicates", fmt("%s serialises with repeated members", c.str().c_str()));
    if (!(back == cs) || !(cs == back)) x.viol("C15", "equality-false", fmt("the serialised form of %s does not compare equal to the original", c.str().c_str()));
    if (cs.SerializeAsString() != orig) x.viol("C15", "equality-changed-argument", "comparing or restoring changed its argument");
    node_from(x, cs, c, false);
    // equality against neighbours
    for (int k = 0; k < 12; k++) {
      Conf d = c;
      switch (r.below(10)) {
        case 8: {  // the same sizes in every role, one other member in one role
          IdSet* s[4] = {&d.V, &d.O, &d.L, &d.LN};
          IdSet* p = s[r.below(4)];
          for (int q = 0; q < 4 && p->empty(); q++) p = s[q];
          if (p->empty()) break;
          auto it = p->begin(); std::advance(it, r.below(p->size()));
          p->erase(it);
          uint64_t v;
          do v = r.range(1, 30); while (p->count(v));
          p->insert(v);
          break;
        }
        case 9: {  // one member in another role
          IdSet* s[4] = {&d.V, &d.O, &d.L, &d.LN};
          IdSet *p = s[r.below(4)], *q = s[r.below(4)];
          if (p->empty()) break;
          auto it = p->begin(); std::advance(it, r.below(p->size()));
          uint64_t v = *it;
          p->erase(it); q->insert(v);
          break;
        }
        case 0: d.al = !d.al; break;
        case 1: if (!d.V.empty()) d.V.erase(d.V.begin()); break;
        case 2: d.V.insert(r.range(1, 9)); break;
        case 3: d.L.insert(r.range(1, 9)); break;
        case 4: std::swap(d.V, d.O); break;
        case 5: std::swap(d.L, d.LN); break;
        case 6: d.O.clear(); break;
        case 7: if (!d.LN.empty()) d.LN.erase(d.LN.begin()); else d.LN.insert(r.range(1, 9)); break;
      }
      auto ds = to_cs(d);
      shuffle(ds.mutable_voters()); shuffle(ds.mutable_learners()); shuffle(ds.mutable_voters_outgoing()); shuffle(ds.mutable_learners_next());
      x.ctr["C15.comparisons"]++;
      if (k < 2) {
        bool rep = r.chance(0.1) && ds.voters_size();
        if (rep) ds.add_voters(ds.voters(0));
        node_from(x, ds, d, rep);
        if (rep) ds.mutable_voters()->RemoveLast();
      }
      if ((ds == cs) != (d == c) || (cs == ds) != (d == c)) x.viol("C15", "equality-wrong", fmt("%s and %s compare %s", c.str().c_str(), d.str().c_str(), d == c ? "unequal" : "equal"));
    }
    x.seen(hcomb(hstr(c.str()), hstr(orig)));
  };
  if (x.idx < 1296) {
    Conf c;
    x.sample = "one of all configurations over four ids";
    if (!nth_conf(x.idx, 4, c)) return;
    x.sample = fmt("%s (one of all configurations over four ids)", c.str().c_str());
    one(c);
    if (c.joint()) { c.al = true; one(c); }
    return;
  }
  for (int k = 0; k < 15; k++) { Conf c = rand_conf(r, (int)r.range(1, 12)); if (!k) x.sample = c.str(); one(c); }
}

void mod_encoding(Ctx& x) {
  auto& r = x.rng;
  auto rid = [&]() -> uint64_t { return r.chance(0.1) ? 0 : r.chance(0.1) ? UINT64_MAX - r.below(2) : r.chance(0.3) ? r.next() : r.below(10); };
  auto rctx = [&] { std::string s; int n = r.chance(0.4) ? 0 : (int)r.below(20); for (int i = 0; i < n; i++) s.push_back((char)r.below(256)); return s; };
  for (int k = 0; k < 40; k++) {
    x.nops++;
    // old form
    raftpb::ConfChange a;
    a.set_type((raftpb::ConfChangeType)r.below(4)); a.set_node_id(rid()); a.set_context(rctx());
    if (r.chance(0.2)) a.set_id(r.next());
    ConfChangeI ia(a);
    auto [t1, d1, ok1] = ia.Marshal();
    raftpb::ConfChange b;
    x.ctr["C30.v1"]++;
    if (!ok1 || t1 != raftpb::EntryConfChange || !b.ParseFromString(d1) || b.type() != a.type() || b.node_id() != a.node_id() || b.context() != a.context() || b.id() != a.id())
      x.viol("C30", "v1-roundtrip", fmt("old-form change type %d node %lu does not survive encoding", a.type(), a.node_id()));
    auto v2 = ia.AsV2();
    if (v2.changes_size() != 1 || v2.changes(0).type() != a.type() || v2.changes(0).node_id() != a.node_id() || v2.context() != a.context() || v2.transition() != raftpb::ConfChangeTransitionAuto)
      x.viol("C30", "v1-meaning", fmt("old-form change type %d node %lu has another meaning in new form", a.type(), a.node_id()));
    auto [back, was1] = ia.AsV1();
    if (!was1 || back.SerializeAsString() != a.SerializeAsString()) x.viol("C30", "v1-as-v1", "the old form is not returned unchanged");
    // new form
    raftpb::ConfChangeV2 c;
    int n = r.chance(0.3) ? 0 : (int)r.below(5);
    for (int i = 0; i < n; i++) { auto* s = c.add_changes(); s->set_type((raftpb::ConfChangeType)r.below(4)); s->set_node_id(rid()); }
    c.set_transition((raftpb::ConfChangeTransition)r.below(3)); c.set_context(rctx());
    ConfChangeI ic(c);
    auto [t2, d2, ok2] = ic.Marshal();
    raftpb::ConfChangeV2 e;
    x.ctr["C30.v2"]++;
    if (!ok2 || t2 != raftpb::EntryConfChangeV2 || !e.ParseFromString(d2) || e.SerializeAsString() != c.SerializeAsString() || e.changes_size() != n) x.viol("C30", "v2-roundtrip", "new-form change does not survive encoding");
    if (ic.AsV2().SerializeAsString() != c.SerializeAsString()) x.viol("C30", "v2-as-v2", "the new form is not returned unchanged");
    auto [dummy, isv1] = ic.AsV1(); (void)dummy;
    if (isv1) x.viol("C30", "v2-as-v1", "a new-form change claims to be old-form");
    auto [al, joint] = EnterJoint(x.logger, c);
    bool wj = c.transition() != raftpb::ConfChangeTransitionAuto || n > 1;
    if (joint != wj || al != (wj && c.transition() != raftpb::ConfChangeTransitionJointExplicit)) x.viol("C30 C13", "enter-joint-rule", fmt("%d changes, transition %d: joint %d auto-leave %d", n, c.transition(), joint, al));
    auto lc = c;
    if (craft::LeaveJoint(lc) != (n == 0 && c.transition() == raftpb::ConfChangeTransitionAuto)) x.viol("C30 C13", "leave-joint-rule", fmt("%d changes, transition %d, context %zu bytes: leave request %d", n, c.transition(), c.context().size(), !(n == 0 && c.transition() == raftpb::ConfChangeTransitionAuto)));
    // setters
    ConfChangeI is;
    if (!is.IsNull()) x.viol("C30", "null-test", "a fresh change is not null");
    if (r.chance(0.5)) { auto m = a; is.SetConfChange(std::move(m)); } else { auto m = c; is.SetConfChange(std::move(m)); }
    if (is.IsNull()) x.viol("C30", "null-test", "a set change is null");
    // text
    std::vector<raftpb::ConfChangeSingle> l;
    std::string want;
    int m = (int)r.below(6);
    for (int i = 0; i < m; i++) {
      raftpb::ConfChangeSingle s; s.set_type((raftpb::ConfChangeType)r.below(4)); s.set_node_id(rid()); l.push_back(s);
    }
    auto txt = ConfChangesToString(l);
    auto [pl, ps] = ConfChangesFromString(txt);
    x.ctr["C30.text"]++;
    bool same = ps.IsOK() && pl.size() == l.size();
    for (size_t i = 0; same && i < l.size(); i++) same = pl[i].type() == l[i].type() && pl[i].node_id() == l[i].node_id();
    if (!same) x.viol("C30", "text-roundtrip", fmt("'%s' does not parse back to the same list", txt.c_str()));
    if (!k) x.sample = fmt("old form type %d node %lu; new form %d changes; text '%s'", a.type(), a.node_id(), n, txt.c_str());
    // malformed text
    std::string s = txt;
    static const char alpha[] = "vlrux0123456789 -+.\tV,";
    int mut = (int)r.range(1, 3);
    while (mut--) {
      char ch = alpha[r.below(sizeof alpha - 1)];
      size_t p = s.empty() ? 0 : r.below(s.size() + 1);
      switch (r.below(3)) { case 0: s.insert(p, 1, ch); break; case 1: if (p < s.size()) s[p] = ch; break; case 2: if (p < s.size()) s.erase(p, 1); break; }
    }
    // reference reading: blanks trimmed, tokens separated by one blank, [vlru]digits that fit 64 bits
    std::vector<std::pair<int, uint64_t>> ref; bool valid = true, vague = s.find("  ") != std::string::npos;
    {
      size_t b0 = s.find_first_not_of(' ');
      std::string u = b0 == std::string::npos ? "" : s.substr(b0, s.find_last_not_of(' ') - b0 + 1);
      std::stringstream ss(u); std::string tok;
      if (b0 != 0 && b0 != std::string::npos) vague = vague || false;
      while (valid && std::getline(ss, tok, ' ')) {
        if (tok.empty()) { valid = false; break; }
        const char* ty = "vrul"; const char* q = strchr(ty, tok[0]);
        if (tok.size() < 2 || !q || tok.find_first_not_of("0123456789", 1) != std::string::npos) { valid = false; break; }
        unsigned __int128 v = 0; for (size_t i = 1; i < tok.size(); i++) { v = v * 10 + (tok[i] - '0'); if (v > UINT64_MAX) { valid = false; break; } }
        ref.push_back({(int)(q - ty), (uint64_t)v});
      }
    }
    auto [ml, ms] = ConfChangesFromString(s);
    if (!vague) {
      x.ctr[valid ? "C30.text" : "C30.malformed"]++;
      if (ms.IsOK() != valid) x.viol("C30", valid ? "text-refused" : "malformed-accepted", fmt("'%s' is %s", s.c_str(), valid ? "refused" : "accepted"));
      if (valid) {
        bool eq = ml.size() == ref.size();
        for (size_t i = 0; eq && i < ref.size(); i++) eq = (int)ml[i].type() == ref[i].first && ml[i].node_id() == ref[i].second;
        if (!eq) x.viol("C30", "text-meaning", fmt("'%s' parses to another list", s.c_str()));
      }
    }
    x.seen(hcomb(hstr(d1), hcomb(hstr(d2), hstr(s))));
  }
}
}  // namespace vv
