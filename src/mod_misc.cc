// C18 (window container), C25 (probing), C34 (bootstrap), C23 (distribution of waits).
#include <deque>
#include <thread>
#include "mod.h"
#include "src/rawnode.h"
#include "src/tracker/inflights.h"
using namespace craft;

namespace vv {
namespace {
using Msg = raftpb::Message;
using MsgP = std::shared_ptr<Msg>;
Raft::Config config(Ctx& c, uint64_t id, std::shared_ptr<Storage> st, int E, int H) {
  Raft::Config g;
  g.id = id; g.election_tick = E; g.heartbeat_tick = H; g.storage = st; g.max_size_per_msg = UINT64_MAX; g.max_inflight_msgs = 64; g.logger = c.logger;
  return g;
}
// One batch of a node: persist, hand the messages out, apply, advance.
template <class F> void drain(RawNode& n, MemoryStorage& st, F send, std::vector<EntryPtr>* applied = nullptr) {
  for (int k = 0; k < 1000 && n.HasReady(); k++) {
    auto rd = n.GetReady();
    if (rd->snapshot && rd->snapshot->metadata().index()) st.ApplySnapshot(rd->snapshot);
    EntryPtrs es(rd->entries.begin(), rd->entries.end());
    st.Append(es);
    if (!IsEmptyHardState(rd->hard_state)) st.SetHardState(rd->hard_state);
    for (auto& m : rd->messages) send(std::make_shared<Msg>(*m));
    for (auto& e : rd->committed_entries) {
      if (applied) applied->push_back(e);
      if (e->type() == raftpb::EntryConfChange) { raftpb::ConfChange cc; cc.ParseFromString(e->data()); n.ApplyConfChange(ConfChangeI(cc)); }
    }
    n.Advance();
  }
}
}  // namespace

void mod_inflights(Ctx& c) {
  auto& r = c.rng;
  int64_t size = r.chance(0.3) ? r.range(1, 3) : r.chance(0.1) ? (r.chance(0.3) ? INT64_MAX - (int64_t)r.below(3) : (1LL << r.range(29, 62)) + (int64_t)r.range(-1, 1)) : r.range(1, 40);
  auto f = std::make_unique<Inflights>(c.logger, size);
  std::deque<uint64_t> m;
  uint64_t next = 1;
  std::string trace;
  std::vector<std::pair<std::unique_ptr<Inflights>, std::deque<uint64_t>>> clones;
  auto same = [&](Inflights& x, const std::deque<uint64_t>& q, const std::string& w) {
    c.ctr["C18.window_ops"]++;
    if (x.Count() != (int64_t)q.size()) c.viol("C18", "window-count", fmt("after %s: %ld in flight, expected %zu (window %ld)", w.c_str(), (long)x.Count(), q.size(), (long)size));
    if (x.Full() != ((int64_t)q.size() == size)) c.viol("C18", "window-full", fmt("after %s: full %d with %zu of %ld", w.c_str(), x.Full(), q.size(), (long)size));
  };
  for (int k = 0, n = (int)r.range(20, 300); k < n; k++) {
    c.nops++;
    std::string w;
    int o = (int)r.below(100);
    if (o < 55) {
      if ((int64_t)m.size() < size) { next += r.chance(0.1) ? 0 : r.range(1, 4); f->Add(next); m.push_back(next); w = fmt("add %lu", next); if ((int64_t)m.size() == size) c.ctr["C18.window_full"]++; }
      else { w = "add to a full window"; bool p = c.panics([&] { f->Add(next + 1); }); if (!p) c.viol("C18", "window-overflow", "a full window accepted another message"); }
    } else if (o < 85) {
      uint64_t to = m.empty() || r.chance(0.1) ? r.below(next + 3) : r.chance(0.15) ? m.front() - 1 : m[r.below(m.size())] + (r.chance(0.2) ? 1 : 0);
      w = fmt("free up to %lu", to);
      f->FreeLE(to);
      while (!m.empty() && m.front() <= to) m.pop_front();
    } else if (o < 94) {
      w = "free first"; f->FreeFirstOne();
      if (!m.empty()) { uint64_t x = m.front(); while (!m.empty() && m.front() <= x) m.pop_front(); }
    } else if (o < 96) { w = "reset"; f->Reset(); m.clear(); }
    else if (o < 98 && clones.size() < 4) { w = "clone"; clones.push_back({f->Clone(), m}); }
    else if (!clones.empty()) { w = "use clone"; auto& x = clones[r.below(clones.size())]; x.first->FreeFirstOne(); if (!x.second.empty()) { uint64_t y = x.second.front(); while (!x.second.empty() && x.second.front() <= y) x.second.pop_front(); } same(*x.first, x.second, w); }
    same(*f, m, w.empty() ? "nothing" : w);
    for (auto& x : clones) same(*x.first, x.second, "cloned window after " + w);
    // what is still in flight, seen from outside: freeing just below / at each recorded index of a clone
    if (r.chance(0.2)) {
      auto cl = f->Clone(); auto q = m;
      for (size_t i = 0; i < m.size(); i++) {
        if (m[i]) { cl->FreeLE(m[i] - 1); while (!q.empty() && q.front() <= m[i] - 1) q.pop_front(); same(*cl, q, w + ", then freeing below an element"); }
        cl->FreeLE(m[i]); while (!q.empty() && q.front() <= m[i]) q.pop_front(); same(*cl, q, w + ", then freeing up to an element");
      }
    }
    c.log("%s -> %zu", w.c_str(), m.size());
    c.seen(hcomb(m.size() * 64 + (size > 40 ? 41 : size), hcomb((uint64_t)o / 5, next - (m.empty() ? next : m.front()))));
    if (k < 8) trace += (k ? "; " : "") + w;
  }
  c.sample = fmt("window of %ld: ", (long)size) + trace;
}

void mod_probe(Ctx& c) {
  auto& r = c.rng;
  // two logs with a common prefix; a term occurs in at most one of the tails, and terms never decrease along a log
  uint64_t base = r.chance(0.3) ? r.range(2, 20) : 1;   // the snapshot everyone starts from
  struct Log { std::vector<uint64_t> t; } A, B;
  uint64_t term = 1;
  int pre = (int)r.below(r.chance(0.3) ? 60 : 8);
  auto runlen = [&] { return (int)(r.chance(0.25) ? r.range(20, 120) : r.range(1, 6)); };
  for (int i = 0; i < pre; i++) { term += r.chance(0.2); A.t.push_back(term); }
  B = A;
  int maxa = (int)r.below(6), maxb = (int)r.below(6);
  uint64_t ta = term, tb = term;
  // interleave the terms of the two tails at random
  int style = (int)r.below(4);
  std::vector<int> order; for (int i = 0; i < maxa; i++) order.push_back(0); for (int i = 0; i < maxb; i++) order.push_back(1);
  if (style == 0) std::reverse(order.begin(), order.end());
  else if (style == 1) { std::stable_sort(order.begin(), order.end()); for (size_t i = 0; i < order.size(); i++) order[i] = (int)(i % 2) ^ (int)(c.idx & 1); }
  else if (style == 2) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
  bool first = true;
  int da = 0, db = 0;
  for (int w : order) {
    if (!(first && r.chance(0.3) && pre)) term++;
    first = false;
    int n = runlen();
    if (w == 0) { ta = term; da++; for (int i = 0; i < n; i++) A.t.push_back(term); } else { tb = term; db++; for (int i = 0; i < n; i++) B.t.push_back(term); }
  }
  (void)ta; (void)tb;
  // node 1 leads, node 3 has the leader's log and votes for it, node 2 diverged
  uint64_t common = base + pre, commit = base + r.below((uint64_t)pre + 1);
  std::map<uint64_t, std::shared_ptr<MemoryStorage>> st;
  std::map<uint64_t, std::unique_ptr<RawNode>> nd;
  uint64_t compact_to = base + (r.chance(0.3) ? r.below(commit - base + 1) : 0);
  for (uint64_t id = 1; id <= 3; id++) {
    auto s = std::make_shared<MemoryStorage>(c.logger);
    auto sn = std::make_shared<raftpb::Snapshot>();
    sn->mutable_metadata()->set_index(base); sn->mutable_metadata()->set_term(1);
    for (uint64_t v = 1; v <= 3; v++) sn->mutable_metadata()->mutable_conf_state()->add_voters(v);
    s->ApplySnapshot(sn);
    EntryPtrs es; auto& L = id == 2 ? B : A;
    for (size_t i = 0; i < L.t.size(); i++) { auto e = std::make_shared<raftpb::Entry>(); e->set_index(base + 1 + i); e->set_term(L.t[i]); e->set_data(fmt("%lu@%lu", base + 1 + i, L.t[i])); es.push_back(e); }
    s->Append(es);
    raftpb::HardState h; h.set_term(term); h.set_commit(commit); s->SetHardState(h);
    if (compact_to > base && r.chance(0.7)) { s->CreateSnapshot(compact_to, nullptr, "s"); s->Compact(compact_to); }
    st[id] = s;
    auto g = config(c, id, s, 10, 1); g.applied = 0;
    if (r.chance(0.3)) g.max_size_per_msg = r.below(60);
    nd[id] = RawNode::New(g);
  }
  std::deque<MsgP> net;
  uint64_t rejects = 0, probes = 0, appends = 0;
  bool stall = false;
  auto send = [&](MsgP m) { net.push_back(m); };
  auto pump = [&] {
    for (int k = 0; k < 20000; k++) {
      for (uint64_t id = 1; id <= 3; id++) drain(*nd[id], *st[id], send);
      if (net.empty()) return;
      auto m = net.front(); net.pop_front();
      if (m->from() == 2 && m->type() == raftpb::MsgAppResp && m->reject()) rejects++;
      if (m->to() == 2 && m->type() == raftpb::MsgApp) appends++;
      c.nops++;
      c.log("%s %lu->%lu t=%lu lt=%lu i=%lu n=%d rej=%d hint=%lu", raftpb::MessageType_Name(m->type()).c_str(), m->from(), m->to(), m->term(), m->logterm(), m->index(), m->entries_size(), m->reject(), m->rejecthint());
      auto it = nd.find(m->to());
      if (it != nd.end()) it->second->Step(m);
    }
    stall = true;
  };
  (void)probes;
  pump();
  nd[1]->Campaign();
  pump();
  std::string d = fmt("common %d entries, leader tail %zu entries of %d terms, follower tail %zu entries of %d terms", pre, A.t.size() - pre, da, B.t.size() - pre, db);
  c.sample = d + fmt(": %lu rejections", rejects);
  c.ctr["C25.rejections"] += rejects; c.ctr["C25.rejections_max"] = std::max(c.ctr["C25.rejections_max"], rejects); c.ctr["C25.reconciliations"]++;
  if (stall) c.viol("C25 C24", "probe-endless", "messages never stop: " + d);
  if (nd[1]->GetBasicStatus().soft_state.raft_state != RaftStateType::kLeader) {
    // the diverged node may have a better log than a majority of one: node 3 and node 1 always suffice
    c.viol("C25 C24", "probe-no-leader", "node 1 did not win with node 3's log equal to its own: " + d);
  }
  if (rejects) c.ctr["C25.diverged"]++;
  if (rejects > (uint64_t)(da + db + 1)) c.viol("C25", "too-many-probes", fmt("%lu rejected probes for %s", rejects, d.c_str()));
  auto [l1, s1] = st[1]->LastIndex(); auto [l2, s2] = st[2]->LastIndex(); auto [f1, s3] = st[1]->FirstIndex(); auto [f2, s4] = st[2]->FirstIndex();
  if (l1 != l2) c.viol("C25 C24", "probe-not-reconciled", fmt("the follower ends at %lu, the leader at %lu: %s", l2, l1, d.c_str()));
  for (uint64_t i = std::max(f1, f2); i <= l1; i++) {
    auto [a, x] = st[1]->Entries(i, i + 1, UINT64_MAX); auto [b, y] = st[2]->Entries(i, i + 1, UINT64_MAX);
    if (a[0]->SerializeAsString() != b[0]->SerializeAsString()) c.viol("C25 C03", "probe-different-log", fmt("logs differ at %lu: %s", i, d.c_str()));
  }
  // the commit index reaches the follower with the next heartbeat at the latest
  for (int k = 0; k < 3; k++) { nd[1]->Tick(); pump(); }
  if (nd[2]->GetBasicStatus().hard_state.commit() != l1) c.viol("C25 C06 C24", "probe-commit-lags", fmt("follower committed %lu of %lu: %s", nd[2]->GetBasicStatus().hard_state.commit(), l1, d.c_str()));
  (void)common; (void)s1; (void)s2; (void)s3; (void)s4;
  c.seen(hstr(d + fmt("%lu", rejects)));
}

void mod_bootstrap(Ctx& c) {
  auto& r = c.rng;
  int n = (int)r.range(1, 7);
  std::vector<Peer> peers; IdSet ids;
  while ((int)peers.size() < n) {
    uint64_t id = r.chance(0.1) ? UINT64_MAX - 1 - r.below(50) : r.range(1, 12);
    if (!ids.insert(id).second) continue;
    std::string ctx; for (int i = 0, k = (int)r.below(r.chance(0.1) ? 200 : 12); i < k; i++) ctx += (char)r.below(256);
    peers.push_back({id, ctx});
  }
  c.sample = fmt("%d peers", n);
  std::string ref;
  for (auto& p : peers) {
    auto st = std::make_shared<MemoryStorage>(c.logger);
    auto g = config(c, p.id, st, (int)r.range(3, 12), 1);
    g.pre_vote = r.chance(0.5); g.check_quorum = r.chance(0.5);
    auto node = RawNode::Start(g, peers);
    c.nops++; c.ctr["C34.nodes"]++;
    auto b = node->GetBasicStatus();
    if (b.hard_state.term() != 1 || b.hard_state.vote() != 0 || b.hard_state.commit() != (uint64_t)n) c.viol("C34", "bootstrap-state", fmt("term %lu vote %lu commit %lu with %d peers", b.hard_state.term(), b.hard_state.vote(), b.hard_state.commit(), n));
    if (b.soft_state.raft_state != RaftStateType::kFollower || b.soft_state.lead != 0) c.viol("C34", "bootstrap-role", "a bootstrapped node is not a follower without leader");
    Conf w; w.V = ids;
    auto cf = from_cs(node->GetRaft()->GetTracker().ConfState());
    if (cf != w) c.viol("C34", "bootstrap-conf", "configuration " + cf.str() + ", expected " + w.str());
    if (!node->HasReady()) c.viol("C34", "bootstrap-no-batch", "a bootstrapped node has nothing to persist");
    auto rd = node->GetReady();
    std::string d = rd->hard_state.SerializeAsString() + "|";
    if (rd->hard_state.term() != 1 || rd->hard_state.commit() != (uint64_t)n) c.viol("C34 C08", "bootstrap-hardstate", "the first batch does not carry the initial hard state");
    if (rd->entries.size() != (size_t)n) c.viol("C34 C08", "bootstrap-entries", fmt("%zu initial entries for %d peers", rd->entries.size(), n));
    if (rd->committed_entries.size() != (size_t)n) c.viol("C34 C05", "bootstrap-delivery", fmt("%zu initial entries delivered for %d peers", rd->committed_entries.size(), n));
    for (size_t i = 0; i < rd->entries.size(); i++) {
      auto& e = rd->entries[i];
      d += e->SerializeAsString();
      raftpb::ConfChange cc;
      if (e->index() != i + 1 || e->term() != 1 || e->type() != raftpb::EntryConfChange || !cc.ParseFromString(e->data())) c.viol("C34", "bootstrap-entries", "an initial entry is malformed");
      if (cc.type() != raftpb::ConfChangeAddNode || cc.node_id() != peers[i].id || cc.context() != peers[i].context) c.viol("C34", "bootstrap-context", fmt("initial entry %zu does not add peer %lu with its context", i + 1, peers[i].id));
      if (rd->committed_entries[i]->SerializeAsString() != e->SerializeAsString()) c.viol("C34 C05", "bootstrap-delivery", "delivered entries differ from the initial log");
    }
    if (ref.empty()) ref = d; else if (d != ref) c.viol("C34", "bootstrap-differs", "two nodes started with the same peers have different initial logs");
    EntryPtrs es(rd->entries.begin(), rd->entries.end()); st->Append(es); st->SetHardState(rd->hard_state);
    std::string k1;
    raftpb::ConfState last;
    for (auto& e : rd->committed_entries) { raftpb::ConfChange cc; cc.ParseFromString(e->data()); last = node->ApplyConfChange(ConfChangeI(cc)); }
    if (from_cs(last) != w) c.viol("C34 C13", "bootstrap-conf", "configuration after applying the initial entries is " + from_cs(last).str());
    node->Advance();
    // a second time over what is now there
    auto again = [&](std::vector<Peer> ps, const char* what) {
      auto before = node->GetBasicStatus(); bool hr = node->HasReady();
      auto [l0, x0] = st->LastIndex();
      uint64_t rl = node->GetRaft()->GetRaftLog()->LastIndex();
      auto s = node->Bootstrap(ps);
      c.ctr["C34.refused"]++;
      auto after = node->GetBasicStatus();
      auto [l1, x1] = st->LastIndex();
      if (s.IsOK()) c.viol("C34", "bootstrap-not-refused", what);
      if (after.hard_state.SerializeAsString() != before.hard_state.SerializeAsString() || node->HasReady() != hr || l0 != l1 || rl != node->GetRaft()->GetRaftLog()->LastIndex() ||
          from_cs(node->GetRaft()->GetTracker().ConfState()) != w || after.soft_state.raft_state != before.soft_state.raft_state)
        c.viol("C34", "bootstrap-refused-changed", std::string("a refused bootstrap changed the node: ") + what);
    };
    again(peers, "over its own log");
    again({}, "with no peers");
    again({{99, "x"}}, "with other peers");
    c.seen(hstr(d));
  }
  // refusals on fresh nodes
  for (int k = 0; k < 3; k++) {
    auto st = std::make_shared<MemoryStorage>(c.logger);
    if (k == 1) { EntryPtrs v; for (uint64_t i = 1, q = r.range(1, 3); i <= q; i++) { auto e = std::make_shared<raftpb::Entry>(); e->set_index(i); e->set_term(1); v.push_back(e); } st->Append(v); }
    if (k == 2) { auto sn = std::make_shared<raftpb::Snapshot>(); sn->mutable_metadata()->set_index(r.range(1, 5)); sn->mutable_metadata()->set_term(1); sn->mutable_metadata()->mutable_conf_state()->add_voters(1); st->ApplySnapshot(sn); }
    auto node = RawNode::New(config(c, 1, st, 5, 1));
    auto t0 = node->GetBasicStatus(); bool hr = node->HasReady(); uint64_t l0 = node->GetRaft()->GetRaftLog()->LastIndex();
    auto s = node->Bootstrap(k == 0 ? std::vector<Peer>{} : peers);
    c.ctr["C34.refused"]++;
    auto t1 = node->GetBasicStatus();
    if (s.IsOK()) c.viol("C34", "bootstrap-not-refused", k == 0 ? "bootstrap with no peers was accepted" : "bootstrap over a non-empty storage was accepted");
    if (t0.hard_state.SerializeAsString() != t1.hard_state.SerializeAsString() || hr != node->HasReady() || l0 != node->GetRaft()->GetRaftLog()->LastIndex() || (k < 2 && !from_cs(node->GetRaft()->GetTracker().ConfState()).members().empty()))
      c.viol("C34", "bootstrap-refused-changed", k == 0 ? "a refused bootstrap with no peers changed the node" : "a refused bootstrap over a non-empty storage changed the node");
  }
}

void mod_timeouts(Ctx& c) {
  auto& r = c.rng;
  int E = (int)r.range(2, 20);
  bool pv = r.chance(0.5), cq = r.chance(0.3);
  // the wait before each campaign of a node nobody answers
  auto waits = [&](uint64_t seed, int n, bool between) {
    std::vector<uint64_t> out;
    std::thread th([&] {
      set_random_device_seed(seed);
      auto st = std::make_shared<MemoryStorage>(c.logger);
      auto sn = std::make_shared<raftpb::Snapshot>();
      sn->mutable_metadata()->set_index(1); sn->mutable_metadata()->set_term(1);
      for (uint64_t v = 1; v <= 3; v++) sn->mutable_metadata()->mutable_conf_state()->add_voters(v);
      st->ApplySnapshot(sn);
      auto g = config(c, 1, st, E, 1); g.pre_vote = pv; g.check_quorum = cq;
      auto node = RawNode::New(g);
      uint64_t w = 0, t = 0;
      while ((int)out.size() < n && t < 400000) {
        node->Tick(); w++; t++;
        bool camp = false;
        drain(*node, *st, [&](MsgP m) { if (m->type() == (pv ? raftpb::MsgPreVote : raftpb::MsgVote)) camp = true; });
        if (w > 4u * E + 8) { out.push_back(w); w = 0; continue; }
        if (camp) {
          out.push_back(w); w = 0;
          if (between) {  // be a follower again, at a later term
            auto m = std::make_shared<Msg>(); m->set_type(raftpb::MsgHeartbeat); m->set_from(2); m->set_to(1); m->set_term(node->GetBasicStatus().hard_state.term() + 1);
            node->Step(m); drain(*node, *st, [](MsgP) {});
          }
        }
      }
    });
    th.join();
    return out;
  };
  bool between = r.chance(0.5);
  int n = 40 * E;
  auto a = waits(r.next(), n, between), b = waits(r.next(), n, between);
  c.nops += a.size() + b.size();
  c.ctr["C23.waits"] += a.size() + b.size();
  bool redrawn = !pv || between;  // a pre-candidate that asks again keeps its wait: it has not become anything new
  std::string what = fmt("E=%d pre-vote=%d check-quorum=%d %s", E, pv, cq, between ? "as follower" : "as candidate");
  c.sample = what;
  std::map<uint64_t, int> hist;
  for (auto w : a) hist[w]++;
  for (auto w : b) hist[w]++;
  for (auto& h : hist) if (h.first < (uint64_t)E || h.first > 2u * E - 1) c.viol("C23", "wait-out-of-range", fmt("a wait of %lu ticks, %s", h.first, what.c_str()));
  for (uint64_t w = E; redrawn && w <= 2u * E - 1; w++) if (!hist.count(w)) c.viol("C23", "wait-never-drawn", fmt("a wait of %lu ticks never occurred in %zu elections, %s", w, a.size() + b.size(), what.c_str()));
  // afresh: consecutive waits are not tied to each other, and nodes started apart do not wait alike
  if (E >= 4 && redrawn) {
    int eq = 0, same = 0, asc = 0;
    for (size_t i = 1; i < a.size(); i++) { eq += a[i] == a[i - 1]; asc += a[i] == a[i - 1] + 1 || (a[i] == (uint64_t)E && a[i - 1] == 2u * E - 1); }
    for (size_t i = 0; i < std::min(a.size(), b.size()); i++) same += a[i] == b[i];
    if (eq * 10 > (int)a.size() * 8 || asc * 10 > (int)a.size() * 8) c.viol("C23", "wait-not-fresh", fmt("%d of %zu waits repeat, %d follow, the one before, %s", eq, a.size(), asc, what.c_str()));
    if (same * 10 > (int)a.size() * 8) c.viol("C23", "waits-identical", fmt("two nodes with different random seeds waited alike in %d of %zu elections, %s", same, a.size(), what.c_str()));
  }
  for (auto w : a) c.trace = hcomb(c.trace, w);
  c.seen(hcomb(E, hist.size()));
}
}  // namespace vv
