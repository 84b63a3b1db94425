// A small in-process cluster that drives the library the way its documentation asks for:
// persist a batch, send its messages, apply what is committed, then advance.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "src/rawnode.h"
#include "src/storage.h"

using raftpb::Message;
using MsgP = std::shared_ptr<Message>;
using Mem = craft::MemoryStorage;

#define REQUIRE(c, ...)                                   \
  do {                                                    \
    if (!(c)) {                                           \
      printf("PROPERTY BROKEN (line %d): ", __LINE__);    \
      printf(__VA_ARGS__);                                \
      printf("\n");                                       \
      fflush(stdout);                                     \
      exit(1);                                            \
    }                                                     \
  } while (0)

inline std::shared_ptr<craft::Logger> quiet() {
  static auto l = std::make_shared<craft::ConsoleLogger>(craft::LogLevel::kFatal);
  return l;
}

struct Node {
  uint64_t id = 0;
  std::shared_ptr<Mem> st;
  std::unique_ptr<craft::RawNode> rn;
  craft::Raft::Config cfg;
  std::vector<raftpb::Entry> applied;   // everything delivered by this incarnation
  uint64_t applied_index = 0;
  raftpb::ConfState cs;
  std::vector<craft::ReadState> reads;
  std::vector<std::shared_ptr<craft::Ready>> batches;  // the latest batch only, unless keep_batches
  bool down = false;

  craft::NodeBasicStatus stat() const { return rn->GetBasicStatus(); }
  bool leader() const { return !down && stat().soft_state.raft_state == craft::RaftStateType::kLeader; }
  uint64_t term() const { return stat().hard_state.term(); }
  uint64_t commit() const { return stat().hard_state.commit(); }
  uint64_t vote() const { return stat().hard_state.vote(); }
  uint64_t lead() const { return stat().soft_state.lead; }
  uint64_t last() const { return std::get<0>(st->LastIndex()); }
  uint64_t first() const { return std::get<0>(st->FirstIndex()); }
  uint64_t term_at(uint64_t i) const { return std::get<0>(st->Term(i)); }
  std::string data_at(uint64_t i) const {
    auto t = st->Entries(i, i + 1, UINT64_MAX);
    return std::get<0>(t).empty() ? std::string("<none>") : std::get<0>(t)[0]->data();
  }
};

struct Cluster {
  std::map<uint64_t, Node> n;
  std::deque<MsgP> q;
  std::set<std::pair<uint64_t, uint64_t>> cut;   // messages a -> b are lost
  std::function<bool(const Message&)> drop;      // lose these messages
  std::function<bool(const Message&)> hold;      // keep these messages in `held` instead of sending them
  std::deque<MsgP> held;
  std::function<void(Node&, const craft::Ready&)> on_ready;
  std::function<bool(Node&, const raftpb::Entry&)> apply_hook;
  bool fast_apply = true;

  Node& operator[](uint64_t id) { return n.at(id); }

  // Starts nodes from a snapshot at index 1, term 1 that names the given members.
  void start(std::vector<uint64_t> voters, std::vector<uint64_t> learners = {},
             std::function<void(craft::Raft::Config&)> mod = nullptr, std::vector<uint64_t> empty = {}) {
    raftpb::ConfState cs;
    for (auto v : voters) cs.add_voters(v);
    for (auto v : learners) cs.add_learners(v);
    start_conf(cs, mod, empty);
  }
  void start_conf(const raftpb::ConfState& cs, std::function<void(craft::Raft::Config&)> mod = nullptr,
                  std::vector<uint64_t> empty = {}) {
    std::set<uint64_t> ids(cs.voters().begin(), cs.voters().end());
    ids.insert(cs.learners().begin(), cs.learners().end());
    ids.insert(cs.voters_outgoing().begin(), cs.voters_outgoing().end());
    for (auto id : ids) {
      Node& x = n[id];
      x.id = id;
      x.st = std::make_shared<Mem>(quiet());
      auto s = std::make_shared<raftpb::Snapshot>();
      s->mutable_metadata()->set_index(1);
      s->mutable_metadata()->set_term(1);
      *s->mutable_metadata()->mutable_conf_state() = cs;
      x.st->ApplySnapshot(s);
      raftpb::HardState hs;
      hs.set_term(1);
      hs.set_commit(1);
      x.st->SetHardState(hs);
      x.cs = cs;
      x.applied_index = 1;
      boot(x, mod);
    }
    for (auto id : empty) {
      Node& x = n[id];
      x.id = id;
      x.st = std::make_shared<Mem>(quiet());
      boot(x, mod);
    }
  }
  void boot(Node& x, std::function<void(craft::Raft::Config&)> mod = nullptr) {
    craft::Raft::Config c;
    c.id = x.id;
    c.election_tick = 10;
    c.heartbeat_tick = 1;
    c.storage = x.st;
    c.max_size_per_msg = UINT64_MAX;
    c.max_inflight_msgs = 64;
    c.logger = quiet();
    if (mod) mod(c);
    x.cfg = c;
    x.rn = craft::RawNode::New(c);
  }
  void crash(uint64_t id) { n.at(id).down = true; n.at(id).rn.reset(); }
  void restart(uint64_t id, uint64_t applied = 0) {
    Node& x = n.at(id);
    x.down = false;
    x.cfg.applied = applied;
    x.cfg.storage = x.st;
    x.applied.clear();
    x.rn = craft::RawNode::ReStart(x.cfg);
    x.applied_index = applied;
  }

  void send(const MsgP& m0) {
    auto m = std::make_shared<Message>(*m0);
    if (hold && hold(*m)) { held.push_back(m); return; }
    q.push_back(m);
  }
  static void persist(Node& x, const craft::Ready& rd) {
    if (!craft::IsEmptySnap(rd.snapshot)) {
      x.st->ApplySnapshot(std::make_shared<raftpb::Snapshot>(*rd.snapshot));
      x.applied_index = rd.snapshot->metadata().index();
      x.cs = rd.snapshot->metadata().conf_state();
    }
    craft::EntryPtrs copy;
    for (auto& e : rd.entries) copy.push_back(std::make_shared<raftpb::Entry>(*e));
    x.st->Append(copy);
    if (!craft::IsEmptyHardState(rd.hard_state)) x.st->SetHardState(rd.hard_state);
  }
  void apply(Node& x, const craft::Ready& rd) {
    for (auto& e : rd.committed_entries) {
      x.applied.push_back(*e);
      x.applied_index = e->index();
      if (apply_hook && !apply_hook(x, *e)) continue;
      if (e->type() == raftpb::EntryConfChange) {
        raftpb::ConfChange cc;
        cc.ParseFromString(e->data());
        x.cs = x.rn->ApplyConfChange(craft::ConfChangeI(std::move(cc)));
      } else if (e->type() == raftpb::EntryConfChangeV2) {
        raftpb::ConfChangeV2 cc;
        cc.ParseFromString(e->data());
        x.cs = x.rn->ApplyConfChange(craft::ConfChangeI(std::move(cc)));
      }
    }
    for (auto& r : rd.read_states) x.reads.push_back(r);
  }
  // One batch, if there is one.
  bool step_ready(uint64_t id) {
    Node& x = n.at(id);
    if (x.down || !x.rn->HasReady()) return false;
    auto rd = x.rn->GetReady();
    if (on_ready) on_ready(x, *rd);
    persist(x, *rd);
    for (auto& m : rd->messages) send(m);
    apply(x, *rd);
    x.rn->Advance();
    return true;
  }
  void ready(uint64_t id) {
    for (int i = 0; i < 1000 && step_ready(id); i++) {}
  }
  void give(const MsgP& m) {
    if (cut.count({m->from(), m->to()})) return;
    if (drop && drop(*m)) return;
    auto it = n.find(m->to());
    if (it == n.end() || it->second.down) return;
    it->second.rn->Step(std::make_shared<Message>(*m));
  }
  // Runs until nothing is left to do.
  void pump(int limit = 20000) {
    for (int i = 0; i < limit; i++) {
      for (auto& p : n) ready(p.first);
      if (q.empty()) return;
      auto m = q.front();
      q.pop_front();
      give(m);
    }
  }
  void release() {
    auto h = std::move(held);
    held.clear();
    hold = nullptr;
    for (auto& m : h) q.push_back(m);
  }
  void tick(uint64_t id, int k = 1, bool run = true) {
    for (int i = 0; i < k; i++) {
      if (!n.at(id).down) n.at(id).rn->Tick();
      if (run) pump();
    }
  }
  void tick_all(int k = 1) {
    for (int i = 0; i < k; i++) {
      for (auto& p : n) if (!p.second.down) p.second.rn->Tick();
      pump();
    }
  }
  void isolate(uint64_t id) {
    for (auto& p : n) if (p.first != id) { cut.insert({id, p.first}); cut.insert({p.first, id}); }
  }
  void heal() { cut.clear(); }
  void elect(uint64_t id) {
    n.at(id).rn->Campaign();
    pump();
    if (!n.at(id).leader()) { printf("SETUP: node %d did not become leader\n", (int)id); exit(77); }
  }
  bool propose(uint64_t id, const std::string& d) {
    bool ok = n.at(id).rn->Propose(d).IsOK();
    return ok;
  }
  bool change(uint64_t id, const raftpb::ConfChangeV2& cc) {
    raftpb::ConfChangeV2 c = cc;
    return n.at(id).rn->ProposeConfChange(craft::ConfChangeI(std::move(c))).IsOK();
  }
  void snapshot(uint64_t id, bool compact = true) {
    Node& x = n.at(id);
    x.st->CreateSnapshot(x.applied_index, &x.cs, "snap" + std::to_string(x.applied_index));
    if (compact) x.st->Compact(x.applied_index);
  }
  int leaders(uint64_t term) {
    int k = 0;
    for (auto& p : n) if (p.second.leader() && p.second.term() == term) k++;
    return k;
  }
  uint64_t the_leader() {
    uint64_t id = 0, t = 0;
    for (auto& p : n) if (p.second.leader() && p.second.term() > t) { id = p.first; t = p.second.term(); }
    return id;
  }
};

inline raftpb::ConfChangeV2 ccv2(const std::string& s, raftpb::ConfChangeTransition t = raftpb::ConfChangeTransitionAuto) {
  raftpb::ConfChangeV2 cc;
  auto [l, st] = craft::ConfChangesFromString(s);
  for (auto& c : l) *cc.add_changes() = c;
  cc.set_transition(t);
  return cc;
}
inline MsgP msg(raftpb::MessageType t, uint64_t from, uint64_t to, uint64_t term) {
  auto m = std::make_shared<Message>();
  m->set_type(t);
  m->set_from(from);
  m->set_to(to);
  m->set_term(term);
  return m;
}
inline int done() { printf("ok\n"); return 0; }
