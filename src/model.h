// Independent reference models used by the monitors: configuration algebra and log views.
#pragma once
#include <algorithm>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>
#include "common.h"
#include "src/raftpb/raft.pb.h"

namespace vv {
using IdSet = std::set<uint64_t>;

// A membership configuration, with the algebra of changes written from the specification
// (joint consensus with staged learners), not from the library's code.
struct Conf {
  IdSet V, O, L, LN;
  bool al = false;
  bool joint() const { return !O.empty(); }
  bool voter(uint64_t id) const { return V.count(id) || O.count(id); }
  bool member(uint64_t id) const { return voter(id) || L.count(id); }
  IdSet members() const { IdSet m = V; m.insert(O.begin(), O.end()); m.insert(L.begin(), L.end()); return m; }
  bool operator==(const Conf& o) const { return V == o.V && O == o.O && L == o.L && LN == o.LN && al == o.al; }
  bool operator!=(const Conf& o) const { return !(*this == o); }
  template <class F> bool quorum(F f) const {
    if (V.empty() && O.empty()) return false;
    for (const IdSet* s : {&V, &O}) {
      if (s->empty()) continue;
      size_t c = 0;
      for (auto id : *s) c += f(id) ? 1 : 0;
      if (c * 2 <= s->size()) return false;
    }
    return true;
  }
  std::string str() const {
    std::string r;
    auto put = [&](const char* n, const IdSet& s) { r += n; r += "{"; for (auto i : s) r += std::to_string(i) + " "; r += "}"; };
    put("V", V); if (!O.empty()) put("O", O); if (!L.empty()) put("L", L); if (!LN.empty()) put("N", LN);
    if (al) r += "auto";
    return r;
  }
};

inline raftpb::ConfState to_cs(const Conf& c) {
  raftpb::ConfState s;
  for (auto i : c.V) s.add_voters(i);
  for (auto i : c.O) s.add_voters_outgoing(i);
  for (auto i : c.L) s.add_learners(i);
  for (auto i : c.LN) s.add_learners_next(i);
  s.set_auto_leave(c.al);
  return s;
}
inline Conf from_cs(const raftpb::ConfState& s) {
  Conf c;
  for (auto i : s.voters()) c.V.insert(i);
  for (auto i : s.voters_outgoing()) c.O.insert(i);
  for (auto i : s.learners()) c.L.insert(i);
  for (auto i : s.learners_next()) c.LN.insert(i);
  c.al = s.auto_leave();
  return c;
}

// The effect of a list of changes on the incoming half; false if no voter would remain.
inline bool ref_changes(Conf& c, const std::vector<std::pair<int, uint64_t>>& ch) {
  for (auto& [t, id] : ch) {
    if (id == 0) continue;
    if (t == raftpb::ConfChangeAddNode) {
      c.L.erase(id); c.LN.erase(id); c.V.insert(id);
    } else if (t == raftpb::ConfChangeAddLearnerNode) {
      if (c.L.count(id)) continue;
      c.V.erase(id); c.LN.erase(id);
      if (c.O.count(id)) c.LN.insert(id); else c.L.insert(id);
    } else if (t == raftpb::ConfChangeRemoveNode) {
      c.V.erase(id); c.L.erase(id); c.LN.erase(id);
    }
  }
  return !c.V.empty();
}
inline std::optional<Conf> ref_simple(const Conf& c, const std::vector<std::pair<int, uint64_t>>& ch) {
  if (c.joint()) return std::nullopt;
  Conf r = c;
  if (!ref_changes(r, ch)) return std::nullopt;
  size_t d = 0;
  for (auto i : r.V) d += !c.V.count(i);
  for (auto i : c.V) d += !r.V.count(i);
  if (d > 1) return std::nullopt;
  return r;
}
inline std::optional<Conf> ref_enter(const Conf& c, bool al, const std::vector<std::pair<int, uint64_t>>& ch) {
  if (c.joint() || c.V.empty()) return std::nullopt;
  Conf r = c;
  r.O = c.V;
  if (!ref_changes(r, ch)) return std::nullopt;
  r.al = al;
  return r;
}
inline std::optional<Conf> ref_leave(const Conf& c) {
  if (!c.joint()) return std::nullopt;
  Conf r = c;
  r.L.insert(c.LN.begin(), c.LN.end());
  r.LN.clear(); r.O.clear(); r.al = false;
  return r;
}
inline std::optional<Conf> ref_apply(const Conf& c, const raftpb::ConfChangeV2& cc) {
  std::vector<std::pair<int, uint64_t>> ch;
  for (auto& x : cc.changes()) ch.emplace_back((int)x.type(), x.node_id());
  bool autot = cc.transition() == raftpb::ConfChangeTransitionAuto;
  if (ch.empty() && autot) return ref_leave(c);
  if (!autot || ch.size() > 1) return ref_enter(c, cc.transition() != raftpb::ConfChangeTransitionJointExplicit, ch);
  return ref_simple(c, ch);
}
inline raftpb::ConfChangeV2 to_v2(const raftpb::Entry& e) {
  raftpb::ConfChangeV2 v;
  if (e.type() == raftpb::EntryConfChange) {
    raftpb::ConfChange c;
    c.ParseFromString(e.data());
    auto* s = v.add_changes();
    s->set_type(c.type()); s->set_node_id(c.node_id());
    v.set_context(c.context());
  } else {
    v.ParseFromString(e.data());
  }
  return v;
}
inline bool is_conf(const raftpb::Entry& e) { return e.type() != raftpb::EntryNormal; }

struct EntInfo { uint64_t term = 0, chain = 0; bool conf = false; };
// A log as (base, entries) where chain(i) identifies the whole prefix up to i.
struct LogView {
  uint64_t base = 0, base_term = 0, base_chain = 0;
  std::vector<EntInfo> e;
  uint64_t last() const { return base + e.size(); }
  bool has(uint64_t i) const { return i >= base && i <= last(); }
  uint64_t term(uint64_t i) const { return i == base ? base_term : e[i - base - 1].term; }
  uint64_t chain(uint64_t i) const { return i == base ? base_chain : e[i - base - 1].chain; }
  bool conf(uint64_t i) const { return i > base && e[i - base - 1].conf; }
};
inline uint64_t chain_next(uint64_t prev, const raftpb::Entry& e) {
  return hcomb(hcomb(prev, e.index() * 1000003 + e.term()), hcomb(hstr(e.data()), (uint64_t)e.type()));
}
}  // namespace vv
