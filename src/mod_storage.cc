// C26: the in-memory storage next to a list model.
#include "mod.h"
#include "src/storage.h"
using namespace craft;

namespace vv {
namespace {
struct Model {
  uint64_t base = 0;                 // index of the entry everything up to which is compacted away
  std::vector<std::string> e{""};    // e[k]: serialised entry base+k (e[0] keeps its term only)
  std::vector<uint64_t> terms{0}, sizes{0};
  uint64_t si = 0, st = 0; std::string sdata, scs, hs;
  uint64_t last() const { return base + e.size() - 1; }
};
struct Held { EntryPtr p; SnapshotPtr s; std::string bytes; };
std::string show(const EntryPtrs& v) { std::string s; for (auto& e : v) s += fmt("%lu/%lu ", e->index(), e->term()); return s; }
raftpb::ConfState rcs(Rng& r) {
  raftpb::ConfState cs;
  for (int i = 0, n = (int)r.range(1, 3); i < n; i++) cs.add_voters(r.range(1, 9));
  if (r.chance(0.3)) cs.add_learners(r.range(10, 12));
  return cs;
}
}  // namespace

void mod_storage(Ctx& c) {
  auto& r = c.rng;
  auto st = std::make_shared<MemoryStorage>(c.logger);
  Model m;
  m.hs = raftpb::HardState().SerializeAsString();
  m.scs = raftpb::ConfState().SerializeAsString();
  std::vector<Held> held;
  uint64_t stamp = 0, term = 1;
  int nops = (int)r.range(10, 120);
  auto hold = [&](const EntryPtr& e) { if (held.size() < 400) held.push_back({e, nullptr, e->SerializeAsString()}); };
  auto holds = [&](const SnapshotPtr& s) { if (s && held.size() < 400) held.push_back({nullptr, s, s->SerializeAsString()}); };
  auto mk = [&](uint64_t i, uint64_t t) {
    auto e = std::make_shared<raftpb::Entry>();
    e->set_index(i); e->set_term(t);
    std::string d = std::to_string(stamp++) + ":";
    if (r.chance(0.5)) d += std::string(r.below(r.chance(0.1) ? 3000 : 60), 'd');
    if (r.chance(0.9)) e->set_data(d);
    if (r.chance(0.1)) e->set_type(raftpb::EntryConfChange);
    return e;
  };
  auto want_err = [&](const craft::Status& s, const char* e, const std::string& what) {
    if (e ? (s.IsOK() || !strstr(s.Str(), e)) : !s.IsOK()) c.viol("C26", "storage-status", what + ": got '" + (s.IsOK() ? "ok" : s.Str()) + "', expected '" + (e ? e : "ok") + "'");
  };
  auto check_all = [&](const std::string& when) {
    auto [fi, s1] = st->FirstIndex(); auto [li, s2] = st->LastIndex();
    want_err(s1, nullptr, "FirstIndex"); want_err(s2, nullptr, "LastIndex");
    if (fi != m.base + 1 || li != m.last()) c.viol("C26", "storage-bounds", fmt("after %s: bounds %lu..%lu, expected %lu..%lu", when.c_str(), fi, li, m.base + 1, m.last()));
    for (uint64_t i = m.base > 2 ? m.base - 2 : 0; i <= m.last() + 2; i++) {
      auto [t, s] = st->Term(i);
      want_err(s, i < m.base ? kErrCompacted : i > m.last() ? kErrUnavailable : nullptr, fmt("Term(%lu) with %lu..%lu", i, m.base, m.last()));
      uint64_t w = i < m.base || i > m.last() ? 0 : m.terms[i - m.base];
      if (t != w) c.viol("C26", "storage-term", fmt("after %s: term of %lu is %lu, expected %lu", when.c_str(), i, t, w));
      c.ctr["C26.results"]++;
    }
    auto [hs, cs, s3] = st->InitialState(); want_err(s3, nullptr, "InitialState");
    if (hs.SerializeAsString() != m.hs || cs.SerializeAsString() != m.scs) c.viol("C26", "storage-initial", "after " + when + ": initial state differs");
    auto [sn, s4] = st->SnapShot(); want_err(s4, nullptr, "Snapshot");
    if (!sn || sn->metadata().index() != m.si || sn->metadata().term() != m.st || sn->data() != m.sdata || sn->metadata().conf_state().SerializeAsString() != m.scs)
      c.viol("C26", "storage-snapshot", "after " + when + ": snapshot differs");
    holds(sn);
    c.ctr["C26.results"] += 3;
  };
  auto check_entries = [&](uint64_t lo, uint64_t hi, uint64_t max) {
    std::string what = fmt("Entries(%lu,%lu,%lu) with %lu..%lu", lo, hi, max, m.base, m.last());
    std::tuple<EntryPtrs, craft::Status> res{EntryPtrs(), craft::Status::OK()};
    bool p = c.panics([&] { res = st->Entries(lo, hi, max); });
    bool wp = lo > m.base && (hi > m.last() + 1 || lo > hi);
    c.ctr["C26.results"]++;
    if (p != wp) c.viol("C26", "storage-entries-fatal", what + (p ? " ended in a fatal report" : " did not end in a fatal report"));
    if (p) return;
    auto& [v, s] = res;
    want_err(s, lo <= m.base ? kErrCompacted : m.e.size() == 1 ? kErrUnavailable : nullptr, what);
    if (!s.IsOK()) { if (!v.empty()) c.viol("C26", "storage-entries", what + " returned entries with an error"); return; }
    size_t n = 0; uint64_t sum = 0;
    for (uint64_t i = lo; i < hi; i++) { sum += m.sizes[i - m.base]; if (n && sum > max) break; n++; }
    if (v.size() != n) c.viol("C26", "storage-entries", fmt("%s returned %zu entries, expected %zu", what.c_str(), v.size(), n));
    if (n < hi - lo) c.ctr["C26.limited"]++;
    for (size_t k = 0; k < n; k++) {
      if (v[k]->SerializeAsString() != m.e[lo + k - m.base]) c.viol("C26", "storage-entries", fmt("%s returned another entry at %lu", what.c_str(), lo + k));
      hold(v[k]);
    }
  };
  // what precedes the faulty operation is visible in the replay
  std::string trace;
  for (int k = 0; k < nops; k++) {
    c.nops++;
    int o = (int)r.below(100);
    std::string what;
    if (o < 40) {
      // append: continuing, overlapping, partly or wholly compacted, or with a gap
      uint64_t lo = r.chance(0.4) ? m.last() + 1 : (uint64_t)std::max<int64_t>(1, r.range((int64_t)m.base - 3, (int64_t)m.last() + 3));
      int n = (int)r.range(0, 6);
      if (lo <= m.si && lo + n > m.base + 1) lo = m.si + 1;  // what a snapshot covers is committed: it is never overwritten
      term += r.chance(0.3);
      EntryPtrs v;
      for (int i = 0; i < n; i++) v.push_back(mk(lo + i, term));
      std::vector<std::string> bytes; for (auto& e : v) bytes.push_back(e->SerializeAsString());
      what = fmt("append %lu+%d term %lu", lo, n, term);
      bool gap = n && lo > m.last() + 1;
      craft::Status s = craft::Status::OK();
      bool p = c.panics([&] { s = st->Append(v); });
      if (p != gap) c.viol("C26", "storage-append-fatal", what + (p ? " ended in a fatal report" : " left a gap"));
      if (!p) {
        want_err(s, nullptr, what);
        for (int i = 0; i < n; i++) {
          uint64_t ix = lo + i;
          if (ix <= m.base) { c.ctr["C26.append_compacted"]++; continue; }
          size_t off = ix - m.base;
          // the first entry kept truncates everything from its index on
          if (i == 0 || ix == m.base + 1) { if (off < m.e.size()) c.ctr["C26.truncations"]++; m.e.resize(off); m.terms.resize(off); m.sizes.resize(off); }
          m.e.push_back(bytes[i]); m.terms.push_back(term); m.sizes.push_back(v[i]->ByteSizeLong());
          hold(v[i]);
        }
      }
    } else if (o < 52) {
      uint64_t i = (uint64_t)std::max<int64_t>(0, r.range((int64_t)m.base - 2, (int64_t)m.last() + 2));
      what = fmt("compact %lu", i);
      craft::Status s = craft::Status::OK();
      bool p = c.panics([&] { s = st->Compact(i); });
      bool wp = i > m.base && i > m.last();
      if (p != wp) c.viol("C26", "storage-compact-fatal", what + fmt(" with %lu..%lu: fatal %d, expected %d", m.base, m.last(), p, wp));
      if (!p) {
        want_err(s, i <= m.base ? kErrCompacted : nullptr, what);
        if (i > m.base) {
          size_t d = i - m.base;
          m.e.erase(m.e.begin(), m.e.begin() + d); m.terms.erase(m.terms.begin(), m.terms.begin() + d); m.sizes.erase(m.sizes.begin(), m.sizes.begin() + d);
          m.base = i; c.ctr["C26.compactions"]++;
        }
      }
    } else if (o < 64) {
      uint64_t i = (uint64_t)std::max<int64_t>(0, r.range((int64_t)std::min(m.base, m.si) - 1, (int64_t)m.last() + 2));
      auto cs = rcs(r); bool with = r.chance(0.6);
      std::string data = fmt("snap%lu", stamp++);
      what = fmt("create snapshot %lu", i);
      std::tuple<SnapshotPtr, craft::Status> res{nullptr, craft::Status::OK()};
      bool p = c.panics([&] { res = st->CreateSnapshot(i, with ? &cs : nullptr, data); });
      bool wp = i > m.si && i > m.last();
      if (p != wp) c.viol("C26", "storage-snapshot-fatal", what + fmt(" fatal %d, expected %d", p, wp));
      if (!p) {
        auto& [sn, s] = res;
        want_err(s, i <= m.si ? kErrSnapOutOfDate : i < m.base ? kErrCompacted : nullptr, what + fmt(" with snapshot %lu, log %lu..%lu", m.si, m.base, m.last()));
        if (s.IsOK()) {
          m.si = i; m.st = m.terms[i - m.base]; m.sdata = data; if (with) m.scs = cs.SerializeAsString();
          if (!sn || sn->metadata().index() != i || sn->data() != data) c.viol("C26", "storage-snapshot", what + " returned another snapshot");
          holds(sn); c.ctr["C26.snapshots"]++;
        }
      }
    } else if (o < 70) {
      auto sn = std::make_shared<raftpb::Snapshot>();
      uint64_t i = (uint64_t)std::max<int64_t>(0, r.range((int64_t)m.si - 2, (int64_t)m.last() + 8));
      auto cs = rcs(r);
      sn->mutable_metadata()->set_index(i); sn->mutable_metadata()->set_term(term); *sn->mutable_metadata()->mutable_conf_state() = cs; sn->set_data(fmt("inst%lu", stamp++));
      what = fmt("install snapshot %lu", i);
      auto s = st->ApplySnapshot(sn);
      want_err(s, i <= m.si ? kErrSnapOutOfDate : nullptr, what + fmt(" over %lu", m.si));
      if (i > m.si) { m.base = i; m.e = {""}; m.terms = {term}; m.sizes = {0}; m.si = i; m.st = term; m.sdata = sn->data(); m.scs = cs.SerializeAsString(); c.ctr["C26.installs"]++; }
      holds(sn);
    } else if (o < 76) {
      raftpb::HardState h; h.set_term(r.below(100)); h.set_vote(r.below(5)); h.set_commit(r.below(100));
      what = "set hard state";
      want_err(st->SetHardState(h), nullptr, what);
      m.hs = h.SerializeAsString();
    } else {
      uint64_t lo = (uint64_t)std::max<int64_t>(0, r.range((int64_t)m.base - 2, (int64_t)m.last() + 2));
      uint64_t hi = r.chance(0.9) ? lo + r.below(m.last() + 3 - std::min(lo, m.last() + 2)) : (uint64_t)std::max<int64_t>(0, r.range((int64_t)lo - 3, (int64_t)lo));
      uint64_t tot = 0; for (uint64_t i = std::max(lo, m.base); i < hi && i <= m.last(); i++) tot += m.sizes[i - m.base];
      uint64_t pre = 0; { uint64_t upto = std::max(lo, m.base) + r.below(4); for (uint64_t i = std::max(lo, m.base); i < hi && i <= m.last() && i <= upto; i++) pre += m.sizes[i - m.base]; }
      uint64_t max = r.chance(0.15) ? 0 : r.chance(0.2) ? UINT64_MAX : r.chance(0.5) ? pre + (uint64_t)r.range(0, 2) - (pre ? 1 : 0) : r.below(tot + 3);
      what = "entries";
      check_entries(lo, hi, max);
    }
    c.log("%s", what.c_str());
    check_all(what);
    check_entries(m.base + 1, m.last() + 1, UINT64_MAX);
    if (k % 8 == 7 || k == nops - 1)
      for (auto& h : held) {
        c.ctr["C26.held"]++;
        if ((h.p ? h.p->SerializeAsString() : h.s->SerializeAsString()) != h.bytes) c.viol("C26", "storage-mutated", "an object returned or stored earlier changed after " + what);
      }
    c.seen(hcomb(hcomb(m.base, m.e.size()), hcomb(m.si, o)));
    if (k < 6) trace += (k ? "; " : "") + what;
  }
  c.sample = trace + fmt("; ... (%d operations)", nops);
}
}  // namespace vv
