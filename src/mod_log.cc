// C27: the log view over stable and unstable entries next to one flat sequence.
#include "mod.h"
#include "src/log.h"
#include "src/storage.h"
using namespace craft;

namespace vv {
namespace {
struct Flat {
  uint64_t base = 0, bterm = 0;  // entries after base; base itself known by its term
  std::vector<std::pair<uint64_t, std::string>> e;  // term, bytes
  std::vector<uint64_t> sz;
  uint64_t commit = 0, applied = 0;
  uint64_t last() const { return base + e.size(); }
  uint64_t first() const { return base + 1; }
  uint64_t term(uint64_t i) const { return i == base ? bterm : (i < base || i > last()) ? 0 : e[i - base - 1].first; }
};
}  // namespace

void mod_log(Ctx& c) {
  auto& r = c.rng;
  auto st = std::make_shared<MemoryStorage>(c.logger);
  Flat f;
  uint64_t term = 1, stamp = 0;
  auto mk = [&](uint64_t i, uint64_t t) {
    auto e = std::make_shared<raftpb::Entry>();
    e->set_index(i); e->set_term(t);
    e->set_data(std::to_string(stamp++) + std::string(r.chance(0.5) ? 0 : r.below(80), 'q'));
    return e;
  };
  // start from a storage that may already hold a snapshot and entries
  if (r.chance(0.5)) {
    auto sn = std::make_shared<raftpb::Snapshot>();
    f.base = r.range(1, 20); f.bterm = term = r.range(1, 4);
    if (r.chance(0.15)) f.base += 1ULL << (r.chance(0.3) ? 31 : r.chance(0.5) ? 32 : 62), f.base -= 12;
    if (r.chance(0.1)) f.bterm = term = (1ULL << (r.chance(0.5) ? 32 : 62)) - r.below(4);
    sn->mutable_metadata()->set_index(f.base); sn->mutable_metadata()->set_term(f.bterm);
    st->ApplySnapshot(sn);
  }
  if (r.chance(0.6)) {
    EntryPtrs v;
    for (int i = 0, n = (int)r.range(1, 8); i < n; i++) {
      term += r.chance(0.25);
      auto e = mk(f.last() + 1, term); v.push_back(e); f.e.push_back({term, e->SerializeAsString()}); f.sz.push_back(e->ByteSizeLong());
    }
    st->Append(v);
  }
  f.commit = f.applied = f.base;
  uint64_t next_max = r.chance(0.5) ? UINT64_MAX : r.below(200);
  auto L = craft::RaftLog::NewWithSize(c.logger, st, next_max);
  uint64_t stable = f.last();           // entries up to here are known persisted
  SnapshotPtr pend;                     // snapshot not yet persisted
  bool out = false; EntryPtrs batch; SnapshotPtr bsnap;  // the batch the application is persisting
  std::vector<std::pair<EntryPtr, std::string>> held;
  std::string trace;
  // persisted entries whose boundary may move only by a matching acknowledgement
  auto same = [&](const EntryPtrs& v, uint64_t lo, size_t n, const std::string& what) {
    if (v.size() != n) c.viol("C27", "log-range", fmt("%s returned %zu entries, expected %zu", what.c_str(), v.size(), n));
    for (size_t k = 0; k < n; k++) {
      if (v[k]->SerializeAsString() != f.e[lo + k - f.base - 1].second) c.viol("C27", "log-range", fmt("%s: other entry at %lu", what.c_str(), lo + k));
      if (held.size() < 200) held.push_back({v[k], v[k]->SerializeAsString()});
    }
    c.ctr["C27.queries"]++;
  };
  auto rq = [&]() -> uint64_t { return term > 100 && r.chance(0.9) ? term + 1 - r.below(8) : r.range(0, (int64_t)term + 1); };
  auto limited = [&](uint64_t lo, uint64_t hi, uint64_t max) { size_t n = 0; uint64_t s = 0; for (uint64_t i = lo; i < hi; i++) { s += f.sz[i - f.base - 1]; if (n && s > max) break; n++; } return n; };
  auto check = [&](const std::string& w) {
    if (L->FirstIndex() != f.first() || L->LastIndex() != f.last()) c.viol("C27", "log-bounds", fmt("after %s: bounds %lu..%lu, expected %lu..%lu", w.c_str(), L->FirstIndex(), L->LastIndex(), f.first(), f.last()));
    if (L->Committed() != f.commit) c.viol("C27 C06", "log-committed", fmt("after %s: committed %lu, expected %lu", w.c_str(), L->Committed(), f.commit));
    if (L->Applied() != f.applied) c.viol("C27 C05", "log-applied", fmt("after %s: applied %lu, expected %lu", w.c_str(), L->Applied(), f.applied));
    for (uint64_t i = f.base > 1 ? f.base - 2 : 0; i <= f.last() + 2; i++) {
      auto [t, s] = L->Term(i);
      c.ctr["C27.queries"]++;
      if (!s.IsOK()) c.viol("C27", "log-term-status", fmt("after %s: term of %lu gave %s", w.c_str(), i, s.Str()));
      if (t != f.term(i)) c.viol("C27", "log-term", fmt("after %s: term of %lu is %lu, expected %lu (log %lu..%lu, persisted to %lu)", w.c_str(), i, t, f.term(i), f.first(), f.last(), stable));
      uint64_t q = rq();
      if (L->MatchTerm(i, q) != (f.term(i) == q)) c.viol("C27", "log-match", fmt("after %s: MatchTerm(%lu,%lu)", w.c_str(), i, q));
    }
    if (L->LastTerm() != f.term(f.last())) c.viol("C27", "log-last-term", fmt("after %s: last term", w.c_str()));
    same(L->AllEntries(), f.first(), f.e.size(), "AllEntries after " + w);
    for (int k = 0; k < 3; k++) {
      uint64_t lo = f.first() + r.below(f.e.size() + 1), hi = lo + r.below(f.last() + 2 - lo);
      uint64_t max = r.chance(0.2) ? UINT64_MAX : r.below(220);
      auto [v, s] = L->Slice(lo, hi, max);
      if (!s.IsOK()) c.viol("C27", "log-slice-status", fmt("after %s: Slice(%lu,%lu): %s", w.c_str(), lo, hi, s.Str()));
      same(v, lo, limited(lo, hi, max), fmt("Slice(%lu,%lu,%lu) after %s, persisted to %lu", lo, hi, max, w.c_str(), stable));
      auto [v2, s2] = L->Entries(lo, max);
      if (!s2.IsOK()) c.viol("C27", "log-slice-status", fmt("after %s: Entries(%lu): %s", w.c_str(), lo, s2.Str()));
      same(v2, lo, limited(lo, f.last() + 1, max), fmt("Entries(%lu,%lu) after %s", lo, max, w.c_str()));
    }
    if (r.chance(0.2)) {
      // a range that ends beyond the log is not answered
      uint64_t lo = f.first() + r.below(f.e.size() + 1), hi = f.last() + 2 + r.below(3);
      bool answered = false;
      try { auto [v, s] = L->Slice(lo, hi, UINT64_MAX); answered = s.IsOK(); } catch (Panic&) {}
      if (answered) c.viol("C27", "log-range-beyond", fmt("Slice(%lu,%lu) with the log ending at %lu was answered", lo, hi, f.last()));
    }
    if (f.base) {
      auto [v, s] = L->Slice(f.base, f.last() + 1, UINT64_MAX);
      if (s.IsOK() || !strstr(s.Str(), kErrCompacted)) c.viol("C27", "log-compacted", "a range below the first index was not refused as compacted after " + w);
    }
    {
      uint64_t off = std::max(f.applied + 1, f.first());
      same(L->NextEnts(), off, f.commit + 1 > off ? limited(off, f.commit + 1, next_max) : 0, "NextEnts after " + w);
      if (L->HasNextEnts() != (f.commit + 1 > off)) c.viol("C27 C05", "log-has-next", "HasNextEnts after " + w);
    }
    {
      auto u = L->UnstableEntries();
      same(u, stable + 1, f.last() - std::min(f.last(), stable), fmt("UnstableEntries after %s, persisted to %lu", w.c_str(), stable));
      if (L->HasPendingSnapshot() != (pend != nullptr)) c.viol("C27", "log-pending-snapshot", "HasPendingSnapshot after " + w);
      auto [sn, s] = L->Snapshot();
      if (pend && sn->SerializeAsString() != pend->SerializeAsString()) c.viol("C27", "log-snapshot", "Snapshot after " + w);
    }
    for (int k = 0; k < 3; k++) {
      uint64_t li = (uint64_t)std::max<int64_t>(0, r.range((int64_t)f.last() - 2, (int64_t)f.last() + 2)), t = (uint64_t)std::max<int64_t>(0, r.range((int64_t)f.term(f.last()) - 1, (int64_t)f.term(f.last()) + 1)), lt = f.term(f.last());
      if (L->IsUpToData(li, t) != (t > lt || (t == lt && li >= f.last()))) c.viol("C27 C02", "log-up-to-date", fmt("IsUpToDate(%lu,%lu) against %lu/%lu", li, t, f.last(), lt));
      uint64_t i = r.below(f.last() + 3), q = rq(), want = i;
      if (f.base > 100 && r.chance(0.8)) i = want = f.base - 2 + r.below(f.e.size() + 5);
      if (i <= f.last()) while (f.term(want) > q) want--;
      uint64_t got = L->FindConflictByTerm(i, q);
      if (got != want) c.viol("C27 C25", "log-conflict-by-term", fmt("FindConflictByTerm(%lu,%lu) = %lu, expected %lu", i, q, got, want));
      c.ctr["C27.queries"] += 2;
    }
  };
  int nops = (int)r.range(10, 80);
  check("start");
  for (int k = 0; k < nops; k++) {
    c.nops++;
    int o = (int)r.below(100);
    std::string w;
    if (o < 15) {
      // the leader's own append
      term += r.chance(0.2); EntryPtrs v;
      for (int i = 0, n = (int)r.range(0, 4); i < n; i++) { auto e = mk(f.last() + 1, term); v.push_back(e); f.e.push_back({term, e->SerializeAsString()}); f.sz.push_back(e->ByteSizeLong()); }
      w = fmt("append %zu", v.size());
      if (L->Append(v) != f.last()) c.viol("C27", "log-append", "Append returned another last index");
    } else if (o < 50) {
      // a received append: prefix may match or not, entries may repeat, extend or conflict; terms never decrease along a log
      uint64_t ix = (uint64_t)std::max<int64_t>((int64_t)f.commit, r.range((int64_t)f.last() - 5, (int64_t)f.last() + 1));
      if (r.chance(0.2) && f.commit > f.base) ix = f.base + r.below(f.commit - f.base + 1);
      uint64_t lt = f.term(ix); if (r.chance(0.1) || ix > f.last()) lt = f.term(ix) + 1 + r.below(2);
      bool match = ix <= f.last() && lt == f.term(ix);
      EntryPtrs v; bool diverged = false; uint64_t pt = lt;
      int n = (int)r.range(0, 6);
      for (int i = 0; i < n; i++) {
        uint64_t j = ix + 1 + i;
        if (!diverged && j <= f.last() && (j <= f.commit || r.chance(0.75))) { auto e = std::make_shared<raftpb::Entry>(); e->ParseFromString(f.e[j - f.base - 1].second); v.push_back(e); pt = e->term(); }
        else { if (!diverged) { term++; pt = term; } else if (r.chance(0.2)) pt = ++term; diverged = true; v.push_back(mk(j, pt)); }
      }
      uint64_t lastnew = ix + n, ci = 0;
      for (auto& e : v) if (f.term(e->index()) != e->term()) { ci = e->index(); break; }
      uint64_t comm = f.commit + r.below(6);
      if (f.commit > f.base && r.chance(0.05)) {
        // entries that contradict committed ones must be refused with a fatal report, and nothing may change
        uint64_t at = f.base + 1 + r.below(f.commit - f.base);
        EntryPtrs bad;
        for (uint64_t j = ix < at ? ix + 1 : at; j <= at; j++) {
          if (j < at) { auto e = std::make_shared<raftpb::Entry>(); e->ParseFromString(f.e[j - f.base - 1].second); bad.push_back(e); }
          else bad.push_back(mk(j, f.term(j) + 1));
        }
        uint64_t from = bad.front()->index() - 1;
        w = fmt("maybe-append prev %lu/%lu with a conflict at %lu, committed %lu", from, f.term(from), at, f.commit);
        bool fatal = false;
        try { L->MaybeAppend(from, f.term(from), comm, bad); } catch (Panic&) { fatal = true; }
        if (!fatal) c.viol("C27 C04", "log-committed-conflict", w + " was accepted");
        c.ctr["C27.committed_conflicts"]++;
        trace += "; " + w;
        check(w);
        continue;
      }
      w = fmt("maybe-append prev %lu/%lu +%d conflict %lu commit %lu", ix, lt, n, ci, comm);
      if (match || true) { uint64_t g = L->FindConflict(v); if (g != ci) c.viol("C27 C03", "log-find-conflict", fmt("FindConflict gave %lu, expected %lu (%s)", g, ci, w.c_str())); }
      auto [li, ok] = L->MaybeAppend(ix, lt, comm, v);
      if (ok != match) c.viol("C27 C03", "log-maybe-append", fmt("%s: accepted %d, expected %d", w.c_str(), ok, match));
      if (ok) {
        if (li != lastnew) c.viol("C27 C03", "log-maybe-append", fmt("%s: last new index %lu, expected %lu", w.c_str(), li, lastnew));
        if (ci) {
          c.ctr[ci <= stable ? "C27.truncate_stable" : ci <= f.last() ? "C27.truncate_unstable" : "C27.extend"]++;
          f.e.resize(ci - f.base - 1); f.sz.resize(ci - f.base - 1);
          stable = std::min(stable, ci - 1);
          for (auto& e : v) if (e->index() >= ci) { f.e.push_back({e->term(), e->SerializeAsString()}); f.sz.push_back(e->ByteSizeLong()); }
        }
        f.commit = std::max(f.commit, std::min(comm, lastnew));
      } else if (li != 0) c.viol("C27", "log-maybe-append", "a refused append returned an index");
    } else if (o < 58) {
      if (!out) {
        batch = L->UnstableEntries(); bsnap = pend; out = !batch.empty() || bsnap; w = fmt("take batch of %zu", batch.size());
      } else {
        // persist what was taken, then acknowledge it; the log may have changed in between
        if (bsnap) { st->ApplySnapshot(bsnap); }
        EntryPtrs b2; for (auto& e : batch) b2.push_back(e);
        auto [sf, s0] = st->FirstIndex();
        (void)sf; (void)s0;
        st->Append(b2);
        w = fmt("persist batch of %zu", batch.size());
        if (!batch.empty()) {
          uint64_t bi = batch.back()->index(), bt = batch.back()->term();
          L->StableTo(bi, bt);
          bool live = bi <= f.last() && bi > stable && f.term(bi) == bt && bi > f.base;
          if (live) stable = bi; else c.ctr["C27.superseded_acks"]++;
        }
        if (bsnap) { L->StableSnapTo(bsnap->metadata().index()); if (pend == bsnap) pend = nullptr; else c.ctr["C27.superseded_snaps"]++; }
        batch.clear(); bsnap = nullptr; out = false;
      }
    } else if (o < 62) {
      // an acknowledgement for something that is not the newest persisted batch must be harmless
      uint64_t i = f.base + r.below(f.last() - f.base + 3), t = f.term(i) + 1 + r.below(2);
      w = fmt("stale ack %lu/%lu", i, t);
      L->StableTo(i, t);
      L->StableSnapTo(f.last() + 1000);
    } else if (o < 70) {
      uint64_t i = f.commit + r.below(f.last() - f.commit + 1);
      w = fmt("commit to %lu", i); L->CommitTo(i); f.commit = std::max(f.commit, i);
      if (r.chance(0.2) && f.commit) { uint64_t j = r.below(f.commit + 1); L->CommitTo(j); w += fmt(" then %lu", j); }
    } else if (o < 78) {
      uint64_t i = (uint64_t)std::max<int64_t>(0, r.range((int64_t)f.commit - 1, (int64_t)f.last() + 1)), t = r.chance(0.6) ? f.term(i) : r.range(1, (int64_t)term + 1);
      if (t == 0) t = 1;
      bool want = i > f.commit && i <= f.last() && f.term(i) == t;
      w = fmt("maybe-commit %lu/%lu", i, t);
      bool got = L->MaybeCommit(i, t);
      if (got != want) c.viol("C27 C06", "log-maybe-commit", fmt("%s gave %d, expected %d", w.c_str(), got, want));
      if (want) { f.commit = i; c.ctr["C27.commits"]++; }
    } else if (o < 88) {
      if (f.applied < f.commit) {
        uint64_t lo = std::max(f.applied, f.base);
        uint64_t i = lo + r.below(f.commit - lo + 1);
        w = fmt("applied to %lu", i); L->AppliedTo(i); f.applied = std::max(f.applied, i);
        if (i == 0) {}
      } else {
        uint64_t bad = r.chance(0.5) && f.applied ? f.applied - 1 : f.commit + 1;
        w = fmt("applied to %lu (out of range)", bad);
        if (bad && !c.panics([&] { L->AppliedTo(bad); })) c.viol("C27 C05", "log-applied-range", w + " was accepted");
      }
    } else if (o < 95) {
      uint64_t top = std::min(f.applied, stable);
      if (!pend && !bsnap && top > f.base) {
        uint64_t i = f.base + 1 + r.below(top - f.base);
        w = fmt("compact %lu", i); st->Compact(i);
        f.bterm = f.term(i);
        f.e.erase(f.e.begin(), f.e.begin() + (i - f.base)); f.sz.erase(f.sz.begin(), f.sz.begin() + (i - f.base)); f.base = i;
        c.ctr["C27.compactions"]++;
      }
    } else {
      auto sn = std::make_shared<raftpb::Snapshot>();
      uint64_t i = f.commit + 1 + r.below(f.last() - f.commit + 4);
      term += i <= f.last() || out || r.chance(0.5);  // a log that holds the same entry would not be replaced
      sn->mutable_metadata()->set_index(i); sn->mutable_metadata()->set_term(term); sn->set_data(fmt("s%lu", stamp++));
      w = fmt("restore %lu/%lu", i, term);
      L->Restore(sn);
      f.base = i; f.bterm = term; f.e.clear(); f.sz.clear(); f.commit = i; stable = i; pend = sn;
      c.ctr["C27.restores"]++;
    }
    c.log("%s", w.c_str());
    check(w.empty() ? "nothing" : w);
    if (k % 8 == 7 || k == nops - 1) for (auto& h : held) if (h.first->SerializeAsString() != h.second) c.viol("C27 C26", "log-mutated", "a returned entry changed later, seen after " + w);
    c.seen(hcomb(hcomb(f.last() - f.commit, f.last() - std::min(f.last(), stable)), hcomb(f.commit - std::min(f.commit, f.applied), (pend ? 1 : 0) + (out ? 2 : 0) + 4 * (o / 4))));
    if (k < 6) trace += (k ? "; " : "") + w;
  }
  c.sample = trace + fmt("; ... (%d operations)", nops);
}
}  // namespace vv
