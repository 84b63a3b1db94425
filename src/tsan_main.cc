// The documented concurrent uses, on real threads under the thread sanitizer, with oracles over the results.
#include <fcntl.h>
#include <unistd.h>
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include "mod.h"
#include "src/rawnode.h"
#include "src/storage.h"
#include "src/util.h"
using namespace craft;
namespace vv {
namespace {

// The first failure seen by any thread, reported by the case's own thread.
struct Fail {
  std::mutex mu;
  std::string key, msg;
  std::atomic<bool> set{false};
  void operator()(const std::string& k, const std::string& m) {
    std::lock_guard<std::mutex> g(mu);
    if (!set) { key = k; msg = m; set = true; }
  }
  void raise(Ctx& c, const std::string& props) { if (set) c.viol(props, key, msg); }
};
template <class F> std::thread spawn(Fail& fail, uint64_t seed, F f) {
  return std::thread([&fail, seed, f] {
    set_random_device_seed(seed);
    try { f(); }
    catch (Panic& p) { fail("C28.library_fatal", std::string("fatal error under concurrent use: ") + p.what()); }
  });
}
void jitter(Rng& r) {
  switch (r.below(24)) {
    case 0: std::this_thread::yield(); break;
    case 1: usleep(r.below(30)); break;
    default: break;
  }
}

// ---- a storage used by the consensus thread and application threads at once ----
std::string payload(uint64_t i, uint64_t t) { return "e" + std::to_string(i * 131 + t * 7) + std::string((i * 7 + t) % 40, 'p'); }
EntryPtr ent(uint64_t i, uint64_t t) { auto e = std::make_shared<raftpb::Entry>(); e->set_index(i); e->set_term(t); e->set_data(payload(i, t)); return e; }
raftpb::ConfState conf_of(uint64_t i) { raftpb::ConfState s; for (uint64_t k = 0; k <= i % 5; k++) s.add_voters(i + k + 1); return s; }

void t_storage(Ctx& c) {
  auto lg = std::make_shared<SimLogger>();
  auto st = std::make_shared<MemoryStorage>(lg);
  Fail fail;
  uint64_t s0 = c.rng.next();
  int rounds = 150 + c.rng.below(250);
  bool rewrites = c.rng.chance(0.5);
  std::atomic<uint64_t> stable{0};     // up to here the log is never rewritten
  std::atomic<uint64_t> done{0}, reads{0}, compacted_reads{0}, writes{0};
  std::atomic<int> writers{3};
  uint64_t last = 0, hs_last = 0, snap_last = 0, compact_last = 0;
  // terms: index i has the term of its last writing; below `stable` it never changes
  std::mutex tm; std::map<uint64_t, uint64_t> final_term;
  auto appender = spawn(fail, s0 + 1, [&] {
    Rng r(s0 + 1);
    uint64_t term = 1;
    for (int k = 0; k < rounds; k++) {
      uint64_t from = last + 1;
      if (rewrites && r.chance(0.2) && last > stable) { from = stable + 1 + r.below(last - stable); term++; }
      EntryPtrs es;
      uint64_t n = 1 + r.below(4);
      for (uint64_t i = 0; i < n; i++) es.push_back(ent(from + i, term));
      st->Append(es);
      writes++;
      last = from + n - 1;
      { std::lock_guard<std::mutex> g(tm); final_term.erase(final_term.lower_bound(from), final_term.end()); for (uint64_t i = 0; i < n; i++) final_term[from + i] = term; }
      if (last > stable + 6 || r.chance(0.3)) stable = std::max<uint64_t>(stable, last > 3 ? last - r.below(3) : 0);
      jitter(r);
    }
    stable = last;
    writers--;
  });
  auto app = spawn(fail, s0 + 2, [&] {
    Rng r(s0 + 2);
    for (int k = 0; k < rounds || writers > 2; k++) {
      uint64_t lim = stable;
      if (lim > snap_last && r.chance(0.6)) {
        uint64_t i = snap_last + 1 + r.below(lim - snap_last);
        auto cs = conf_of(i);
        auto [s, e] = st->CreateSnapshot(i, &cs, "S" + std::to_string(i));
        if (e.IsOK()) {
          writes++;
          if (i <= snap_last) fail("C28.snapshot_order", fmt("a snapshot at %lu was accepted after one at %lu", i, snap_last));
          snap_last = i;
        } else if (i >= compact_last && i > snap_last) fail("C28.snapshot_lost", fmt("snapshot at %lu refused though the last is %lu and the log compacted to %lu: %s", i, snap_last, compact_last, e.Str()));
      }
      if (snap_last > compact_last && r.chance(0.5)) {
        uint64_t i = compact_last + 1 + r.below(snap_last - compact_last);
        auto e = st->Compact(i);
        if (!e.IsOK()) fail("C28.compact_lost", fmt("compaction to %lu refused though the log is compacted to %lu: %s", i, compact_last, e.Str()));
        compact_last = i;
        writes++;
      }
      jitter(r);
      if (k > 100000) break;
    }
    writers--;
  });
  auto saver = spawn(fail, s0 + 3, [&] {
    Rng r(s0 + 3);
    for (int k = 1; k <= rounds; k++) {
      raftpb::HardState h; h.set_term(k); h.set_vote(k); h.set_commit(k);
      st->SetHardState(h);
      hs_last = k; writes++;
      jitter(r);
    }
    writers--;
  });
  auto reader = [&](uint64_t s) {
    Rng r(s);
    uint64_t first0 = 0, hs0 = 0, snap0 = 0;
    std::vector<std::pair<SnapshotPtr, std::string>> held;
    std::vector<std::pair<EntryPtrs, uint64_t>> heldents;
    bool over = false;
    while (!fail.set) {
      if (writers == 0) { if (over) break; over = true; }
      switch (r.below(6)) {
        case 0: {
          uint64_t f = std::get<0>(st->FirstIndex()), l = std::get<0>(st->LastIndex());
          if (f < first0) fail("C28.first_back", fmt("first index went from %lu to %lu", first0, f));
          if (l + 1 < f) fail("C28.range", fmt("last index %lu below first index %lu", l, f));
          first0 = f;
          break;
        }
        case 1: case 2: {
          uint64_t f = std::get<0>(st->FirstIndex()), hi = stable;
          if (hi < f) break;
          uint64_t lo = f + r.below(hi - f + 1), h = lo + 1 + r.below(hi - lo + 1);
          if (h > hi + 1) h = hi + 1;
          auto [es, e] = st->Entries(lo, h, r.chance(0.5) ? UINT64_MAX : r.below(200));
          if (!e.IsOK()) {
            if (std::strcmp(e.Str(), kErrCompacted)) fail("C28.entries_error", fmt("entries [%lu,%lu): %s", lo, h, e.Str()));
            compacted_reads++;
            break;
          }
          if (es.empty() || es.size() > h - lo) fail("C28.entries_size", fmt("%zu entries for [%lu,%lu)", es.size(), lo, h));
          uint64_t i = lo, sum = 0;
          for (auto& x : es) {
            if (x->index() != i || x->data() != payload(i, x->term())) fail("C28.entries_content", fmt("entry %lu reads as index %lu term %lu '%s'", i, x->index(), x->term(), x->data().c_str()));
            sum += x->index() + x->term(); i++;
          }
          if (r.chance(0.05) && heldents.size() < 20) heldents.push_back({es, sum});
          break;
        }
        case 3: {
          uint64_t f = std::get<0>(st->FirstIndex()), hi = stable;
          if (hi < f) break;
          uint64_t i = f + r.below(hi - f + 1);
          auto [t, e] = st->Term(i);
          if (!e.IsOK()) { if (std::strcmp(e.Str(), kErrCompacted)) fail("C28.term_error", fmt("term of %lu: %s", i, e.Str())); break; }
          if (t == 0) fail("C28.term_content", fmt("term of %lu is 0", i));
          break;
        }
        case 4: {
          auto [h, cs, e] = st->InitialState();
          if (h.term() != h.vote() || h.term() != h.commit()) fail("C28.torn_hard_state", fmt("hard state %lu/%lu/%lu was never saved", h.term(), h.vote(), h.commit()));
          if (h.term() < hs0) fail("C28.hard_state_back", fmt("hard state went from %lu to %lu", hs0, h.term()));
          hs0 = h.term();
          if (cs.voters_size()) { auto w = conf_of(cs.voters(0) - 1); if (cs.SerializeAsString() != w.SerializeAsString()) fail("C28.torn_conf", "a configuration was read that was never stored: " + cs.ShortDebugString()); }
          break;
        }
        case 5: {
          auto s = std::get<0>(st->SnapShot());
          uint64_t i = s->metadata().index();
          if (i && (s->data() != "S" + std::to_string(i) || s->metadata().conf_state().SerializeAsString() != conf_of(i).SerializeAsString() || !s->metadata().term()))
            fail("C28.torn_snapshot", fmt("snapshot at %lu has data '%s'", i, s->data().c_str()));
          if (i < snap0) fail("C28.snapshot_back", fmt("snapshot went from %lu to %lu", snap0, i));
          snap0 = i;
          if (r.chance(0.1) && held.size() < 30) held.push_back({s, s->SerializeAsString()});
          break;
        }
      }
      reads++;
      jitter(r);
    }
    for (auto& h : held) if (h.first->SerializeAsString() != h.second) fail("C28.snapshot_changed", "a snapshot that was handed out changed afterwards");
    for (auto& h : heldents) { uint64_t sum = 0; for (auto& x : h.first) sum += x->index() + x->term(); if (sum != h.second) fail("C28.entries_changed", "entries that were handed out changed afterwards"); }
  };
  auto r1 = spawn(fail, s0 + 4, [&] { reader(s0 + 4); });
  auto r2 = spawn(fail, s0 + 5, [&] { reader(s0 + 5); });
  appender.join(); app.join(); saver.join(); r1.join(); r2.join();
  fail.raise(c, "C28");
  // nothing was lost: the outcome of the operations in their per-thread orders
  uint64_t f = std::get<0>(st->FirstIndex()), l = std::get<0>(st->LastIndex());
  auto [h, cs, e] = st->InitialState();
  auto sn = std::get<0>(st->SnapShot());
  if (l != last) c.viol("C28", "C28.lost_append", fmt("last index %lu after appends up to %lu", l, last));
  if (f != compact_last + 1) c.viol("C28", "C28.lost_compaction", fmt("first index %lu after compaction to %lu", f, compact_last));
  if (h.term() != hs_last) c.viol("C28", "C28.lost_hard_state", fmt("hard state %lu after saving %lu", h.term(), hs_last));
  if (sn->metadata().index() != snap_last) c.viol("C28", "C28.lost_snapshot", fmt("snapshot at %lu after creating one at %lu", sn->metadata().index(), snap_last));
  for (uint64_t i = f; i <= l; i++)
    if (std::get<0>(st->Term(i)) != final_term[i]) c.viol("C28", "C28.lost_append", fmt("entry %lu has term %lu, appended last with %lu", i, std::get<0>(st->Term(i)), final_term[i]));
  c.ctr["C28.storage_reads"] += reads; c.ctr["C28.storage_writes"] += writes; c.ctr["C28.reads_during_compaction"] += compacted_reads;
  c.nops += reads + writes;
  c.seen(hcomb(l, hcomb(f, hcomb(reads, sn->metadata().index()))));
  c.sample = fmt("%lu reads by 2 threads against %lu writes by 3 threads, %lu reads met a compaction", reads.load(), writes.load(), compacted_reads.load());
}

// ---- a small deterministic cluster driven by one thread ----
uint64_t run_cluster(std::shared_ptr<Logger> lg, uint64_t seed, int steps, std::map<std::string, uint64_t>& ctr) {
  Rng r(seed);
  int N = 3;
  struct Nd { std::shared_ptr<MemoryStorage> st; std::unique_ptr<RawNode> n; raftpb::ConfState cs; };
  std::vector<Nd> nd(N);
  std::vector<raftpb::Message> net;
  raftpb::ConfState cs; for (int i = 1; i <= N; i++) cs.add_voters(i);
  uint64_t trace = 0;
  for (int i = 0; i < N; i++) {
    nd[i].st = std::make_shared<MemoryStorage>(lg);
    *nd[i].st->GetSnapshot()->mutable_metadata()->mutable_conf_state() = cs;
    Raft::Config c; c.id = i + 1; c.election_tick = 5; c.heartbeat_tick = 1; c.storage = nd[i].st; c.logger = lg; c.max_size_per_msg = 100; c.max_inflight_msgs = 4; c.check_quorum = r.chance(0.5); c.pre_vote = r.chance(0.5);
    nd[i].n = RawNode::New(c);
    nd[i].cs = cs;
  }
  for (int k = 0; k < steps; k++) {
    auto& x = nd[r.below(N)];
    auto& n = *x.n;
    uint64_t q = r.below(100);
    if (q < 25) n.Tick();
    else if (q < 30) n.Propose("p" + std::to_string(k));
    else if (q < 34) n.ReadIndex("r" + std::to_string(k));
    else if (q < 36) { raftpb::ConfChangeV2 cc; auto* s = cc.add_changes(); s->set_type(r.chance(0.5) ? raftpb::ConfChangeAddLearnerNode : raftpb::ConfChangeRemoveNode); s->set_node_id(9); if (r.chance(0.7)) cc.set_transition(r.chance(0.5) ? raftpb::ConfChangeTransitionJointImplicit : raftpb::ConfChangeTransitionJointExplicit); n.ProposeConfChange(ConfChangeI(cc)); }
    else if (q < 37) { raftpb::ConfChangeV2 cc; n.ProposeConfChange(ConfChangeI(cc)); }
    else if (q < 38) n.TransferLeader(1 + r.below(N));
    else if (q < 70 && !net.empty()) { size_t i = r.below(net.size()); auto m = net[i]; net[i] = net.back(); net.pop_back(); if (m.to() >= 1 && m.to() <= (uint64_t)N && !r.chance(0.02)) nd[m.to() - 1].n->Step(std::make_shared<raftpb::Message>(m)); }
    else if (n.HasReady()) {
      auto rd = n.GetReady();
      trace = hcomb(trace, hstr(rd->String()));
      if (!IsEmptySnap(rd->snapshot)) x.st->ApplySnapshot(rd->snapshot);
      x.st->Append(rd->entries);
      if (!IsEmptyHardState(rd->hard_state)) x.st->SetHardState(rd->hard_state);
      for (auto& m : rd->messages) if (net.size() < 100) net.push_back(*m);
      for (auto& e : rd->committed_entries) {
        ctr["C28.committed"]++;
        if (!is_conf(*e)) continue;
        if (ref_apply(from_cs(x.cs), to_v2(*e))) x.cs = n.ApplyConfChange(ConfChangeI(to_v2(*e)));
      }
      ctr["C28.reads"] += rd->read_states.size();
      n.Advance();
    }
  }
  return trace;
}

// Nodes of independent clusters in different threads do not influence each other: what each does equals what it does alone.
void t_isolated(Ctx& c) {
  auto lg = std::make_shared<SimLogger>(c.rng.chance(0.3));
  int T = 2 + c.rng.below(3), steps = 300 + c.rng.below(500);
  uint64_t s0 = c.rng.next();
  std::vector<uint64_t> alone(T), together(T);
  std::vector<std::map<std::string, uint64_t>> ctr(T), scrap(T);
  Fail fail;
  for (int t = 0; t < T; t++) spawn(fail, s0 + t, [&, t] { alone[t] = run_cluster(lg, s0 + t, steps, scrap[t]); }).join();
  std::vector<std::thread> ts;
  std::atomic<int> go{0};
  for (int t = 0; t < T; t++) ts.push_back(spawn(fail, s0 + t, [&, t] { go++; while (go < T) std::this_thread::yield(); together[t] = run_cluster(lg, s0 + t, steps, ctr[t]); }));
  for (auto& t : ts) t.join();
  fail.raise(c, "C28");
  for (int t = 0; t < T; t++) {
    if (alone[t] != together[t]) c.viol("C28", "C28.influence", "a cluster behaved differently while other clusters ran in other threads");
    for (auto& x : ctr[t]) c.ctr[x.first] += x.second;
    c.seen(alone[t]);
  }
  c.ctr["C28.isolated_runs"] += T;
  c.nops += 2 * T * steps;
  c.sample = fmt("%d clusters of 3 nodes, %d steps each, alone and then all at once in %d threads", T, steps, T);
}

// ---- one logger shared by many threads ----
void t_logger(Ctx& c) {
  Rng& r = c.rng;
  int T = 2 + r.below(4), M = 100 + r.below(600);
  LogLevel lim = (LogLevel)r.below(3);
  bool nodes = r.chance(0.3);
  fflush(stdout);
  char path[] = "/tmp/verif-log-XXXXXX";
  int tmp = mkstemp(path);
  unlink(path);
  int keep = dup(1);
  dup2(tmp, 1);
  Fail fail;
  std::vector<std::thread> ts;
  std::atomic<int> go{0};
  uint64_t s0 = r.next();
  std::vector<std::map<std::string, uint64_t>> ctr(T);
  {
    auto lg = std::make_shared<ConsoleLogger>(lim);
    for (int t = 0; t < T; t++) ts.push_back(spawn(fail, s0 + t, [&, t] {
      Rng q(s0 + t);
      go++; while (go < T) std::this_thread::yield();
      if (nodes) { run_cluster(lg, s0 + t, M, ctr[t]); return; }
      for (int k = 0; k < M; k++) {
        LogLevel lv = (LogLevel)q.below(4);
        std::string pad(q.below(60), 'a' + t);
        lg->Log(lv, "<%d %d %d %s>", t, k, (int)lv, pad.c_str());
      }
    }));
    for (auto& t : ts) t.join();
  }
  fflush(stdout);
  dup2(keep, 1); close(keep);
  std::string out;
  lseek(tmp, 0, SEEK_SET);
  char buf[65536]; ssize_t n;
  while ((n = read(tmp, buf, sizeof buf)) > 0) out.append(buf, n);
  close(tmp);
  fail.raise(c, "C28");
  static const char* pre[] = {"\x1b[32m[DEBUG] ", "\x1b[33m[INFO] ", "\x1b[35m[WARNING] ", "\x1b[31m[ERROR] "};
  std::vector<int> next(T, -1), count(T, 0);
  std::stringstream ss(out);
  std::string line;
  uint64_t lines = 0;
  while (std::getline(ss, line)) {
    if (line.rfind("\x1b[0m", 0) == 0) line = line.substr(4);
    if (line.empty()) continue;
    lines++;
    int lv = -1;
    for (int i = 0; i < 4; i++) if (line.rfind(pre[i], 0) == 0) lv = i;
    if (lv < 0) c.viol("C28", "C28.log_line", "a log line does not start with its level: " + line);
    std::string body = line.substr(strlen(pre[lv]));
    if (body.find('\x1b') != std::string::npos) c.viol("C28", "C28.log_line", "a log line contains part of another: " + line);
    if (nodes) continue;
    int t, k, l, used = 0; char pad[128] = "";
    bool ok = sscanf(body.c_str(), "<%d %d %d %100[a-z]>%n", &t, &k, &l, pad, &used) == 4 && (size_t)used == body.size();
    if (!ok) { pad[0] = 0; used = 0; ok = sscanf(body.c_str(), "<%d %d %d >%n", &t, &k, &l, &used) == 3 && (size_t)used == body.size(); }
    if (!ok || t < 0 || t >= T || l != lv) c.viol("C28", "C28.log_line", "a log line is not what was logged: " + line);
    for (char* p = pad; *p; p++) if (*p != 'a' + t) c.viol("C28", "C28.log_line", "a log line is mixed: " + line);
    if (k <= next[t]) c.viol("C28", "C28.log_order", fmt("line %d of thread %d after line %d", k, t, next[t]));
    if (lv < lim) c.viol("C28", "C28.log_level", "a line below the level was logged: " + line);
    next[t] = k; count[t]++;
  }
  if (!nodes) {
    for (int t = 0; t < T; t++) {
      Rng q(s0 + t);
      int want = 0;
      for (int k = 0; k < M; k++) { LogLevel lv = (LogLevel)q.below(4); q.below(60); want += lv >= lim; }
      if (count[t] != want) c.viol("C28", "C28.log_lost", fmt("%d of %d lines of thread %d arrived", count[t], want, t));
    }
  }
  c.ctr["C28.log_lines"] += lines;
  c.nops += lines;
  c.seen(hcomb(lines, s0));
  c.sample = fmt("%d threads, %lu lines through one logger%s", T, lines, nodes ? " (by nodes)" : "");
}

// ---- one node per thread, each with an application thread that persists, sends, applies and compacts ----
struct Box {
  std::mutex mu; std::deque<std::string> q;
  void put(std::string s) { std::lock_guard<std::mutex> g(mu); if (q.size() < 300) q.push_back(std::move(s)); }
  bool get(std::string& s) { std::lock_guard<std::mutex> g(mu); if (q.empty()) return false; s = std::move(q.front()); q.pop_front(); return true; }
};

void t_cluster(Ctx& c) {
  Rng& r = c.rng;
  int N = r.chance(0.5) ? 3 : 2 + r.below(3);
  int loops = 400 + r.below(600);
  std::shared_ptr<Logger> lg = std::make_shared<SimLogger>(r.chance(0.2));
  uint64_t s0 = r.next();
  Fail fail;
  std::vector<Box> box(N);
  raftpb::ConfState cs; for (int i = 1; i <= N; i++) cs.add_voters(i);
  std::mutex gm; std::map<uint64_t, uint64_t> agreed;
  std::atomic<uint64_t> nread{0}, ncommit{0}, nsnap{0}, nsent{0}, ndone{0}, ntrunc{0};
  std::vector<std::thread> ts;
  bool cq = r.chance(0.5), pv = r.chance(0.5), lossy = r.chance(0.5);
  for (int i = 0; i < N; i++) ts.push_back(spawn(fail, s0 + i, [&, i] {
    Rng q(s0 + i * 77 + 1);
    auto st = std::make_shared<MemoryStorage>(lg);
    *st->GetSnapshot()->mutable_metadata()->mutable_conf_state() = cs;
    Raft::Config cfg; cfg.id = i + 1; cfg.election_tick = 6; cfg.heartbeat_tick = 1; cfg.storage = st; cfg.logger = lg; cfg.max_size_per_msg = 60 + q.below(200); cfg.max_inflight_msgs = 1 + q.below(6); cfg.check_quorum = cq; cfg.pre_vote = pv;
    auto n = RawNode::New(cfg);
    // the application thread
    std::mutex mu; std::condition_variable cv;
    std::shared_ptr<Ready> work; bool finished = false, quit = false;
    std::atomic<uint64_t> advanced{0};   // what the library knows to be applied; the log may be compacted up to here
    auto app = spawn(fail, s0 + i + 1000, [&, i] {
      Rng a(s0 + i * 77 + 2);
      uint64_t applied = 0;
      while (true) {
        std::shared_ptr<Ready> rd;
        { std::unique_lock<std::mutex> g(mu); cv.wait(g, [&] { return work || quit; }); if (!work) return; rd = work; work = nullptr; }
        if (!IsEmptySnap(rd->snapshot)) { st->ApplySnapshot(rd->snapshot); applied = std::max<uint64_t>(applied, rd->snapshot->metadata().index()); nsnap++; }
        if (!rd->entries.empty() && rd->entries[0]->index() <= std::get<0>(st->LastIndex())) ntrunc++;
        st->Append(rd->entries);
        if (!IsEmptyHardState(rd->hard_state)) st->SetHardState(rd->hard_state);
        jitter(a);
        for (auto& m : rd->messages) {
          std::string w = m->SerializeAsString();
          if (lossy && a.chance(0.03)) continue;
          if (m->to() >= 1 && m->to() <= (uint64_t)N) { box[m->to() - 1].put(w); nsent++; if (lossy && a.chance(0.03)) box[m->to() - 1].put(w); }
        }
        for (auto& e : rd->committed_entries) {
          if (e->index() != applied + 1) fail("C28.gap", fmt("node %d applies %lu after %lu", i + 1, e->index(), applied));
          applied = e->index();
          uint64_t h = chain_next(0, *e);
          std::lock_guard<std::mutex> g(gm);
          auto it = agreed.emplace(applied, h).first;
          if (it->second != h) fail("C28.disagree", fmt("node %d applies another entry at %lu than another node", i + 1, applied));
          ncommit++;
        }
        nread += rd->read_states.size();
        if (a.chance(0.15) && applied > 2) {
          uint64_t k = applied - a.below(2);
          st->CreateSnapshot(k, &cs, "s" + std::to_string(k));
          uint64_t lim = std::min<uint64_t>(k, advanced);
          if (a.chance(0.8) && lim > 3) st->Compact(lim - a.below(3));
        }
        { std::lock_guard<std::mutex> g(mu); finished = true; }
        // goes on touching what it was handed after reporting it as done
        uint64_t sum = 0;
        for (auto& m : rd->messages) sum += m->index();
        for (auto& e : rd->entries) sum += e->data().size();
        if (sum == UINT64_MAX) jitter(a);
      }
    });
    bool outstanding = false;
    struct Join { std::thread& t; std::mutex& mu; std::condition_variable& cv; bool& quit; ~Join() { { std::lock_guard<std::mutex> g(mu); quit = true; } cv.notify_one(); t.join(); } } join{app, mu, cv, quit};
    for (int k = 0; k < loops && !fail.set; k++) {
      std::string w;
      for (int b = 0; b < 4 && box[i].get(w); b++) {
        auto m = std::make_shared<raftpb::Message>();
        m->ParseFromString(w);
        n->Step(m);
        if (m->type() == raftpb::MsgSnap) jitter(q);
      }
      if (q.chance(0.25)) n->Tick();
      if (q.chance(0.2)) n->Propose("n" + std::to_string(i) + "-" + std::to_string(k));
      if (q.chance(0.05)) n->ReadIndex("n" + std::to_string(i) + "-" + std::to_string(k));
      if (q.chance(0.01)) n->TransferLeader(1 + q.below(N));
      if (q.chance(0.02)) { auto s = n->GetStatus(); for (auto& p : s.progress) { p.second->String(); if (p.second->State() == StateType::kSnapshot) n->ReportSnapshot(p.first, q.chance(0.7) ? kFinish : kFailure); } }
      if (outstanding) {
        bool f; { std::lock_guard<std::mutex> g(mu); f = finished; }
        if (f) { n->Advance(); outstanding = false; advanced = n->GetRaft()->GetRaftLog()->Applied(); }
      }
      if (!outstanding && n->HasReady()) {
        auto rd = n->GetReady();
        { std::lock_guard<std::mutex> g(mu); work = rd; finished = false; }
        cv.notify_one();
        outstanding = true;
      }
      jitter(q);
      if (q.chance(0.3)) usleep(20);
    }
    ndone++;
  }));
  for (auto& t : ts) t.join();
  fail.raise(c, "C28");
  c.ctr["C28.threaded_committed"] += ncommit; c.ctr["C28.threaded_reads"] += nread; c.ctr["C28.threaded_messages"] += nsent; c.ctr["C28.threaded_snapshots"] += nsnap; c.ctr["C28.threaded_rewrites"] += ntrunc;
  c.nops += nsent + ncommit;
  c.seen(hcomb(hcomb(ncommit, nsent), hcomb(nread, agreed.size())));
  c.sample = fmt("%d nodes with 2 threads each exchanged %lu messages and applied %lu entries in agreement", N, nsent.load(), ncommit.load());
}
}  // namespace

const std::map<std::string, void (*)(Ctx&)>& modules() {
  static const std::map<std::string, void (*)(Ctx&)> m = {{"storage", t_storage}, {"isolated", t_isolated}, {"logger", t_logger}, {"cluster", t_cluster}};
  return m;
}
}  // namespace vv
