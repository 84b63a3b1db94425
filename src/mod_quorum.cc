// C16: quorum arithmetic against its definition, exhaustively for small configurations and randomly for larger ones.
#include "mod.h"
#include "src/quorum/joint.h"
#include "src/quorum/majority.h"
#include "src/tracker/tracker.h"
using namespace craft;

namespace vv {
namespace {
using Acks = std::map<uint64_t, uint64_t>;
// largest index acknowledged by a majority; an empty half does not restrict
uint64_t ref_committed(const IdSet& s, const Acks& a) {
  if (s.empty()) return UINT64_MAX;
  uint64_t best = 0;
  for (auto& p : a) {
    if (!s.count(p.first)) continue;
    size_t c = 0;
    for (auto id : s) { auto it = a.find(id); c += it != a.end() && it->second >= p.second; }
    if (2 * c > s.size()) best = std::max(best, p.second);
  }
  return best;
}
int ref_vote(const IdSet& s, const std::map<uint64_t, bool>& v) {
  if (s.empty()) return kVoteWon;
  size_t yes = 0, open = 0;
  for (auto id : s) { auto it = v.find(id); if (it == v.end()) open++; else yes += it->second; }
  if (2 * yes > s.size()) return kVoteWon;
  return 2 * (yes + open) > s.size() ? kVotePending : kVoteLost;
}
int both(int a, int b) { return a == kVoteLost || b == kVoteLost ? kVoteLost : (a == kVoteWon && b == kVoteWon ? kVoteWon : kVotePending); }
std::string show(const IdSet& a, const IdSet& b, const Acks& k) {
  std::string s = "(";
  for (auto i : a) s += fmt("%lu ", i);
  s += ")(";
  for (auto i : b) s += fmt("%lu ", i);
  s += ") acks";
  for (auto& p : k) s += fmt(" %lu:%lu", p.first, p.second);
  return s;
}
void judge(Ctx& c, const IdSet& a, const IdSet& b, const Acks& k, const std::map<uint64_t, bool>& v) {
  c.nops++;
  uint64_t wa = ref_committed(a, k), wb = ref_committed(b, k);
  MajorityConfig ma(a);
  JointConfig j(a, b);
  MapAckIndexer ix(k);
  uint64_t ga = ma.CommittedIndex(ix), gj = j.CommittedIndex(ix);
  c.ctr["C16.committed"]++;
  if (ga != wa) c.viol("C16 C06", "majority-committed", fmt("committed index of %s is %lu, expected %lu", show(a, {}, k).c_str(), ga, wa));
  if (gj != std::min(wa, wb)) c.viol("C16 C06", "joint-committed", fmt("committed index of %s is %lu, expected %lu", show(a, b, k).c_str(), gj, std::min(wa, wb)));
  int va = ref_vote(a, v), vb = ref_vote(b, v);
  Acks vm; for (auto& p : v) vm[p.first] = p.second;
  c.ctr["C16.votes"]++;
  if ((int)ma.VoteResult(v) != va) c.viol("C16 C01", "majority-vote", fmt("vote result of %s (votes shown as acks) is %d, expected %d", show(a, {}, vm).c_str(), (int)ma.VoteResult(v), va));
  if ((int)j.VoteResult(v) != both(va, vb)) c.viol("C16 C01", "joint-vote", fmt("vote result of %s (votes shown as acks) is %d, expected %d", show(a, b, vm).c_str(), (int)j.VoteResult(v), both(va, vb)));
  IdSet u = a; u.insert(b.begin(), b.end());
  if (j.IDs() != u) c.viol("C16 C14", "joint-ids", "the ids of a joint configuration are not the union of its halves");
  c.seen(hcomb(hstr(show(a, b, k)), hstr(show(a, b, vm))));
}
void judge_tracker(Ctx& c) {
  auto& r = c.rng;
  int n = (int)r.range(0, 8);
  ProgressTracker t(8);
  Conf cf;
  uint64_t step = r.chance(0.1) ? 1ULL << (r.chance(0.5) ? 32 : 31) : 1, mo = r.chance(0.1) ? 1ULL << 40 : 0;
  for (int k = 1; k <= n; k++) {
    uint64_t i = 1 + (k - 1) * step;
    switch (r.below(6)) { case 0: case 1: cf.V.insert(i); break; case 2: cf.V.insert(i); cf.O.insert(i); break; case 3: cf.O.insert(i); break; case 4: cf.L.insert(i); break; case 5: cf.O.insert(i); cf.LN.insert(i); break; }
  }
  if (cf.V.empty()) { cf.V.insert(1 + 8 * step); }
  cf.al = cf.joint() && r.chance(0.5);
  ProgressTracker::Config g;
  g.voters = JointConfig(cf.V, cf.O); g.learners = cf.L; g.learners_next = cf.LN; g.auto_leave = cf.al;
  ProgressMap pm; Acks acks; std::map<uint64_t, bool> act, votes;
  for (auto id : cf.members()) {
    uint64_t m = mo + r.below(6);
    bool a = r.chance(0.5);
    pm[id] = std::make_shared<Progress>(c.logger, m + 1, m, 8, cf.L.count(id) > 0, a);
    acks[id] = m; act[id] = a;
  }
  t.SetConfig(g); t.SetProgressMap(pm);
  c.nops++;
  uint64_t w = std::min(ref_committed(cf.V, acks), ref_committed(cf.O, acks));
  if (t.Committed() != w) c.viol("C16 C06", "tracker-committed", fmt("committed %lu, expected %lu for %s", t.Committed(), w, show(cf.V, cf.O, acks).c_str()));
  bool qa = both(ref_vote(cf.V, act), ref_vote(cf.O, act)) == kVoteWon;
  if (t.QuorumActive() != qa) c.viol("C16 C20", "tracker-quorum-active", fmt("quorum active %d, expected %d", t.QuorumActive(), qa));
  if (t.IsSingleton() != (cf.V.size() == 1 && cf.O.empty())) c.viol("C16", "tracker-singleton", "singleton test wrong");
  if (from_cs(t.ConfState()) != cf) c.viol("C15 C14", "tracker-confstate", fmt("configuration state %s, expected %s", from_cs(t.ConfState()).str().c_str(), cf.str().c_str()));
  IdSet vs = cf.V; vs.insert(cf.O.begin(), cf.O.end());
  auto vn = t.VoterNodes(); auto ln = t.LearnerNodes();
  if (vn != std::vector<uint64_t>(vs.begin(), vs.end()) || ln != std::vector<uint64_t>(cf.L.begin(), cf.L.end())) c.viol("C16 C32", "tracker-nodes", "voter or learner list wrong");
  t.ResetVotes();
  for (int k = 0; k < 12; k++) {
    uint64_t id = 1 + r.below(10) * step; bool v = r.chance(0.6);
    votes.emplace(id, v);  // the first vote counts
    t.RecordVote(id, v);
    auto [y, no, res] = t.TallyVotes();
    int ey = 0, en = 0;
    for (auto i : vs) { auto it = votes.find(i); if (it != votes.end()) (it->second ? ey : en)++; }
    c.nops++; c.ctr["C16.tallies"]++;
    int er = both(ref_vote(cf.V, votes), ref_vote(cf.O, votes));
    if ((int)res != er) c.viol("C16 C01", "tally-result", fmt("tally result %d, expected %d in %s", (int)res, er, cf.str().c_str()));
    if (y != ey || no != en) c.viol("C16 C01", "tally-counts", fmt("tally %d/%d, expected %d/%d in %s", y, no, ey, en, cf.str().c_str()));
  }
  c.seen(hstr(show(cf.V, cf.O, acks)));
}
}  // namespace

void mod_quorum(Ctx& c) {
  auto& r = c.rng;
  if (c.idx < 64) {
    // exhaustive: both halves any subset of three ids (case number), every acknowledgement in {none,0,1,2,3}, every vote
    IdSet a, b;
    for (int i = 0; i < 3; i++) { if (c.idx >> i & 1) a.insert(i + 1); if (c.idx >> (3 + i) & 1) b.insert(i + 1); }
    for (int x = 0; x < 125; x++)
      for (int y = 0; y < 27; y++) {
        Acks k; std::map<uint64_t, bool> v;
        int xx = x, yy = y;
        for (int i = 1; i <= 3; i++) { if (xx % 5) k[i] = xx % 5 - 1; xx /= 5; if (yy % 3) v[i] = yy % 3 == 1; yy /= 3; }
        judge(c, a, b, k, v);
      }
    c.sample = fmt("all 3375 acknowledgement/vote combinations for halves %s", show(a, b, {}).c_str());
    return;
  }
  c.sample = "random halves, acknowledgements and votes";
  for (int n = 0; n < 150; n++) {
    IdSet a, b; Acks k; std::map<uint64_t, bool> v;
    int ids = (int)r.range(1, r.chance(0.2) ? 20 : 9);
    uint64_t off = r.chance(0.1) ? UINT64_MAX - 30 : (r.chance(0.2) ? 1000000 : 1);
    uint64_t step = r.chance(0.1) ? 1ULL << (r.chance(0.5) ? 32 : 31) : 1;
    if (step > 1) off = 1;
    double pa = 0.2 + 0.2 * (double)r.below(5), pb = 0.25 * (double)r.below(5), pk = 0.5 + 0.25 * (double)r.below(3), py = 0.2 + 0.15 * (double)r.below(5);
    uint64_t span = r.chance(0.5) ? 4 : (r.chance(0.5) ? 100 : UINT64_MAX - 2);
    for (int j = 0; j < ids; j++) {
      uint64_t i = j * step;
      if (r.chance(pa)) a.insert(off + i);
      if (r.chance(pb)) b.insert(off + i);
      if (r.chance(pk)) k[off + i] = r.below(span);
      if (r.chance(pk)) v[off + i] = r.chance(py);
    }
    judge(c, a, b, k, v);
    if (n == 0) c.sample += ", e.g. " + show(a, b, k);
  }
  for (int n = 0; n < 20; n++) judge_tracker(c);
}
}  // namespace vv
