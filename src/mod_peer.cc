// One real node next to a reference follower: a made-up but legal cluster (leaders of successive terms with logs that
// share the committed prefix, their current and late messages, candidates, snapshots) talks to it, batches are taken,
// persisted and acknowledged at any moment in between, and it crashes. After every operation the whole observable
// state, the answers and the next batch are compared with the reference.
#include <algorithm>
#include "mod.h"
#include "src/rawnode.h"
using namespace craft;

namespace vv {
namespace {
using Msg = raftpb::Message;
using MsgP = std::shared_ptr<Msg>;

struct Ent { uint64_t term = 0; int type = 0; std::string data; bool operator==(const Ent& o) const { return term == o.term && type == o.type && data == o.data; } };
struct Flat {  // entries after base
  uint64_t base = 0, bterm = 0;
  std::vector<Ent> e;
  uint64_t last() const { return base + e.size(); }
  uint64_t term(uint64_t i) const { return i == base ? bterm : i < base || i > last() ? 0 : e[i - base - 1].term; }
  const Ent& at(uint64_t i) const { return e[i - base - 1]; }
};
struct Hard { uint64_t term = 0, vote = 0, commit = 0; bool operator==(const Hard& o) const { return term == o.term && vote == o.vote && commit == o.commit; } };
struct Leader { uint64_t term, id; std::vector<Ent> log; uint64_t commit, match, first; };  // log[0] is index 1
struct Snap { uint64_t index = 0, term = 0; std::string data; Conf conf; };

std::string data_of(const std::vector<Ent>& log, uint64_t n) { uint64_t h = 7; for (uint64_t i = 0; i < n; i++) h = hcomb(h, hcomb(log[i].term, hstr(log[i].data))); return fmt("state-%lx", h); }
raftpb::Entry to_entry(uint64_t i, const Ent& e) { raftpb::Entry x; x.set_index(i); x.set_term(e.term); x.set_type((raftpb::EntryType)e.type); x.set_data(e.data); return x; }
enum { F = (int)RaftStateType::kFollower, Ca = (int)RaftStateType::kCandidate, Pc = (int)RaftStateType::kPreCandidate, Ld = (int)RaftStateType::kLeader };

struct Sim1 {
  Ctx& c; Rng& r;
  uint64_t me; std::vector<uint64_t> ids;  // ids[0] = me
  bool pv, cq, nofwd; int E; uint64_t maxc;
  std::shared_ptr<MemoryStorage> st;
  std::unique_ptr<RawNode> node;
  // reference
  Flat log; uint64_t stable = 0, commit = 0, applied = 0, term = 0, vote = 0, lead = 0, elapsed = 0; int role = F; Conf conf;
  std::map<uint64_t, bool> votes;
  bool pend = false; Snap psnap;
  Hard prev; int prev_role = F; uint64_t prev_lead = 0;
  std::vector<std::pair<uint64_t, std::string>> reads;
  std::vector<MsgP> sent;            // messages since the last batch was taken
  // durable side
  Flat dlog; Hard dhs; Conf dconf; uint64_t dapplied = 0;
  // outstanding batch
  std::shared_ptr<Ready> rd; bool persisted = false;
  // the world
  std::vector<Ent> C; std::vector<Leader> leaders; std::vector<MsgP> old; uint64_t stamp = 0, granter = 0;
  std::string hist;
  size_t opn = 0;

  Sim1(Ctx& c) : c(c), r(c.rng) {}
  void bad(const std::string& props, const char* key, const std::string& what) { c.viol(props, key, what + " (node " + std::to_string(me) + ", " + conf.str() + fmt(", pre-vote %d quorum-check %d;", pv, cq) + (hist.size() > 900 ? " ..." + hist.substr(hist.size() - 900) : hist) + ")"); }
  bool promotable() const { return conf.voter(me) && !pend; }
  MsgP mk(raftpb::MessageType t, uint64_t from, uint64_t tm) { auto m = std::make_shared<Msg>(); m->set_type(t); m->set_from(from); m->set_to(me); m->set_term(tm); return m; }
  MsgP ans(raftpb::MessageType t, uint64_t to, uint64_t tm) { auto m = std::make_shared<Msg>(); m->set_type(t); m->set_from(me); m->set_to(to); m->set_term(tm); return m; }

  // ---- the reference
  std::vector<MsgP> want; bool hint = false; uint64_t hint_index = 0, hint_term = 0;  // a refused append: judged by rule
  void become_follower(uint64_t t, uint64_t l) { if (t != term) { term = t; vote = 0; } lead = l; role = F; elapsed = 0; votes.clear(); }
  void campaign(bool transfer, bool forced_real) {
    bool pre = pv && !forced_real;
    votes.clear(); votes[me] = true;
    if (pre) { role = Pc; lead = 0; } else { term++; vote = me; role = Ca; lead = 0; elapsed = 0; }
    for (auto v : conf.members()) if (v != me && conf.voter(v)) {
      auto m = ans(pre ? raftpb::MsgPreVote : raftpb::MsgVote, v, pre ? term + 1 : term);
      m->set_index(log.last()); m->set_logterm(log.term(log.last()));
      if (transfer) m->set_context("CampaignTransfer");
      want.push_back(m);
    }
    c.ctr["peer.campaigns"]++;
  }
  bool lost() const {
    for (const IdSet* s : {&conf.V, &conf.O}) {
      if (s->empty()) continue;
      size_t no = 0;
      for (auto v : *s) { auto it = votes.find(v); no += it != votes.end() && !it->second; }
      if ((s->size() - no) * 2 <= s->size()) return true;
    }
    return false;
  }
  void ref_app(const Msg& m) {
    if (m.index() < commit) { auto a = ans(raftpb::MsgAppResp, m.from(), term); a->set_index(commit); want.push_back(a); c.ctr["peer.old_appends"]++; return; }
    bool match = m.index() <= log.last() && log.term(m.index()) == m.logterm();
    if (!match) {
      hint = true; hint_index = m.index(); hint_term = m.logterm();
      auto a = ans(raftpb::MsgAppResp, m.from(), term); a->set_index(m.index()); a->set_reject(true); want.push_back(a); c.ctr["peer.refused_appends"]++;
      return;
    }
    for (auto& x : m.entries()) {
      if (x.index() <= log.last() && log.term(x.index()) == x.term()) continue;
      if (x.index() <= log.last()) { c.ctr["peer.truncations"]++; log.e.resize(x.index() - log.base - 1); stable = std::min(stable, x.index() - 1); }
      log.e.push_back({x.term(), (int)x.type(), x.data()});
    }
    uint64_t ln = m.index() + m.entries_size();
    commit = std::max(commit, std::min(m.commit(), ln));
    auto a = ans(raftpb::MsgAppResp, m.from(), term); a->set_index(ln); want.push_back(a);
    c.ctr["peer.appends"]++;
  }
  void ref_snap(const Msg& m) {
    auto& md = m.snapshot().metadata();
    auto a = ans(raftpb::MsgAppResp, m.from(), term);
    Conf sc = from_cs(md.conf_state());
    if (md.index() <= commit || !sc.member(me)) { a->set_index(commit); c.ctr["peer.ignored_snapshots"]++; }
    else if (md.index() <= log.last() && log.term(md.index()) == md.term()) { commit = md.index(); a->set_index(commit); c.ctr["peer.fast_forwards"]++; }
    else {
      if (pend) c.ctr["peer.superseded_snapshots"]++;
      log.base = md.index(); log.bterm = md.term(); log.e.clear(); stable = commit = md.index();
      pend = true; psnap = {md.index(), md.term(), m.snapshot().data(), sc}; conf = sc;
      a->set_index(md.index()); c.ctr["peer.installs"]++;
    }
    want.push_back(a);
  }
  void ref_step(const Msg& m) {
    auto t = m.type();
    bool v = t == raftpb::MsgVote || t == raftpb::MsgPreVote, lm = t == raftpb::MsgApp || t == raftpb::MsgHeartbeat || t == raftpb::MsgSnap;
    if (m.term() > term) {
      if (v && m.context() != "CampaignTransfer" && cq && lead && elapsed < (uint64_t)E) { c.ctr["peer.lease_ignored"]++; return; }
      if (t == raftpb::MsgPreVote || (t == raftpb::MsgPreVoteResp && !m.reject())) {}
      else become_follower(m.term(), lm ? m.from() : 0);
    } else if (m.term() < term && m.term()) {
      c.ctr["peer.stale"]++;
      if (t == raftpb::MsgApp || t == raftpb::MsgHeartbeat) want.push_back(ans(raftpb::MsgAppResp, m.from(), term));
      else if (v) { auto a = ans(t == raftpb::MsgVote ? raftpb::MsgVoteResp : raftpb::MsgPreVoteResp, m.from(), term); a->set_reject(true); want.push_back(a); }
      return;
    }
    if (v) {
      bool can = vote == m.from() || (!vote && !lead) || (t == raftpb::MsgPreVote && m.term() > term);
      uint64_t lt = log.term(log.last());
      bool utd = m.logterm() > lt || (m.logterm() == lt && m.index() >= log.last());
      auto a = ans(t == raftpb::MsgVote ? raftpb::MsgVoteResp : raftpb::MsgPreVoteResp, m.from(), can && utd ? m.term() : term);
      if (!(can && utd)) a->set_reject(true);
      else if (t == raftpb::MsgVote) { vote = m.from(); elapsed = 0; }
      want.push_back(a);
      c.ctr[can && utd ? "peer.grants" : can ? "peer.refused_old_logs" : "peer.refusals"]++;
      return;
    }
    if (lm) {
      if (role != F) become_follower(m.term(), m.from());
      lead = m.from(); elapsed = 0;
      if (t == raftpb::MsgApp) ref_app(m);
      else if (t == raftpb::MsgSnap) ref_snap(m);
      else { commit = std::max(commit, m.commit()); auto a = ans(raftpb::MsgHeartbeatResp, m.from(), term); a->set_context(m.context()); want.push_back(a); }
      return;
    }
    if (role != F) {
      if (t == (role == Pc ? raftpb::MsgPreVoteResp : raftpb::MsgVoteResp)) {
        votes.emplace(m.from(), !m.reject());
        if (lost()) { become_follower(term, 0); c.ctr["peer.lost"]++; }
      }
      return;
    }
    if (t == raftpb::MsgTimeoutNow && promotable()) campaign(true, true);
    if (t == raftpb::MsgReadIndexResp && m.entries_size() == 1) reads.push_back({m.index(), m.entries(0).data()});
  }

  // ---- comparison
  static std::string ms(const Msg& m) { return fmt("%s to %lu from %lu term %lu logterm %lu index %lu commit %lu reject %d hint %lu entries %d ctx %s", raftpb::MessageType_Name(m.type()).c_str(), m.to(), m.from(), m.term(), m.logterm(), m.index(), m.commit(), m.reject(), m.rejecthint(), m.entries_size(), m.context().c_str()); }
  void cmp_msg(const Msg& g, const Msg& w) {
    bool vt = w.type() == raftpb::MsgVote || w.type() == raftpb::MsgPreVote, vr = w.type() == raftpb::MsgVoteResp || w.type() == raftpb::MsgPreVoteResp;
    std::string tags = vt ? "C36 C01 C02" : vr ? "C36 C01 C02" : w.type() == raftpb::MsgAppResp ? "C36 C03 C35" : "C36";
    bool same = g.type() == w.type() && g.to() == w.to() && g.from() == w.from() && g.term() == w.term() && g.index() == w.index() && g.reject() == w.reject() && g.context() == w.context() && g.entries_size() == w.entries_size();
    if (hint && w.reject() && w.type() == raftpb::MsgAppResp) {
      uint64_t top = std::min(hint_index, log.last()), h = g.rejecthint();
      bool ok = same && h <= top && (h < log.base || log.term(h) == g.logterm());
      for (uint64_t i = std::max(h, log.base) + 1; ok && i <= top; i++) ok = log.term(i) > hint_term;
      if (!ok) bad("C36 C25", "peer-hint", fmt("answered %s to an append after %lu/%lu, own log ends at %lu/%lu", ms(g).c_str(), hint_index, hint_term, log.last(), log.term(log.last())));
      return;
    }
    if (!same || g.logterm() != w.logterm() || g.commit() != w.commit() || g.rejecthint() != w.rejecthint()) bad(tags, "peer-answer", "sent " + ms(g) + ", expected " + ms(w));
  }
  void check(const std::string& what, const std::string& extra = "") {
    c.nops++; opn++;
    hist += " " + what;
    if (c.verbose) c.log("%s", what.c_str());
    auto b = node->GetBasicStatus();
    auto p = node->ReadyWithoutAccept();
    std::string X = extra.empty() ? "" : " " + extra;
    // what was sent
    std::vector<MsgP> neu(p->messages.begin() + std::min(sent.size(), p->messages.size()), p->messages.end());
    if (p->messages.size() < sent.size()) bad("C08" + X, "peer-messages-lost", fmt("%zu messages to send, expected %zu", p->messages.size(), sent.size()));
    if (neu.size() != want.size()) bad("C36" + X, "peer-answers", fmt("%zu messages sent by one step, expected %zu%s%s", neu.size(), want.size(), neu.empty() ? "" : ": ", neu.empty() ? "" : ms(*neu[0]).c_str()));
    auto by = [](const MsgP& a, const MsgP& z) { return a->to() < z->to(); };
    std::vector<MsgP> a = neu, z = want;
    std::stable_sort(a.begin(), a.end(), by); std::stable_sort(z.begin(), z.end(), by);
    for (size_t i = 0; i < a.size(); i++) cmp_msg(*a[i], *z[i]);
    for (auto& m : neu) sent.push_back(std::make_shared<Msg>(*m));
    want.clear(); hint = false;
    // status
    auto st_of = [](int s) { return s == F ? "follower" : s == Ca ? "candidate" : s == Pc ? "pre-candidate" : "leader"; };
    if ((int)b.soft_state.raft_state != role) bad("C01 C33 C35 C36" + X, "peer-role", fmt("is %s, expected %s", st_of((int)b.soft_state.raft_state), st_of(role)));
    if (b.hard_state.term() != term) bad("C07 C01 C35 C21" + X, "peer-term", fmt("term %lu, expected %lu", b.hard_state.term(), term));
    if (b.hard_state.vote() != vote) bad("C01 C07 C35" + X, "peer-vote", fmt("vote %lu, expected %lu", b.hard_state.vote(), vote));
    if (b.hard_state.commit() != commit) bad("C06 C04 C07 C17" + X, "peer-commit", fmt("commit %lu, expected %lu (log ends at %lu)", b.hard_state.commit(), commit, log.last()));
    if (b.soft_state.lead != lead) bad("C36 C35" + X, "peer-lead", fmt("leader %lu, expected %lu", b.soft_state.lead, lead));
    if (b.applied != applied) bad("C05 C07 C32" + X, "peer-applied", fmt("applied %lu, expected %lu", b.applied, applied));
    // the next batch
    auto ents = [&](const EntryPtrs& v, uint64_t lo, uint64_t hi, const char* what, const char* tags) {
      if (v.size() != hi - lo + 1) bad(tags + X, what, fmt("%zu entries, expected %lu..%lu", v.size(), lo, hi));
      for (size_t i = 0; i < v.size(); i++) if (v[i]->index() != lo + i || !(Ent{v[i]->term(), (int)v[i]->type(), v[i]->data()} == log.at(lo + i))) bad(tags + X, what, fmt("entry %lu/%lu in place %lu, expected term %lu", v[i]->index(), v[i]->term(), lo + i, log.term(lo + i)));
    };
    ents(p->entries, stable + 1, log.last(), "peer-unstable", "C03 C08 C27 C09");
    if (p->snapshot == nullptr || (p->snapshot->metadata().index() != 0) != pend) bad("C17 C08 C27" + X, "peer-snapshot", fmt("snapshot to persist: expected %d", pend));
    if (pend && (p->snapshot->metadata().index() != psnap.index || p->snapshot->metadata().term() != psnap.term || p->snapshot->data() != psnap.data || from_cs(p->snapshot->metadata().conf_state()) != psnap.conf)) bad("C17 C08", "peer-snapshot", fmt("another snapshot (%lu/%lu) than the one received (%lu/%lu) is to be persisted", p->snapshot->metadata().index(), p->snapshot->metadata().term(), psnap.index, psnap.term));
    uint64_t lo = std::max(applied, log.base) + 1, hi = lo - 1, size = 0;
    for (uint64_t i = lo; i <= commit; i++) { size += to_entry(i, log.at(i)).ByteSizeLong(); if (i > lo && size > maxc) break; hi = i; }
    ents(p->committed_entries, lo, hi, "peer-delivery", "C05 C04 C18 C03 C27");
    for (auto& x : p->committed_entries) if (x->index() > C.size() || !(Ent{x->term(), (int)x->type(), x->data()} == C[x->index() - 1])) bad("C04 C05 C06" + X, "peer-delivers-uncommitted", fmt("delivers %lu/%lu, which is not committed", x->index(), x->term()));
    Hard now{term, vote, commit};
    bool hs_changed = !(now == prev);
    if (IsEmptyHardState(p->hard_state) == hs_changed && !(now == Hard{})) bad("C08" + X, "peer-hardstate", fmt("hard state to persist: %d, expected %d", !IsEmptyHardState(p->hard_state), hs_changed));
    if (hs_changed && !(Hard{p->hard_state.term(), p->hard_state.vote(), p->hard_state.commit()} == now)) bad("C08 C07" + X, "peer-hardstate", "another hard state than the current one");
    bool ms_ = log.last() > stable || now.term != prev.term || now.vote != prev.vote;
    if (ms_ && !p->must_sync) bad("C08" + X, "peer-must-sync", "a synchronous write is not requested");
    bool ss = role != prev_role || lead != prev_lead;
    if (p->soft_state.has_value() != ss) bad("C08" + X, "peer-softstate", fmt("soft state reported: %d, expected %d", p->soft_state.has_value(), ss));
    if (p->read_states.size() != reads.size()) bad("C08 C11 C36" + X, "peer-reads", fmt("%zu read results, expected %zu", p->read_states.size(), reads.size()));
    for (size_t i = 0; i < reads.size(); i++) if (p->read_states[i].index != reads[i].first || p->read_states[i].request_ctx != reads[i].second) bad("C11 C08 C36" + X, "peer-reads", "another read result than the one received");
    bool has = ss || hs_changed || pend || log.last() > stable || hi >= lo || !sent.empty() || !reads.empty();
    if (node->HasReady() != has) bad("C08" + X, "peer-hasready", fmt("HasReady %d, expected %d", !has, has));
    c.ctr["peer.checks"]++;
    c.seen(hcomb(hcomb(hcomb(role, lead != 0), hcomb(std::min<uint64_t>(log.last() - commit, 3), std::min<uint64_t>(log.last() - std::min(stable, log.last()), 3))), hcomb(hcomb(std::min<uint64_t>(commit - std::min(commit, applied), 3), pend + 2 * (rd != nullptr) + 4 * persisted), hcomb(vote != 0, hstr(what.substr(0, 4))))));
  }

  // ---- driving
  void step(MsgP m, const std::string& what) {
    old.push_back(m);
    ref_step(*m);
    auto cp = std::make_shared<Msg>(*m);
    auto s = node->Step(cp);
    if (!s.IsOK()) bad("C35 C36", "peer-step-refused", what + " was refused: " + s.Str());
    check(what);
  }
  Conf mkconf() {
    Conf k;
    size_t n = ids.size();
    for (size_t i = 1; i < n; i++) k.V.insert(ids[i]);
    if (r.chance(0.75)) k.V.insert(me); else k.L.insert(me);
    while (k.V.size() < 5) k.V.insert(100 + r.below(9));
    if (r.chance(0.15)) { k.O = k.V; if (k.V.size() > 5) { auto it = k.V.begin(); std::advance(it, r.below(k.V.size())); uint64_t x = *it; k.V.erase(x); if (r.chance(0.5)) k.LN.insert(x); } k.al = r.chance(0.5); }
    return k;
  }
  void new_leader() {
    Leader L;
    uint64_t mt = 0; for (auto& x : leaders) mt = std::max(mt, x.term);
    L.term = std::max(mt + 1 + r.below(2), r.chance(0.85) && term > 0 ? term + (r.chance(0.6) ? 1 : 0) : 0);
    L.id = ids[1 + r.below(ids.size() - 1)];
    std::vector<Leader*> src;
    for (auto& x : leaders) if (x.log.size() >= C.size() && std::equal(C.begin(), C.end(), x.log.begin())) src.push_back(&x);
    auto& s = *src[r.below(src.size())];
    uint64_t n = r.chance(0.4) ? C.size() : C.size() + r.below(s.log.size() - C.size() + 1);
    L.log.assign(s.log.begin(), s.log.begin() + n);
    L.log.push_back({L.term, 0, ""});
    L.commit = r.chance(0.7) ? C.size() : std::max<uint64_t>(1, C.size() - r.below(std::min<uint64_t>(C.size(), 3)));
    L.match = 0; L.first = 1 + r.below(L.commit + 1);
    leaders.push_back(L);
    c.ctr["peer.leaders"]++;
    hist += fmt(" [leader %lu of term %lu with %zu entries, committed %zu]", L.id, L.term, L.log.size(), C.size());
  }
  MsgP gen_append(Leader& L) {
    auto m = mk(raftpb::MsgApp, L.id, L.term);
    uint64_t n = L.log.size(), p;
    if (r.chance(0.5)) p = std::min(n, log.last()); else if (r.chance(0.5)) p = std::min(n, std::max(commit, L.match)); else p = L.first - 1 + r.below(n - L.first + 2);
    if (p > 0 && r.chance(0.2)) p--;
    if (p < L.first - 1) p = L.first - 1;
    uint64_t k = r.chance(0.3) ? 0 : r.below(std::min<uint64_t>(n - p, 6) + 1);
    m->set_index(p); m->set_logterm(p ? L.log[p - 1].term : 0);
    for (uint64_t i = p + 1; i <= p + k; i++) *m->add_entries() = to_entry(i, L.log[i - 1]);
    m->set_commit(r.chance(0.7) ? L.commit : r.below(L.commit + 1));
    return m;
  }
  void start(uint64_t a) {
    Raft::Config g;
    g.id = me; g.election_tick = E; g.heartbeat_tick = 1; g.storage = st; g.applied = a; g.max_size_per_msg = r.chance(0.5) ? UINT64_MAX : r.below(300);
    g.max_committed_size_per_ready = maxc; g.max_inflight_msgs = 8; g.logger = c.logger; g.pre_vote = pv; g.check_quorum = cq; g.disable_proposal_forwarding = nofwd;
    if (maxc == 0) g.max_size_per_msg = 0;
    node = RawNode::New(g);
    log = dlog; stable = log.last(); conf = dconf; pend = false; role = F; lead = 0; elapsed = 0; votes.clear(); reads.clear(); sent.clear(); rd = nullptr; persisted = false;
    term = dhs.term; vote = dhs.vote; commit = std::max(dhs.commit, log.base); applied = std::max(a, log.base);
    prev = {term, vote, commit}; prev_role = F; prev_lead = 0;
  }
  void persist() {
    if (!IsEmptySnap(rd->snapshot)) {
      st->ApplySnapshot(rd->snapshot);
      dlog.base = rd->snapshot->metadata().index(); dlog.bterm = rd->snapshot->metadata().term(); dlog.e.clear(); dconf = from_cs(rd->snapshot->metadata().conf_state());
      dapplied = std::max(dapplied, dlog.base);
    }
    if (!rd->entries.empty()) {
      EntryPtrs es(rd->entries.begin(), rd->entries.end()); st->Append(es);
      uint64_t f = rd->entries.front()->index();
      if (f <= dlog.base) bad("C08", "peer-persist-range", fmt("entry %lu to persist, but the storage begins after %lu", f, dlog.base));
      dlog.e.resize(f - dlog.base - 1);
      for (auto& x : rd->entries) dlog.e.push_back({x->term(), (int)x->type(), x->data()});
    }
    if (!IsEmptyHardState(rd->hard_state)) { st->SetHardState(rd->hard_state); dhs = {rd->hard_state.term(), rd->hard_state.vote(), rd->hard_state.commit()}; }
    persisted = true;
    // now the messages are on their way
    for (auto& m : rd->messages) if (m->type() == raftpb::MsgAppResp && !m->reject()) for (auto& L : leaders) if (L.term == m->term() && L.id == m->to()) L.match = std::max(L.match, m->index());
    for (auto& x : rd->committed_entries) dapplied = std::max(dapplied, x->index());
  }
  void run() {
    me = r.chance(0.85) ? 1 : UINT64_MAX - r.below(3);
    ids.push_back(me); for (uint64_t i = 2; i <= 6; i++) ids.push_back(r.chance(0.9) ? i : i << 33);
    granter = ids[1 + r.below(5)];
    pv = r.chance(0.5); cq = r.chance(0.5); nofwd = r.chance(0.2); E = (int)r.range(2, 12); maxc = r.chance(0.4) ? UINT64_MAX : r.below(200);
    if (maxc == 0) maxc = 1;
    st = std::make_shared<MemoryStorage>(c.logger);
    uint64_t b0 = r.range(1, 6), t0 = r.range(1, 3);
    for (uint64_t i = 0; i < b0; i++) C.push_back({t0, 0, fmt("d%lu", stamp++)});
    dconf = mkconf();
    auto sn = std::make_shared<raftpb::Snapshot>();
    sn->mutable_metadata()->set_index(b0); sn->mutable_metadata()->set_term(t0); *sn->mutable_metadata()->mutable_conf_state() = to_cs(dconf); sn->set_data(data_of(C, b0));
    st->ApplySnapshot(sn);
    dlog.base = b0; dlog.bterm = t0; dapplied = b0;
    dhs = {t0, 0, b0};
    if (r.chance(0.5)) {
      // entries left behind by an earlier leader, perhaps committed, perhaps not
      EntryPtrs es; uint64_t t = t0;
      for (int i = 0, n = (int)r.range(1, 5); i < n; i++) { t += r.chance(0.3); Ent e{t, 0, fmt("d%lu", stamp++)}; dlog.e.push_back(e); es.push_back(std::make_shared<raftpb::Entry>(to_entry(dlog.last(), e))); }
      st->Append(es); dhs.term = t + r.below(2);
    }
    raftpb::HardState hs; hs.set_term(dhs.term); hs.set_commit(dhs.commit); st->SetHardState(hs);
    Leader L0; L0.term = dlog.term(dlog.last()); L0.id = ids[1]; L0.log = C; for (auto& e : dlog.e) L0.log.push_back(e); L0.commit = b0; L0.match = 0; L0.first = 1;
    if (dlog.e.size() && r.chance(0.3)) { uint64_t k = 0; for (uint64_t i = dlog.last(); i > b0 && dlog.term(i) == L0.term; i--) k = i; k += r.below(dlog.last() - k + 1); if (k > b0) { C.assign(L0.log.begin(), L0.log.begin() + k); L0.commit = k; } }
    leaders.push_back(L0);
    start(r.chance(0.5) ? b0 : 0);
    hist = fmt(" start after %lu/%lu with %zu entries, term %lu:", b0, t0, dlog.e.size(), term);
    check("start", "C09");
    int n = (int)r.range(20, 160);
    double qlead = r.chance(0.3) ? 0.02 : 0.07;
    for (int k = 0; k < n; k++) one(qlead);
    c.sample = hist.substr(0, 400);
  }
  void one(double qlead) {
    auto& N = leaders.back();
    if (r.chance(qlead)) { new_leader(); return; }
    if (r.chance(0.12)) { for (int i = (int)r.range(1, 4); i > 0; i--) N.log.push_back({N.term, 0, r.chance(0.9) ? fmt("d%lu%s", stamp++, std::string(r.chance(0.2) ? r.below(90) : 0, 'x').c_str()) : ""}); return; }
    if (r.chance(0.12)) {
      // the newest leader commits an entry of its own term
      uint64_t lo = C.size() + 1; while (lo <= N.log.size() && N.log[lo - 1].term != N.term) lo++;
      if (lo <= N.log.size()) { uint64_t i = lo + r.below(N.log.size() - lo + 1); C.assign(N.log.begin(), N.log.begin() + i); N.commit = i; if (r.chance(0.3)) N.first = std::min<uint64_t>(i + 1, N.first + r.below(5)); }
      return;
    }
    int o = (int)r.below(100);
    Leader& L = r.chance(0.88) || leaders.size() == 1 ? N : leaders[r.below(leaders.size())];
    if (o < 30) { auto m = gen_append(L); step(m, fmt("append(t%lu %lu/%lu+%d c%lu)", L.term, m->index(), m->logterm(), m->entries_size(), m->commit())); }
    else if (o < 36) {
      auto m = mk(raftpb::MsgHeartbeat, L.id, L.term); m->set_commit(r.below(std::min(L.match, L.commit) + 1)); if (r.chance(0.6)) m->set_commit(std::min(L.match, L.commit));
      if (r.chance(0.4)) m->set_context(fmt("ctx%lu", stamp++));
      step(m, fmt("heartbeat(t%lu c%lu)", L.term, m->commit()));
    } else if (o < 43) {
      auto m = mk(raftpb::MsgSnap, L.id, L.term);
      uint64_t s = r.chance(0.6) ? L.commit : 1 + r.below(L.commit);
      auto& sn = *m->mutable_snapshot();
      sn.mutable_metadata()->set_index(s); sn.mutable_metadata()->set_term(L.log[s - 1].term); sn.set_data(data_of(L.log, s));
      Conf k = r.chance(0.6) ? conf : mkconf();
      if (r.chance(0.06)) { k.V.erase(me); k.O.erase(me); k.L.erase(me); k.LN.erase(me); }
      *sn.mutable_metadata()->mutable_conf_state() = to_cs(k);
      step(m, fmt("snapshot(t%lu %lu/%lu)", L.term, s, L.log[s - 1].term));
    } else if (o < 53) {
      auto m = mk(r.chance(0.5) ? raftpb::MsgVote : raftpb::MsgPreVote, r.chance(0.95) ? ids[1 + r.below(ids.size() - 1)] : 77, 0);
      m->set_term((uint64_t)std::max<int64_t>(1, (int64_t)term + r.range(-1, 2)));
      int q = (int)r.below(6);
      m->set_index(q < 3 ? (uint64_t)std::max<int64_t>(0, (int64_t)log.last() + r.range(-2, 2)) : q == 3 ? log.last() : q == 4 ? commit : log.base);
      m->set_logterm(r.chance(0.5) ? log.term(log.last()) : (uint64_t)std::max<int64_t>(0, (int64_t)log.term(log.last()) + r.range(-1, 1)));
      if (r.chance(0.12)) m->set_context("CampaignTransfer");
      step(m, fmt("%s(t%lu %lu/%lu from %lu%s)", m->type() == raftpb::MsgVote ? "vote" : "pre-vote", m->term(), m->index(), m->logterm(), m->from(), m->context().empty() ? "" : " transfer"));
    } else if (o < 60) {
      // late and repeated messages
      if (old.empty()) return;
      auto m = old[r.chance(0.5) ? old.size() - 1 - r.below(std::min<size_t>(old.size(), 5)) : r.below(old.size())];
      if ((m->type() == raftpb::MsgVoteResp || m->type() == raftpb::MsgPreVoteResp) && m->from() != granter && !m->reject()) return;
      if (m->type() == raftpb::MsgTransferLeader) return;
      c.ctr["peer.repeated"]++;
      step(m, fmt("again %s(t%lu %lu)", raftpb::MessageType_Name(m->type()).c_str(), m->term(), m->index()));
    } else if (o < 66) {
      // answers nobody asked for and answers to a campaign
      uint64_t from = ids[1 + r.below(ids.size() - 1)];
      static const raftpb::MessageType T[] = {raftpb::MsgVoteResp, raftpb::MsgPreVoteResp, raftpb::MsgAppResp, raftpb::MsgHeartbeatResp, raftpb::MsgReadIndexResp, raftpb::MsgVoteResp, raftpb::MsgPreVoteResp};
      auto t = T[r.below(7)];
      if (role == Pc && r.chance(0.6)) t = raftpb::MsgPreVoteResp;
      if (role == Ca && r.chance(0.6)) t = raftpb::MsgVoteResp;
      bool vr = t == raftpb::MsgVoteResp || t == raftpb::MsgPreVoteResp;
      bool grant = vr && from == granter && r.chance(0.5);
      uint64_t tm = (uint64_t)std::max<int64_t>(1, (int64_t)term + (r.chance(0.75) ? 0 : r.range(-1, 1)));
      if (t == raftpb::MsgPreVoteResp && grant) tm = term + 1;
      auto m = mk(t, from, tm);
      m->set_index(r.below(log.last() + 3));
      if (vr) m->set_reject(!grant); else if (t == raftpb::MsgAppResp) m->set_reject(r.chance(0.3));
      if (t == raftpb::MsgReadIndexResp) m->add_entries()->set_data(fmt("read%lu", stamp++));
      // a response of a node outside the configuration is refused
      if (!conf.member(from)) {
        auto cp = std::make_shared<Msg>(*m);
        bool resp = t != raftpb::MsgReadIndexResp;
        if (resp) { if (node->Step(cp).IsOK()) bad("C35", "peer-foreign-response", "the response of a node outside the configuration was accepted"); check("foreign-response"); return; }
      }
      step(m, fmt("%s(t%lu from %lu reject %d)", raftpb::MessageType_Name(t).c_str(), m->term(), from, m->reject()));
    } else if (o < 68) {
      auto m = mk(raftpb::MsgTimeoutNow, L.id, L.term); step(m, fmt("take-over(t%lu)", L.term));
    } else if (o < 75) {
      // time passes
      int q = r.chance(0.6) ? 1 : (int)r.range(1, 2 * E);
      for (int i = 0; i < q; i++) {
        elapsed++;
        node->Tick();
        auto b = node->GetBasicStatus();
        auto p = node->ReadyWithoutAccept();
        bool camp = p->messages.size() > sent.size();
        if (camp) {
          if (!promotable()) bad("C33", "peer-campaigns", "campaigns although it is no voter or has a snapshot to install");
          if (elapsed < (uint64_t)E) bad("C23", "peer-campaigns-early", fmt("campaigns %lu ticks after it heard from a leader", elapsed));
          elapsed = 0;
          campaign(false, false);
        } else if (promotable() && elapsed >= 2 * (uint64_t)E - 1 && false) {}
        check(camp ? "tick(campaign)" : "tick");
      }
    } else if (o < 77) {
      if (role != Ld) { if (promotable()) campaign(false, false); auto s = node->Campaign(); if (!s.IsOK()) bad("C36", "peer-campaign", "Campaign was refused"); check("campaign()"); }
    } else if (o < 80) {
      int q = (int)r.below(3);
      if (q == 0) {
        auto d = fmt("p%lu", stamp++);
        bool ok = role == F && lead && !nofwd;
        if (ok) { auto m = ans(raftpb::MsgProp, lead, 0); m->add_entries()->set_data(d); want.push_back(m); }
        auto s = node->Propose(d);
        if (s.IsOK() != ok) bad("C10 C31", "peer-propose", fmt("a proposal was %s", s.IsOK() ? "accepted" : "refused"));
        check("propose", "C10 C31");
      } else if (q == 1) {
        auto d = fmt("r%lu", stamp++);
        if (role == F && lead) { auto m = ans(raftpb::MsgReadIndex, lead, 0); m->add_entries()->set_data(d); want.push_back(m); }
        node->ReadIndex(d); check("read", "C36");
      } else {
        uint64_t to = ids[r.below(ids.size())];
        if (role == F && lead) { auto m = ans(raftpb::MsgTransferLeader, lead, term); m->set_from(to); want.push_back(m); }
        node->TransferLeader(to); check("transfer", "C22");
      }
    } else if (o < 95) {
      if (!rd) {
        if (!node->HasReady()) return;
        rd = node->GetReady(); persisted = false;
        if (rd->soft_state.has_value()) { prev_role = (int)rd->soft_state->raft_state; prev_lead = rd->soft_state->lead; }
        sent.clear(); reads.clear();
        check("take");
        if (r.chance(0.5)) persist();
      } else if (!persisted) { persist(); check("persist"); }
      else {
        node->Advance();
        if (!IsEmptyHardState(rd->hard_state)) prev = {rd->hard_state.term(), rd->hard_state.vote(), rd->hard_state.commit()};
        uint64_t a = !rd->committed_entries.empty() ? rd->committed_entries.back()->index() : IsEmptySnap(rd->snapshot) ? 0 : rd->snapshot->metadata().index();
        if (a) applied = a;
        if (!rd->entries.empty()) {
          uint64_t i = rd->entries.back()->index(), t = rd->entries.back()->term();
          if (i > stable && i <= log.last() && log.term(i) == t && i > log.base) stable = i; else c.ctr["peer.superseded_batches"]++;
        }
        if (!IsEmptySnap(rd->snapshot) && pend && rd->snapshot->metadata().index() == psnap.index) pend = false;
        rd = nullptr; persisted = false;
        check("advance", "C08");
        c.ctr["peer.batches"]++;
      }
    } else if (o < 97) {
      // the application makes a snapshot and drops the log before it
      if (rd || pend || applied <= dlog.base || applied > stable) return;
      uint64_t i = dlog.base + 1 + r.below(applied - dlog.base);
      raftpb::ConfState cs = to_cs(conf);
      st->CreateSnapshot(i, &cs, data_of(C, i));
      dconf = conf;
      st->Compact(i);
      uint64_t bt = dlog.term(i);
      dlog.e.erase(dlog.e.begin(), dlog.e.begin() + (i - dlog.base)); dlog.base = i; dlog.bterm = bt;
      log.e.erase(log.e.begin(), log.e.begin() + (i - log.base)); log.base = i; log.bterm = bt;
      c.ctr["peer.compactions"]++;
      check(fmt("compact(%lu)", i));
    } else {
      // crash and restart
      if (r.chance(0.4)) return;
      uint64_t lo = dlog.base, hi = std::min(std::max(dapplied, lo), std::max(dhs.commit, lo));
      uint64_t a = r.chance(0.6) ? hi : lo + r.below(hi - lo + 1);
      node.reset();
      start(a);
      dapplied = std::max(a, lo);
      hist += fmt(" [crash, applied %lu]", a);
      check("restart", "C09");
      c.ctr["peer.restarts"]++;
    }
  }
};
}  // namespace

void mod_peer(Ctx& c) { Sim1 s(c); s.run(); }
}  // namespace vv
