// Deterministic cluster simulator running the real RawNode code, with crash/partition/message
// faults, and online monitors over everything the code hands out.
#pragma once
#include <deque>
#include <unordered_map>
#include <unordered_set>
#include <optional>
#include "common.h"
#include "model.h"
#include "src/rawnode.h"
#include "src/storage.h"

namespace vv {
using raftpb::Message;
using MsgP = std::shared_ptr<Message>;

struct Params {
  std::string prop = "ALL";
  int n = 3;                 // initial members
  int nlearn = 0;            // initial learners (preseeded start only)
  int E = 10, H = 1;
  bool cq = false, pv = false, lease = false, nofwd = false;
  uint64_t max_size = UINT64_MAX, max_commit = 0, quota = 0;
  int64_t inflight = 256;
  bool async = false;        // inputs arrive while a batch is being processed
  bool app_durable = false;  // application keeps its own durable state (applied > snapshot)
  bool bootstrap = false;    // RawNode::Start with peers; otherwise storage preseeded with a snapshot
  uint64_t base_index = 1;   // preseeded snapshot index
  bool joint_start = false;  // preseeded configuration is joint
  bool confchange = true, snapshots = true, crashes = true, partitions = true, transfers = true,
       reads = true, proposals = true, campaigns = true, torn = false, inject = true, replay = true;
  double drop = 0.02, dup = 0.02, crash_stage = 0.0;
  bool fifo = false;
  int steps = 600;           // chaos steps
  int rounds = 0;            // lockstep rounds
  bool lockstep_only = false, healthy = false;
  int second = 0;
  int splits = 0;            // split-brain phases
  bool calm = true;
  bool queries = false;      // insert status queries (C32)
  int maxpay = 20;
  bool sync_all = false;     // application syncs every write
  int w_tick = 30, w_deliver = 60, w_prop = 8, w_read = 4, w_conf = 2, w_fault = 3, w_snap = 2;
  bool directed = false;
  bool lease_scn = false;
  bool format_all = false;
  int max_ids = 9;
  uint64_t id_off = 0;       // node ids are id_off + 1, id_off + 2, ...
  uint64_t base_term = 1;    // preseeded term
};

struct Flight { MsgP m; uint64_t born; uint64_t send_inc; };

class SimStorage : public craft::MemoryStorage {
 public:
  using craft::MemoryStorage::MemoryStorage;
  std::optional<raftpb::ConfState> cs_override;
  bool snap_unavailable = false;
  std::tuple<raftpb::HardState, raftpb::ConfState, craft::Status> InitialState() const override {
    auto t = craft::MemoryStorage::InitialState();
    if (cs_override) std::get<1>(t) = *cs_override;
    return t;
  }
  std::tuple<craft::SnapshotPtr, craft::Status> SnapShot() override {
    if (snap_unavailable)
      return std::make_tuple(craft::SnapshotPtr(), craft::Status::Error(craft::kErrSnapshotTemporarilyUnavailable));
    return craft::MemoryStorage::SnapShot();
  }
};

struct Disk {
  raftpb::HardState hs;                         // durable
  std::optional<raftpb::HardState> soft;        // written, not yet synced
  std::shared_ptr<raftpb::Snapshot> snap;       // durable snapshot (deep copy)
  uint64_t snap_chain = 0;
  uint64_t base = 0, base_term = 0, base_chain = 0;
  std::vector<raftpb::Entry> ents;              // (base, base+size]
  std::vector<uint64_t> chains;
  uint64_t app_applied = 0;                     // durable application position (mode B)
  Conf app_conf;
  bool dirty = false;                           // anything was ever written
  uint64_t last() const { return base + ents.size(); }
  bool has(uint64_t i) const { return i >= base && i <= last(); }
  uint64_t chain(uint64_t i) const { return i == base ? base_chain : chains[i - base - 1]; }
  uint64_t term(uint64_t i) const { return i == base ? base_term : ents[i - base - 1].term(); }
  const raftpb::HardState& cur() const { return soft ? *soft : hs; }
};

struct PrView {
  uint64_t match = 0, next = 0, pend = 0; int st = 0; bool paused = false, probe = false, active = false, learner = false;
  int64_t infl = 0;
  bool operator==(const PrView& o) const {
    return match == o.match && next == o.next && pend == o.pend && st == o.st && paused == o.paused && probe == o.probe &&
           active == o.active && learner == o.learner && infl == o.infl;
  }
};
struct NView {
  uint64_t term = 0, vote = 0, lead = 0, commit = 0, applied = 0, last = 0, last_term = 0, transferee = 0;
  int state = 0; bool psnap = false; size_t nm = 0, nrs = 0;
  std::map<uint64_t, PrView> pr;
};

enum class Op { Start, Tick, Step, Campaign, Propose, Read, Transfer, Unreach, SnapStat, ApplyCC, GetReady, Advance, Query };
inline const char* opname(Op o) {
  static const char* n[] = {"start","tick","step","campaign","propose","read","transfer","unreach","snapstat","applycc","getready","advance","query"};
  return n[(int)o];
}

struct Node {
  uint64_t id = 0;
  bool up = false, retired = false;
  bool bootstrapped = false;
  int inc = 0;
  std::unique_ptr<craft::RawNode> rn;
  std::shared_ptr<SimStorage> st;
  Disk disk;
  // mirrors
  std::shared_ptr<const LogView> log = std::make_shared<LogView>();
  NView v;
  Conf conf;                       // expected in-memory configuration
  // batch processing
  int stage = 0;                   // 0 idle, 1 got, 2 persisted, 3 sent, 4 applied
  bool send_first = true;
  std::shared_ptr<craft::Ready> rd;
  std::vector<std::string> gen;    // digests of messages generated since the last batch
  std::vector<std::string> gen_rs;
  std::vector<MsgP> rd_msgs;       // deep copies
  size_t sent = 0, applied_n = 0;
  uint64_t ready_commit = 0, ready_term = 0; int ready_state = 0;
  std::shared_ptr<const LogView> ready_log;
  raftpb::HardState last_hs;       // last hard state handed out in this incarnation
  bool last_hs_set = false;
  bool rd_sync_mode = true;        // no input arrived between previous GetReady and Advance
  // application
  uint64_t app_applied = 0, app_chain = 0;
  Conf app_conf;
  // --- monitor state ---
  std::map<uint64_t, IdSet> grants;            // term -> voters whose grants were delivered while candidate
  IdSet pregrants; bool transfer_campaign = false;
  uint64_t lead_pending = 0;                   // leadership term not yet externalised
  std::shared_ptr<const LogView> elect_log;
  uint64_t ticks = 0;                          // ticks in this incarnation
  uint64_t t_contact = 0; bool has_contact = false;   // last tick index of accepted leader message
  uint64_t t_grant = 0, t_inelig = 0, t_camp = 0, t_start = 0;
  uint64_t quiet = 0, quiet_stale = 0, quiet_pv = 0;
  std::map<std::pair<uint64_t, std::string>, uint64_t> rd_sent, rd_acked;  // (peer, read context) -> operation
  std::unordered_map<std::string, uint64_t> rd_first;
  uint64_t hb_el = 0;
  uint64_t lead_since = 0;
  std::map<uint64_t, uint64_t> heard;          // leader: last tick a response from peer was delivered
  uint64_t conf_tick = 0;                      // tick at which configuration last changed
  uint64_t tr_since = 0;                       // tick at which current transferee was set
  std::map<uint64_t, std::deque<uint64_t>> win; // mirrored in-flight windows
  std::map<uint64_t, bool> probe_out;
  uint64_t u_hi = 0, u_lo = 0;                 // uncommitted-size bounds
  std::map<uint64_t, uint64_t> own_sizes;      // idx -> payload size of own-term entries not yet returned
  uint64_t elect_last = 0;
  struct PendC { uint64_t idx, chain; Conf conf; };
  std::vector<PendC> pend_commit;  // commits by this leader, judged once its batch is durable
  std::vector<PendC> rd_pend;      // those covered by the batch being processed
  uint64_t rd_lead = 0;            // leadership externalised by the batch being processed
  std::vector<std::string> rd_ents, rd_comm;  // digests: what was handed out must not change later
  uint64_t trunc_min = UINT64_MAX; // lowest index overwritten since the last batch
  bool lookup_snap_delay = false;
  uint64_t max_snap_ever = 0;
  craft::SoftState last_soft;
  bool rd_in_async = false;
  uint64_t pr_term = 0; std::map<uint64_t, uint64_t> best_match;
  std::string status_copy_str; std::function<std::string()> status_copy;
};

struct Prop { int submissions = 0; bool refused = false; int committed = 0; bool conf = false; int type = 0; uint64_t origin = 0; };
struct Read { uint64_t node; uint64_t floor; int local = 0, reached = 0, resp_gen = 0, resp_del = 0, results = 0; uint64_t tick; std::string tag; };
struct CommitRec { uint64_t term; uint64_t chain; uint64_t cterm; std::string data; int type; };

class Sim {
 public:
  Sim(const Params& p, uint64_t seed, bool verbose);
  void run();
  std::vector<Violation> viols;
  std::map<std::string, uint64_t> ctr;
  std::unordered_set<uint64_t> states;
  uint64_t trace = 0;
  uint64_t nops = 0;
  bool stopped = false;
  bool report_ok = false;  // of the snapshot report in progress
  std::string repro;

  Params P;
  Rng rng, qrng;
  bool verbose;
  std::shared_ptr<SimLogger> logger;
  std::map<uint64_t, std::unique_ptr<Node>> nodes;
  std::deque<Flight> net;
  std::vector<MsgP> old_msgs;
  std::map<uint64_t, IdSet> cut;   // cut[a] contains b: messages a->b are lost
  uint64_t now = 0;
  uint64_t next_prop = 1, next_read = 1;
  std::deque<std::pair<std::pair<uint64_t, int>, std::pair<uint64_t, bool>>> snap_reports;  // ((sender,inc),(peer,ok))

  // ghosts
  std::map<uint64_t, std::pair<uint64_t, std::shared_ptr<const LogView>>> leaders;  // term -> (node, log at election)
  std::map<uint64_t, std::set<uint64_t>> seen_leaders;   // term -> nodes seen leading it
  std::map<std::pair<uint64_t, uint64_t>, uint64_t> votes;   // (node, term) -> candidate
  std::unordered_map<uint64_t, uint64_t> chains;             // hash(idx,term) -> chain
  std::unordered_map<uint64_t, uint64_t> durable;            // hash(idx,term) -> node bit mask
  std::vector<CommitRec> committed;                          // index = base_index + 1 + k
  std::vector<Conf> confs;                                   // configuration after committed[k]
  uint64_t cbase = 0, cbase_term = 0, cbase_chain = 0; Conf cbase_conf;
  uint64_t max_commit_ever = 0;
  std::map<std::string, Prop> props;
  std::map<std::string, Read> reads;
  std::unordered_map<std::string, int> refused_payloads;
  uint64_t max_term = 0;

  uint64_t cmax() const { return cbase + committed.size(); }
  uint64_t cchain(uint64_t i) const { return i == cbase ? cbase_chain : committed[i - cbase - 1].chain; }
  uint64_t cterm(uint64_t i) const { return i == cbase ? cbase_term : committed[i - cbase - 1].term; }
  const Conf& conf_at(uint64_t i) const { return i <= cbase ? cbase_conf : confs[i - cbase - 1]; }
  static uint64_t key(uint64_t i, uint64_t t) { return hcomb(i, t); }
  bool ever_durable(uint64_t node, uint64_t idx, uint64_t term, uint64_t chain);

  // execution
  uint64_t nid(uint64_t k) const { return P.id_off + k; }
  void setup();
  void chaos(int steps);
  void lockstep_round(bool faults);
  bool settle(bool faults, int passes);
  Node* steady();
  bool calm_phase();
  void healthy_phase();
  void split_phase();
  void directed_phase();
  Node* node(uint64_t id) { auto it = nodes.find(id); return it == nodes.end() ? nullptr : it->second.get(); }
  std::vector<Node*> live();
  std::vector<Node*> all();
  Node* leader();
  void start_node(Node& n, bool first);
  void crash(Node& n);
  void add_node(uint64_t id);
  bool blocked(uint64_t a, uint64_t b) { auto it = cut.find(a); return it != cut.end() && it->second.count(b); }
  void heal() { cut.clear(); }

  template <class F> void op(Node& n, Op k, const Message* in, uint64_t arg, F f);
  void after(Node& n, Op k, const Message* in, uint64_t arg, const NView& pre, const LogView& prelog, const craft::Status& st);
  NView view(Node& n);
  std::shared_ptr<const LogView> rebuild(Node& n);
  void process(Node& n, bool crashes);
  void do_stage(Node& n, bool crashes);
  void st_get(Node& n);
  void st_persist(Node& n, bool crashes);
  void st_send(Node& n, bool crashes);
  void st_apply(Node& n, bool crashes);
  void st_advance(Node& n);
  bool maybe_crash(Node& n, bool crashes);
  void send_msg(Node& n, const MsgP& m);
  void deliver(size_t i);
  bool may_take_snapshot(const Node& d) const;
  void offer_snapshot(Node& d);
  void deliver_msg(const MsgP& m, bool fresh);
  void drop_flight(const Flight& f);
  void lost_snap(const Message& m, uint64_t inc, bool ok);
  void flush_snap_reports(bool all_);
  void tick(Node& n);
  void campaign(Node& n);
  bool propose(Node& n, int size);
  void propose_batch(Node& n);
  void propose_conf(Node& n);
  bool propose_cc(Node& n, const craft::ConfChangeI& cc, const std::vector<uint64_t>& newids);
  bool in_lease_window(const Node& n) const;
  void read(Node& n);
  void transfer(Node& n, uint64_t to);
  void report_unreachable(Node& n, uint64_t to);
  void report_snapshot(Node& n, uint64_t to, bool ok);
  void make_snapshot(Node& n);
  void query(Node& n);
  void inject_local(Node& n);
  bool retire_check();
  bool removal_deadlock();

  // monitors
  void viol(const std::string& props, const std::string& key, const std::string& msg);
  void visible_commit(Node& n, uint64_t c, uint64_t at_term);
  void check_read_quorum(Node& n, Op k, const Message* in, const NView& pre, const std::vector<const Message*>& out);
  void check_gen_msg(Node& n, Op k, const Message* in, const NView& pre, const Message& m);
  void check_send(Node& n, const Message& m);
  void check_replies(Node& n, Op k, const Message* in, uint64_t arg, const NView& pre, const LogView& prelog, const std::vector<const Message*>& out, const craft::Status& st);
  void check_flow(Node& n, Op k, const Message* in, uint64_t arg, const NView& pre, const std::vector<const Message*>& out);
  void check_log(Node& n, Op k, const Message* in, const NView& pre, const LogView& prelog, const craft::Status& st, bool newleader);
  void check_timers(Node& n, Op k, const Message* in, uint64_t arg, const NView& pre, const std::vector<const Message*>& out, const craft::Status& st);
  void check_elections(Node& n, Op k, const Message* in, const NView& pre, const std::vector<const Message*>& out);
  void check_conf(Node& n, const char* where);
  void log(const char* f, ...) __attribute__((format(printf, 2, 3)));
  void absmark();
  std::string mstr(const Message& m);
  Conf tracker_conf(Node& n);
  uint64_t max_inflight() const { return (uint64_t)P.inflight; }
};

std::string params_str(const Params& p);
Params make_params(const std::string& prop, Rng& r, uint64_t idx);
}  // namespace vv
