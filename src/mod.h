// Module-level checks: the real components driven by generated operation sequences next to reference models.
#pragma once
#include <unordered_set>
#include "common.h"
#include "model.h"

namespace vv {
struct Ctx {
  Ctx(uint64_t seed, uint64_t idx, bool verbose) : rng(seed), idx(idx), verbose(verbose) { logger = std::make_shared<SimLogger>(); }
  Rng rng;
  uint64_t idx;
  bool verbose;
  std::shared_ptr<SimLogger> logger;
  std::map<std::string, uint64_t> ctr;
  std::vector<Violation> viols;
  uint64_t trace = 0, nops = 0;
  std::unordered_set<uint64_t> states;
  std::string sample;
  void viol(const std::string& props, const std::string& key, const std::string& msg) {
    viols.push_back({props, key, msg});
    throw Stop();
  }
  void seen(uint64_t h) { trace = hcomb(trace, h); if (states.size() < 100000) states.insert(h); }
  void log(const char* f, ...) __attribute__((format(printf, 2, 3))) {
    if (!verbose) return;
    va_list ap; va_start(ap, f); vprintf(f, ap); va_end(ap); printf("\n");
  }
  // true if f ends in the library's fatal-error report
  template <class F> bool panics(F f) { try { f(); } catch (Panic&) { return true; } return false; }
};
// the modules of this program (mod_table.cc, fuzz_main.cc)
const std::map<std::string, void (*)(Ctx&)>& modules();
void mod_quorum(Ctx&);
void mod_change(Ctx&);
void mod_restore(Ctx&);
void mod_encoding(Ctx&);
void mod_storage(Ctx&);
void mod_log(Ctx&);
void mod_inflights(Ctx&);
void mod_probe(Ctx&);
void mod_bootstrap(Ctx&);
void mod_timeouts(Ctx&);
void mod_settings(Ctx&);
void mod_roles(Ctx&);
void mod_peer(Ctx&);
}  // namespace vv
