// vsim: runs a range of simulator scenarios and prints one JSON line per violation plus a summary.
#include <unistd.h>
#include <chrono>
#include <cstdlib>
#include <thread>
#include "sim.h"
using namespace vv;

int main(int argc, char** argv) {
  std::string prop = "ALL", progress;
  uint64_t seed = 1, from = 0, to = 100; bool verbose = false; double tmax = 1e9; bool fmtall = false; std::string rel, hashes;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--from") from = strtoull(nx().c_str(), 0, 10); else if (a == "--to") to = strtoull(nx().c_str(), 0, 10);
    else if (a == "--verbose") verbose = true; else if (a == "--time") tmax = atof(nx().c_str());
    else if (a == "--progress") progress = nx(); else if (a == "--format-all") fmtall = true;
    else if (a == "--rel") rel = nx(); else if (a == "--hashes") hashes = nx();
  }
  FILE* pf = progress.empty() ? nullptr : fopen(progress.c_str(), "w");
  auto t0 = std::chrono::steady_clock::now();
  std::map<std::string, uint64_t> ctr;
  std::unordered_set<uint64_t> states;
  std::unordered_set<uint64_t> traces;
  std::vector<std::string> rels; { std::stringstream ss(rel); std::string x; while (std::getline(ss, x, ',')) rels.push_back(x); }
  std::unordered_set<uint64_t> nontriv; uint64_t last_rel = 0; std::string samples; int nsamples = 0;
  uint64_t done = 0, nops = 0, idx = from;
  for (; idx < to; idx++) {
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (el > tmax) break;
    if (pf) { rewind(pf); fprintf(pf, "%-20lu\n", idx); fflush(pf); }
    uint64_t h = hcomb(hcomb(seed, idx), hstr(prop));
    auto runone = [&](bool queries_off, std::unique_ptr<Sim>& out) {
      std::thread th([&] {
        set_random_device_seed(h);
        Rng r(h);
        Params p = make_params(prop, r, idx);
        p.format_all = fmtall;
        if (queries_off) p.queries = false;
        out = std::make_unique<Sim>(p, h ^ 0x5555, verbose);
        out->run();
        for (auto& n : out->nodes) { n.second->rn.reset(); }
      });
      th.join();
    };
    std::unique_ptr<Sim> s;
    runone(false, s);
    if (prop == "C32" && s->viols.empty()) {
      std::unique_ptr<Sim> s2;
      runone(true, s2);
      s->ctr["C32.paired_runs"]++;
      if (s2->trace != s->trace) s->viols.push_back({"C32", "queries-change-behaviour", "the same run with and without status queries behaves differently"});
    }
    done++; nops += s->nops;
    for (auto& c : s->ctr) {
      if (c.first.size() > 4 && c.first.substr(c.first.size() - 4) == "_max") ctr[c.first] = std::max(ctr[c.first], c.second); else ctr[c.first] += c.second;
    }
    if (states.size() < 3000000) states.insert(s->states.begin(), s->states.end());
    traces.insert(s->trace);
    last_rel = 0;
    for (auto& x : rels) { auto it = s->ctr.find(x); if (it != s->ctr.end()) last_rel += it->second; }
    if (last_rel || rels.empty()) nontriv.insert(s->trace);
    if (nsamples < 1 && last_rel) {
      std::string c; for (auto& x : rels) { auto it = s->ctr.find(x); if (it != s->ctr.end()) c += " " + x + "=" + std::to_string(it->second); }
      samples += std::string(nsamples++ ? "," : "") + "\"scenario " + std::to_string(idx) + ": " + jesc(params_str(s->P)) + "; " + std::to_string(s->nops) + " operations," + jesc(c) + "\"";
    }
    for (auto& v : s->viols) { printf("{\"viol\":1,\"idx\":%lu,\"props\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\"}\n", idx, v.props.c_str(), jesc(v.key).c_str(), jesc(v.msg).c_str()); fflush(stdout); }
  }
  write_hashes(hashes, nontriv, states);
  printf("{\"summary\":1,\"from\":%lu,\"next\":%lu,\"scenarios\":%lu,\"operations\":%lu,\"abstract_states\":%zu,\"distinct_histories\":%zu,\"counters\":{", from, idx, done, nops, states.size(), traces.size());
  bool f = true;
  for (auto& c : ctr) { printf("%s\"%s\":%lu", f ? "" : ",", c.first.c_str(), c.second); f = false; }
  printf("},\"nontrivial\":%zu,\"samples\":[%s]}\n", nontriv.size(), samples.c_str());
  return 0;
}
