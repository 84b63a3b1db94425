#include <chrono>
#include <cstdlib>
#include <thread>
#include "mod.h"
using namespace vv;

int main(int argc, char** argv) {
  std::string mod, progress, rel, hashes;
  uint64_t seed = 1, from = 0, to = 100; bool verbose = false; double tmax = 1e9;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") mod = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--from") from = strtoull(nx().c_str(), 0, 10); else if (a == "--to") to = strtoull(nx().c_str(), 0, 10);
    else if (a == "--verbose") verbose = true; else if (a == "--time") tmax = atof(nx().c_str());
    else if (a == "--progress") progress = nx(); else if (a == "--rel") rel = nx(); else if (a == "--hashes") hashes = nx();
  }
  auto& mods = modules();
  auto it = mods.find(mod);
  if (it == mods.end()) { fprintf(stderr, "unknown module %s\n", mod.c_str()); return 2; }
  std::vector<std::string> rels; { std::stringstream ss(rel); std::string x; while (std::getline(ss, x, ',')) rels.push_back(x); }
  FILE* pf = progress.empty() ? nullptr : fopen(progress.c_str(), "w");
  auto t0 = std::chrono::steady_clock::now();
  std::map<std::string, uint64_t> ctr;
  std::unordered_set<uint64_t> states, traces, nontriv;
  std::string samples; int ns = 0;
  uint64_t idx = from, done = 0, nops = 0;
  for (; idx < to; idx++) {
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > tmax) break;
    if (pf) { rewind(pf); fprintf(pf, "%-20lu\n", idx); fflush(pf); }
    uint64_t h = hcomb(hcomb(seed, idx), hstr(mod));
    Ctx c(h, idx, verbose);
    std::thread th([&] {
      set_random_device_seed(h);
      try { it->second(c); }
      catch (Stop&) {}
      catch (Panic& p) { c.viols.push_back({"ANY", "library-fatal", std::string("unexpected fatal error of the library: ") + p.what()}); }
    });
    th.join();
    done++; nops += c.nops;
    uint64_t r = 0;
    for (auto& x : rels) { auto q = c.ctr.find(x); if (q != c.ctr.end()) r += q->second; }
    for (auto& x : c.ctr) { if (x.first.size() > 4 && x.first.substr(x.first.size() - 4) == "_max") ctr[x.first] = std::max(ctr[x.first], x.second); else ctr[x.first] += x.second; }
    if (states.size() < 3000000) states.insert(c.states.begin(), c.states.end());
    traces.insert(c.trace);
    if (r || rels.empty()) nontriv.insert(c.trace);
    if (ns < 1 && (r || rels.empty()) && !c.sample.empty()) samples += std::string(ns++ ? "," : "") + "\"case " + std::to_string(idx) + ": " + jesc(c.sample) + "\"";
    for (auto& v : c.viols) { printf("{\"viol\":1,\"idx\":%lu,\"props\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\"}\n", idx, v.props.c_str(), jesc(v.key).c_str(), jesc(v.msg).c_str()); fflush(stdout); }
  }
  write_hashes(hashes, nontriv, states);
  printf("{\"summary\":1,\"from\":%lu,\"next\":%lu,\"scenarios\":%lu,\"operations\":%lu,\"abstract_states\":%zu,\"distinct_histories\":%zu,\"counters\":{", from, idx, done, nops, states.size(), traces.size());
  bool f = true;
  for (auto& c : ctr) { printf("%s\"%s\":%lu", f ? "" : ",", c.first.c_str(), c.second); f = false; }
  printf("},\"nontrivial\":%zu,\"samples\":[%s]}\n", nontriv.size(), samples.c_str());
  return 0;
}
