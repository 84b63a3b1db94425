// Shared helpers: seeded RNG, hashing, violation sink, panic-to-exception logger.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "src/logger.h"

namespace vv {

inline uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline uint64_t hcomb(uint64_t a, uint64_t b) { return mix64(a * 0x100000001b3ULL ^ mix64(b)); }
inline uint64_t hstr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return mix64(h ^ s.size());
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class V> auto& pick(V& v) { return v[below(v.size())]; }
};

// Thrown when the library reports a fatal error (the stock logger aborts).
struct Panic : std::runtime_error { using std::runtime_error::runtime_error; };

class SimLogger : public craft::Logger {
 public:
  // format_all: format every message (so sanitizers see the arguments).
  explicit SimLogger(bool format_all = false)
      : craft::Logger(format_all ? craft::kDebug : craft::kFatal), format_all_(format_all) {}
  void Log(craft::LogLevel level, const char* format, ...) override {
    if (level < GetLogLevel()) return;
    va_list ap; va_start(ap, format);
    struct E { va_list& a; ~E() { va_end(a); } } e{ap};
    Logv(level, format, ap);
  }
  void Logv(craft::LogLevel level, const char* format, va_list ap) override {
    if (level < craft::kFatal && !format_all_) return;
    char buf[2048];
    vsnprintf(buf, sizeof buf, format, ap);
    lines_.fetch_add(1, std::memory_order_relaxed);
    if (level >= craft::kFatal) throw Panic(buf);
  }
  uint64_t lines() const { return lines_; }
 private:
  bool format_all_;
  std::atomic<uint64_t> lines_{0};
};

struct Violation {
  std::string props;   // space separated property ids the observation refutes
  std::string key;     // stable class of the violation
  std::string msg;
};

struct Stop { };  // thrown to end a scenario

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;
}

// distinct non-trivial cases and abstract states, for the driver to merge over its workers
template <class A, class B> inline void write_hashes(const std::string& file, const A& cases, const B& states) {
  if (file.empty()) return;
  FILE* f = fopen(file.c_str(), "wb");
  if (!f) return;
  uint64_t n = cases.size();
  fwrite(&n, 8, 1, f);
  for (uint64_t x : cases) fwrite(&x, 8, 1, f);
  for (uint64_t x : states) fwrite(&x, 8, 1, f);
  fclose(f);
}

// Deterministic std::random_device (interposed in rd.cc).
void set_random_device_seed(uint64_t s);

}  // namespace vv
