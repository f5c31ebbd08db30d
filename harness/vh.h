// Harness runtime: case loop, PRNG, progress file, event counters, violation records.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <functional>
#include <stdexcept>
#include <sstream>
#include <algorithm>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>

namespace vh {

inline uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t s = a * 0x9e3779b97f4a7c15ULL ^ (b + 0x7f4a7c15ULL); splitmix(s); return splitmix(s); }
inline uint64_t hstr(const char* s) { uint64_t h = 1469598103934665603ULL; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ULL; } return h; }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t u64() { return splitmix(s); }
  double u() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u(); }
  int below(int n) { return n <= 0 ? 0 : (int)(u64() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(double p) { return u() < p; }
  double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
  double normal() { double a = u(), b = u(); if (a < 1e-300) a = 1e-300; return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below((int)v.size())]; }
};

struct Hash {
  uint64_t h = 1469598103934665603ULL;
  void add(uint64_t x) { h = mix(h, x); }
  void add(double d) { uint64_t x; std::memcpy(&x, &d, 8); add(x); }
  void add(int i) { add((uint64_t)(int64_t)i); }
  void add(const std::string& s) { add(hstr(s.c_str())); }
};

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
inline std::string fmt(const char* f, ...) {
  char b[4096];
  va_list ap; va_start(ap, f); std::vsnprintf(b, sizeof b, f, ap); va_end(ap);
  return b;
}

struct Ctx {
  std::string prop, tier;
  uint64_t seed = 1, caseno = 0;
  Rng rng;
  FILE* out = nullptr;
  char* prog = nullptr;
  std::map<std::string, long> counters;
  std::map<std::string, double> maxima;
  std::vector<std::string> samples;
  std::unordered_set<uint64_t> seen;
  long nviol = 0;
  std::map<std::string, int> perkey;
  bool thorough() const { return tier == "thorough"; }

  void tick() { if (prog) ++*(volatile uint64_t*)(prog + 8); }
  // what is running now: names the call site if the process dies or hangs
  void phase(const char* f, ...) {
    char b[900];
    va_list ap; va_start(ap, f); std::vsnprintf(b, sizeof b, f, ap); va_end(ap);
    if (prog) { std::strncpy(prog + 16, b, 1000); tick(); }
  }
  std::string curphase() const { return prog ? std::string(prog + 16) : ""; }
  void count(const std::string& k, long n = 1) { counters[k] += n; }
  void maxi(const std::string& k, double v) { auto it = maxima.find(k); if (it == maxima.end()) maxima[k] = v; else if (v > it->second) it->second = v; }
  void observe(uint64_t h) { seen.insert(h); }
  void sample(const std::string& s) { if (samples.size() < 4) samples.push_back(s); }
  void violation(const std::string& key, const std::string& msg) {
    ++nviol;
    if (++perkey[key] > 20) return;
    std::fprintf(out, "{\"type\":\"violation\",\"key\":\"%s\",\"case\":%llu,\"msg\":\"%s\"}\n", jesc(key).c_str(),
                 (unsigned long long)caseno, jesc(msg.substr(0, 3500)).c_str());
    std::fflush(out);
  }
};

using CaseFn = std::function<void(Ctx&)>;
struct Reg {
  static std::map<std::string, CaseFn>& table() { static std::map<std::string, CaseFn> t; return t; }
  Reg(const char* n, CaseFn f) { table()[n] = f; }
};
#define VH_PROP(id) static void vh_case_##id(vh::Ctx& c); static vh::Reg vh_reg_##id(#id, vh_case_##id); static void vh_case_##id(vh::Ctx& c)

inline int run(int argc, char** argv) {
  Ctx c; uint64_t start = 0, end = 1, step = 1; std::string outp, progp;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop") c.prop = v;
    if (k == "--seed") c.seed = strtoull(v.c_str(), 0, 10);
    if (k == "--tier") c.tier = v;
    if (k == "--start") start = strtoull(v.c_str(), 0, 10);
    if (k == "--end") end = strtoull(v.c_str(), 0, 10);
    if (k == "--step") step = strtoull(v.c_str(), 0, 10);
    if (k == "--out") outp = v;
    if (k == "--progress") progp = v;
  }
  c.out = outp.empty() ? stdout : std::fopen(outp.c_str(), "w");
  if (!c.out) return 4;
  if (!progp.empty()) {
    int fd = open(progp.c_str(), O_RDWR);
    c.prog = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  }
  auto it = Reg::table().find(c.prop);
  if (it == Reg::table().end()) { std::fprintf(stderr, "no property %s in this module\n", c.prop.c_str()); return 4; }
  uint64_t n = 0;
  for (uint64_t i = start; i < end; i += step) {
    c.caseno = i;
    if (c.prog) { *(volatile uint64_t*)c.prog = i; }
    c.phase("case start");
    c.rng = Rng(mix(mix(hstr(c.prop.c_str()), c.seed), i));
    try { it->second(c); }
    catch (const std::exception& e) { c.violation("exception|" + c.curphase(), std::string("exception escaped: ") + e.what()); }
    catch (...) { c.violation("exception|" + c.curphase(), "non-std exception escaped"); }
    ++n;
  }
  std::string hf;
  if (!outp.empty()) {
    hf = outp + ".hash";
    FILE* f = std::fopen(hf.c_str(), "wb");
    for (uint64_t h : c.seen) std::fwrite(&h, 8, 1, f);
    std::fclose(f);
  }
  std::fprintf(c.out, "{\"type\":\"done\",\"cases\":%llu,\"hashfile\":\"%s\",\"counters\":{", (unsigned long long)n, hf.c_str());
  bool first = true;
  for (auto& kv : c.counters) { std::fprintf(c.out, "%s\"%s\":%ld", first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; }
  std::fprintf(c.out, "},\"perkey\":{");
  first = true;
  for (auto& kv : c.perkey) { std::fprintf(c.out, "%s\"%s\":%d", first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; }
  std::fprintf(c.out, "},\"maxima\":{");
  first = true;
  for (auto& kv : c.maxima) { if (!std::isfinite(kv.second)) continue; std::fprintf(c.out, "%s\"%s\":%.6g", first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; }
  std::fprintf(c.out, "},\"samples\":[");
  first = true;
  for (auto& s : c.samples) { std::fprintf(c.out, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
  std::fprintf(c.out, "]}\n");
  if (c.out != stdout) std::fclose(c.out);
  return 0;
}

}  // namespace vh
#define VH_MAIN int main(int argc, char** argv) { return vh::run(argc, argv); }
