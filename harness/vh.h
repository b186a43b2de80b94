// Small property-harness kit: deterministic cases from a seed, a value pool
// with boundary values and hints from the verifier's countermodels, crash/hang
// attribution through a state file, and replay of a single case.
#ifndef VH_H_
#define VH_H_
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace vh {
struct Fail : std::runtime_error { explicit Fail(const std::string& s) : std::runtime_error(s) {} };

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool coin(int n = 2) { return below(n) == 0; }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below((int)v.size())]; }
};

inline std::vector<double>& hints() { static std::vector<double> h; return h; }

// non-negative quantities: boundaries, nice values, random magnitudes
inline double qty(Rng& r) {
  static const double pool[] = {0, 1, 2, 0.5, 0.25, 10, 100, 1e-3, 1e-5, 3, 7, 1000, 0.1, 0.3, 1e6, 1.5, 2.5, 33.25};
  int k = r.below(10);
  if (k == 0 && !hints().empty()) return std::fabs(r.pick(hints()));
  if (k < 6) return pool[r.below(sizeof(pool) / sizeof(pool[0]))];
  if (k < 8) return r.u() * 10;
  if (k == 8) return r.u() * std::pow(10.0, r.range(-3, 5));
  return (double)r.below(20);
}
inline double posqty(Rng& r) { for (;;) { double q = qty(r); if (q > 0) return q; } }
inline double val(Rng& r) { double q = qty(r); return r.coin(4) ? -q : q; }

inline bool near(double a, double b, double scale = 0, double rel = 1e-9) {
  if (a == b) return true;
  double m = std::max(std::max(std::fabs(a), std::fabs(b)), std::fabs(scale));
  return std::fabs(a - b) <= rel * m + 1e-13;
}

inline std::ostream& cat(std::ostream& o) { return o; }
template <class A, class... B> std::ostream& cat(std::ostream& o, const A& a, const B&... b) { o << a; return cat(o, b...); }
template <class... B> std::string str(const B&... b) { std::ostringstream o; o.precision(17); cat(o, b...); return o.str(); }
template <class... B> void check(bool ok, const B&... b) { if (!ok) throw Fail(str(b...)); }
template <class... B> void eqd(double got, double want, double scale, const B&... b) {
  if (!near(got, want, scale)) throw Fail(str(b..., ": got ", got, " want ", want));
}
template <class X, class Y, class... B> void eq(const X& got, const Y& want, const B&... b) {
  if (!(got == want)) throw Fail(str(b..., ": got ", got, " want ", want));
}
// f must throw E (or derived)
template <class E, class F, class... B> void throws(F f, const B&... b) {
  bool ok = false;
  try { f(); } catch (E&) { ok = true; }
  if (!ok) throw Fail(str(b..., ": expected a refusal"));
}

struct Log {
  std::ostringstream o;
  template <class... B> void operator()(const B&... b) { o.precision(17); cat(o, b...); o << "; "; }
};
inline Log& trace() { static Log* l = new Log(); return *l; }
inline std::set<std::string>& kinds() { static std::set<std::string> k; return k; }
inline void kind(const std::string& k) { kinds().insert(k); }

typedef void (*CaseFn)(Rng&);
struct Section { const char* name; CaseFn fn; };

// runs the sections round-robin; every case is (section, seed)
inline int run(int argc, char** argv, const std::vector<Section>& secs) {
  uint64_t seed = 1;
  double limit = 10;
  long maxcases = 1000000000L, one = -1;
  std::string only, state;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--time") limit = atof(nx().c_str());
    else if (a == "--cases") maxcases = atol(nx().c_str());
    else if (a == "--case") one = atol(nx().c_str());
    else if (a == "--only") only = nx();
    else if (a == "--state") state = nx();
    else if (a == "--hint") hints().push_back(atof(nx().c_str()));
  }
  char* mem = 0;
  if (!state.empty()) {
    int fd = open(state.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, 256) == 0) mem = (char*)mmap(0, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  }
  timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  auto el = [&]() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec); };
  long n = 0;
  std::vector<std::string> samples;
  std::set<std::string> failed;
  int rc = 0;
  for (long c = 0; n < maxcases && el() < limit; c++) {
    bool any = false;
    for (size_t k = 0; k < secs.size(); k++) {
      if (!only.empty() && only != secs[k].name) continue;
      if (failed.count(secs[k].name)) continue;
      any = true;
      long id = one >= 0 ? one : (long)((seed * 1000003ULL + c) & 0x3fffffffffffffLL);
      if (mem) snprintf(mem, 256, "%s %ld", secs[k].name, id);
      Rng r((uint64_t)id * 31 + k * 7919 + 17);
      trace().o.str("");
      std::string what;
      try { secs[k].fn(r); }
      catch (Fail& f) { what = f.what(); }
      catch (std::exception& e) { what = std::string("unexpected exception: ") + e.what(); }
      n++;
      if (!what.empty()) {
        rc = 1;
        failed.insert(secs[k].name);
        std::string t = trace().o.str();
        if (t.size() > 3000) t = "..." + t.substr(t.size() - 3000);
        std::cout << "FAIL " << secs[k].name << " " << id << " " << what << "\n  trace: " << t << std::endl;
      } else if (samples.size() < 6 && (c == 3 || c == 50)) {
        std::string t = trace().o.str();
        samples.push_back(std::string(secs[k].name) + " case " + std::to_string(id) + ": " + t.substr(0, 300));
      }
    }
    if (!any || one >= 0) break;
  }
  for (auto& s : samples) { for (auto& ch : s) if (ch == '\n') ch = ' '; std::cout << "SAMPLE " << s << "\n"; }
  std::cout << "CASES " << n << "\nKINDS " << kinds().size() << "\n";
  for (auto& k : kinds()) std::cout << "KIND " << k << "\n";
  std::cout << "DONE" << std::endl;
  return rc;
}
}  // namespace vh
#endif
