// C15: draws stay within bounds, bad parameters are refused, equal seeds give equal draws
#include "sim.h"
#include "error.h"
#include "random_number_generator.h"
using namespace cyclus;
using namespace vh;
static SimInfo info(uint64_t seed) {
  SimInfo si(5);
  si.seed = seed;
  return si;
}
static double dval(Rng& r) { return r.coin(6) ? 0 : (r.coin() ? 1 : -1) * (r.coin() ? r.u() : posqty(r)); }
static int ival(Rng& r) { return r.coin(5) ? (int)r.below(3) - 1 : r.coin(4) ? (int)(r.next() & 0x3fffffff) - 0x20000000 : (int)r.below(201) - 100; }
// a normal distribution whose window holds a fair share of the mass
struct Window { double mean, dev, lo, hi; };
static Window window(Rng& r) {
  Window w;
  w.mean = dval(r);
  w.dev = posqty(r) + 1e-3;
  w.lo = w.mean + w.dev * (r.u() * 2 - 1.5);
  w.hi = w.lo + w.dev * (0.3 + r.u());
  return w;
}
static void bounds(Rng& r) {
  sim::World w;
  bool ctx = r.coin();
  RandomNumberGenerator g;
  uint64_t seed = r.coin(4) ? r.below(3) : r.coin() ? r.below(100000) : (r.next() & 0xffffffffu);
  w.ctx->InitSim(info(seed));
  for (int n = 1 + r.below(30); n-- > 0;) {
    int op = r.below(5);
    kind(str("bounds ", op, ctx));
    if (op == 0) {
      double x = ctx ? w.ctx->random_01() : g.random_01();
      check(x >= 0 && x < 1, "unit draw ", x);
    } else if (op == 1) {
      int a = ival(r), b = ival(r);
      trace()("uniform int ", a, " ", b);
      if (a > b) { throws<ValueError>([&] { ctx ? w.ctx->random_uniform_int(a, b) : g.random_uniform_int(a, b); }, "inverted integer bounds accepted"); continue; }
      int x = ctx ? w.ctx->random_uniform_int(a, b) : g.random_uniform_int(a, b);
      check(a <= x && x <= b, "draw ", x, " outside ", a, "..", b);
    } else if (op == 2) {
      double a = dval(r), b = r.coin(8) ? a : dval(r);
      trace()("uniform real ", a, " ", b);
      if (a >= b) { throws<ValueError>([&] { ctx ? w.ctx->random_uniform_real(a, b) : g.random_uniform_real(a, b); }, "inverted real bounds accepted"); continue; }
      double x = ctx ? w.ctx->random_uniform_real(a, b) : g.random_uniform_real(a, b);
      check(a <= x && x <= b, "draw ", x, " outside ", a, "..", b);
    } else if (op == 3) {
      Window v = window(r);
      trace()("normal real ", v.mean, " ", v.dev, " ", v.lo, " ", v.hi);
      if (r.coin(6)) { throws<ValueError>([&] { ctx ? w.ctx->random_normal_real(v.mean, v.dev, v.hi, v.lo) : g.random_normal_real(v.mean, v.dev, v.hi, v.lo); }, "inverted normal bounds accepted"); continue; }
      double x = ctx ? w.ctx->random_normal_real(v.mean, v.dev, v.lo, v.hi) : g.random_normal_real(v.mean, v.dev, v.lo, v.hi);
      check(v.lo <= x && x <= v.hi, "normal draw ", x, " outside ", v.lo, "..", v.hi);
    } else {
      int lo = (int)r.below(50) - 25, hi = lo + r.below(6);
      double mean = lo + r.u() * 3, dev = 0.5 + r.u() * 2;
      trace()("normal int ", mean, " ", dev, " ", lo, " ", hi);
      if (hi == lo) mean = lo, hi++;
      if (r.coin(6)) { throws<ValueError>([&] { ctx ? w.ctx->random_normal_int(mean, dev, hi, lo) : g.random_normal_int(mean, dev, hi, lo); }, "inverted normal bounds accepted"); continue; }
      int x = ctx ? w.ctx->random_normal_int(mean, dev, lo, hi) : g.random_normal_int(mean, dev, lo, hi);
      check(lo <= x && x <= hi, "normal draw ", x, " outside ", lo, "..", hi);
    }
  }
}
static void dists(Rng& r) {
  RandomNumberGenerator g;
  g.Initialize(info(r.below(1000)));
  int op = r.below(10), n = 1 + r.below(10);
  kind(str("dist ", op));
  if (op == 0) {
    double v = dval(r);
    FixedDoubleDist d(v);
    for (int i = 0; i < n; i++) eq(d.sample(), v, "fixed value");
    eq(d.max(), v, "fixed maximum");
  } else if (op == 1) {
    double a = dval(r), b = r.coin(6) ? a : dval(r);
    trace()("a=", a, " b=", b);
    if (a >= b) { throws<ValueError>([&] { UniformDoubleDist d(a, b); }, "inverted bounds accepted"); return; }
    UniformDoubleDist d(a, b);
    eq(d.max(), b, "maximum");
    for (int i = 0; i < n; i++) { double x = d.sample(); check(a <= x && x <= b, "draw ", x, " outside ", a, "..", b); }
  } else if (op == 2) {
    Window v = window(r);
    trace()("normal ", v.mean, " ", v.dev, " ", v.lo, " ", v.hi);
    if (r.coin(5)) { double lo = v.hi, hi = r.coin() ? v.hi : v.lo; throws<ValueError>([&] { NormalDoubleDist d(v.mean, v.dev, lo, hi); }, "inverted bounds accepted"); return; }
    NormalDoubleDist d(v.mean, v.dev, v.lo, v.hi);
    eq(d.max(), v.hi, "maximum");
    for (int i = 0; i < n; i++) { double x = d.sample(); check(v.lo <= x && x <= v.hi, "draw ", x, " outside ", v.lo, "..", v.hi); }
  } else if (op == 3) {
    int v = ival(r);
    FixedIntDist d(v);
    for (int i = 0; i < n; i++) eq(d.sample(), v, "fixed value");
  } else if (op == 4) {
    int a = ival(r), b = r.coin(6) ? a : ival(r);
    trace()("a=", a, " b=", b);
    if (a > b) { throws<ValueError>([&] { UniformIntDist d(a, b); }, "inverted bounds accepted"); return; }
    UniformIntDist d(a, b);
    eq(d.max(), b, "maximum");
    for (int i = 0; i < n; i++) { int x = d.sample(); check(a <= x && x <= b, "draw ", x, " outside ", a, "..", b); }
  } else if (op == 5) {
    int lo = (int)r.below(50) - 25, hi = lo + 1 + r.below(5);
    double mean = lo + r.u() * 3, dev = 0.5 + r.u() * 2;
    trace()("normal ", mean, " ", dev, " ", lo, " ", hi);
    if (r.coin(5)) { int l = hi, h = r.coin() ? hi : lo; throws<ValueError>([&] { NormalIntDist d(mean, dev, l, h); }, "inverted bounds accepted"); return; }
    NormalIntDist d(mean, dev, lo, hi);
    eq(d.max(), hi, "maximum");
    for (int i = 0; i < n; i++) { int x = d.sample(); check(lo <= x && x <= hi, "draw ", x, " outside ", lo, "..", hi); }
  } else if (op == 6) {
    int t = 1 + r.below(20);
    double p = r.coin(6) ? 0 : r.coin(6) ? 1 : r.u();
    trace()("trials=", t, " p=", p);
    if (r.coin(4)) return throws<ValueError>([&] { BinomialIntDist d(-(int)r.below(3), p); }, "no trials accepted");
    BinomialIntDist d(t, p);
    eq(d.trials(), t, "trials");
    eq(d.p(), p, "probability");
    for (int i = 0; i < n; i++) { int x = d.sample(); check(0 <= x && x <= t, "draw ", x, " outside 0..", t); }
  } else if (op == 7) {
    int t = 1 + r.below(8);
    double p = 0.1 + 0.8 * r.u();
    NegativeBinomialIntDist d(t, p);
    eq(d.successes(), t, "successes");
    eq(d.p(), p, "probability");
    for (int i = 0; i < n; i++) check(d.sample() >= 0, "negative count");
  } else if (op == 8) {
    double m = r.u() * 5 + 0.1;
    PoissonIntDist d(m);
    eq(d.mean(), m, "mean");
    ExponentialIntDist e(m);
    eq(e.lambda(), m, "lambda");
    for (int i = 0; i < n; i++) check(d.sample() >= 0 && e.sample() >= 0, "negative draw");
  } else {
    double p = r.coin(4) ? 0 : r.coin(4) ? 1 : r.u();
    int a = ival(r), b = ival(r);
    BinaryIntDist d(p, a, b);
    eq(d.p(), p, "probability");
    for (int i = 0; i < n; i++) {
      int x = d.sample();
      check(x == a || x == b, "draw ", x, " is neither ", a, " nor ", b);
      if (p == 0) eq(x, b, "impossible choice");
      if (p == 1) eq(x, a, "certain choice");
    }
  }
}
// the same calls after the same seed
static std::vector<double> script(uint64_t s, uint64_t seed, bool viactx, int junk) {
  Rng r(s);
  sim::World w;
  RandomNumberGenerator g;
  NormalDoubleDist held(1, 1, 0, 3);
  for (int i = 0; i < junk; i++) { g.random_01(); held.sample(); if (i % 3 == 0) g.random(); }
  if (viactx) w.ctx->InitSim(info(seed)); else g.Initialize(info(seed));
  UniformDoubleDist ud(0, 3);
  std::vector<double> out;
  for (int n = 1 + r.below(40); n-- > 0;) {
    switch (r.below(9)) {
      case 0: out.push_back(g.random()); break;
      case 1: out.push_back(g.random_01()); break;
      case 2: { int a = r.below(50); out.push_back(g.random_uniform_int(a, a + r.below(1000))); break; }
      case 3: { double a = r.u(); out.push_back(g.random_uniform_real(a, a + 1)); break; }
      case 4: { double m = r.u(); out.push_back(g.random_normal_real(m, 1, m - 1, m + 1)); break; }
      case 5: { double m = r.u() * 10; out.push_back(g.random_normal_int(m, 2, 0, 20)); break; }
      case 6: out.push_back(ud.sample()); break;
      case 7: { NormalIntDist d(3, 2, 0, 8); out.push_back(d.sample()); break; }
      case 8: out.push_back(held.sample()); break;
    }
  }
  return out;
}
static void seeds(Rng& r) {
  uint64_t s = r.next(), seed = r.coin(5) ? r.below(3) : r.coin() ? r.below(1000000) : r.next() & 0xffffffffu;
  trace()("seed=", seed);
  std::vector<double> a = script(s, seed, r.coin(), r.below(5)), b = script(s, seed, r.coin(), r.below(20));
  check(a == b, "the same seed and calls gave different draws");
  kind("seeds");
}
int main(int c, char** v) {
  cyclus::warn_limit = 0;
  return run(c, v, {{"bounds", bounds}, {"dists", dists}, {"seeds", seeds}});
}
