// C03: composition arithmetic (compmath, KahanSum, Composition) against direct definitions
#include "vh.h"
#include "comp_math.h"
#include "composition.h"
#include "cyc_arithmetic.h"
#include "error.h"
#include "pyne.h"
using namespace cyclus;
using namespace vh;
static const int NUCS[] = {10010000, 10020000, 20040000, 60120000, 80160000, 551370000, 922330000, 922340000,
                           922350000, 922360000, 922380000, 942390000, 942400000, 952410000, 952420001, 541350000};
static CompMap gen(Rng& r, bool neg, int max = 6) {
  CompMap m;
  int n = r.below(max + 1);
  for (int i = 0; i < n; i++) m[NUCS[r.below(16)]] = neg ? val(r) : qty(r);
  if (r.coin(12)) for (auto& x : m) x.second = 0;
  return m;
}
static std::string show(const CompMap& m) {
  std::string s = "{";
  for (auto& x : m) s += str(x.first, ":", x.second, " ");
  return s + "}";
}
static double get(const CompMap& m, int k) { auto i = m.find(k); return i == m.end() ? 0 : i->second; }
static double total(const CompMap& m, double* mag = 0) {
  long double t = 0; double a = 0;
  for (auto& x : m) { t += x.second; a += std::fabs(x.second); }
  if (mag) *mag = a;
  return (double)t;
}
static void addsub(Rng& r) {
  CompMap a = gen(r, true), b = gen(r, true);
  trace()("a=", show(a), " b=", show(b));
  CompMap a0 = a, b0 = b;
  for (int s = 0; s < 2; s++) {
    CompMap o = s ? compmath::Sub(a, b) : compmath::Add(a, b);
    std::set<int> keys;
    for (auto& x : a) keys.insert(x.first);
    for (auto& x : b) keys.insert(x.first);
    check(o.size() == keys.size(), "nuclide set of ", s ? "Sub" : "Add", " ", show(o));
    for (int k : keys) {
      check(o.count(k) == 1, "nuclide lost ", k);
      eqd(o[k], get(a, k) + (s ? -1 : 1) * get(b, k), std::fabs(get(a, k)) + std::fabs(get(b, k)), s ? "Sub" : "Add", " nuclide ", k);
    }
  }
  check(a == a0 && b == b0, "operands changed");
  kind(str("addsub ", a.size() > 0, b.size() > 0));
}
static void sums(Rng& r) {
  CompMap a = gen(r, true, 12);
  double mag, t = total(a, &mag);
  trace()("a=", show(a));
  eqd(compmath::Sum(a), t, mag, "Sum");
  std::vector<double> v;
  int n = r.below(40);
  long double lt = 0; double m2 = 0;
  for (int i = 0; i < n; i++) { v.push_back(val(r)); lt += v.back(); m2 += std::fabs(v.back()); }
  std::vector<double> v0 = v;
  eqd(CycArithmetic::KahanSum(v), (double)lt, m2, "KahanSum of ", n);
  check(v == v0, "KahanSum changed its input");
  kind(str("sum ", n == 0, n > 20));
}
static void norm(Rng& r) {
  CompMap a = gen(r, r.coin(3));
  double x = qty(r);
  double mag, t = total(a, &mag);
  if (mag > 0 && t != 0 && std::fabs(t) < 1e-6 * mag) return;  // cancellation: relative error unbounded
  CompMap b = a;
  trace()("a=", show(a), " to ", x);
  compmath::Normalize(&b, x);
  check(b.size() == a.size(), "Normalize changed the nuclide set");
  double got = compmath::Sum(a);
  for (auto& k : a) {
    check(b.count(k.first) == 1, "Normalize lost ", k.first);
    if (t == 0 && got == 0) eqd(b[k.first], k.second, 0, "all-zero (or zero-sum) composition changed");
    else if (t != 0) eqd(b[k.first], k.second * (x / t), std::fabs(x / t) * mag, "Normalize nuclide ", k.first);
  }
  kind(str("norm ", t == 0, x == 0, t == x));
}
static void thresh(Rng& r) {
  CompMap a = gen(r, true);
  double t = r.coin(3) ? 0 : (r.coin(3) && !a.empty() ? std::fabs(a.begin()->second) : qty(r));
  CompMap b = a;
  trace()("a=", show(a), " thr ", t);
  compmath::ApplyThreshold(&b, t);
  CompMap w;
  for (auto& x : a) if (std::fabs(x.second) > t) w[x.first] = x.second;
  check(b == w, "ApplyThreshold ", show(b), " want ", show(w));
  CompMap c = a;
  double neg = -posqty(r);
  throws<ValueError>([&] { compmath::ApplyThreshold(&c, neg); }, "negative threshold");
  check(c == a, "refused threshold changed the map");
  kind(str("thr ", t == 0, w.size() == a.size(), w.empty()));
}
static void create(Rng& r) {
  CompMap a = gen(r, false);
  int mode = r.below(4);
  trace()("a=", show(a), " mode ", mode);
  bool mass = r.coin();
  auto mk = [&] { return mass ? Composition::CreateFromMass(a) : Composition::CreateFromAtom(a); };
  static const int bad[] = {1, 0, 2, 999, 92, 2000000000, 1234};
  if (mode == 0) {
    int k = bad[r.below(7)];
    if (pyne::nucname::isnuclide(k)) return;
    a[k] = posqty(r);
    throws<ValueError>([&] { mk(); }, "invalid nuclide ", k, " accepted");
    check(!compmath::ValidNucs(a), "ValidNucs accepts ", k);
  } else if (mode == 1) {
    a[NUCS[r.below(16)]] = -posqty(r);
    throws<ValueError>([&] { mk(); }, "negative amount accepted ", show(a));
    check(!compmath::AllPositive(a), "AllPositive ", show(a));
  } else {
    check(compmath::ValidNucs(a) && compmath::AllPositive(a), "valid composition judged invalid");
    int order = r.below(2);
    auto c = mk();
    auto d = mk();
    check(c->id() != d->id(), "composition ids reused");
    CompMap m, t;
    if (order) { m = c->mass(); t = c->atom(); } else { t = c->atom(); m = c->mass(); }
    check((mass ? m : t) == a, "stored form differs from what was given");
    check(m.size() == a.size() && t.size() == a.size(), "forms differ in nuclides");
    for (auto& x : a) {
      check(m.count(x.first) && t.count(x.first), "nuclide missing in one form");
      eqd(m[x.first], t[x.first] * pyne::atomic_mass(x.first), 0, "mass = atom * atomic mass for ", x.first);
      check(pyne::atomic_mass(x.first) > 0.9, "atomic mass");
    }
    check(c->mass() == m && c->atom() == t, "forms not stable");
  }
  kind(str("create ", mode, mass, a.empty()));
}
static void almost(Rng& r) {
  CompMap a = gen(r, r.coin(3)), b;
  double thr = r.coin(4) ? 0 : (r.coin() ? 1e-6 : qty(r));
  int mode = r.below(5);
  b = a;
  if (mode == 1 && !b.empty()) b.erase(b.begin());
  if (mode == 2) b = gen(r, false);
  if (mode == 3) for (auto& x : b) x.second *= 1 + (r.u() * 2 - 1) * thr * 1.5;
  if (mode == 4 && !b.empty()) { double v = b.begin()->second; b.erase(b.begin()); b[NUCS[r.below(16)]] = v; }
  trace()("a=", show(a), " b=", show(b), " thr ", thr);
  bool want = a.size() == b.size(), risky = false;
  if (want) for (auto& x : a) {
    if (!b.count(x.first)) { want = false; break; }
    double p = x.second, q = b[x.first], d = std::fabs(p - q);
    double lim = (p == 0 || q == 0) ? d * thr : std::min(std::fabs(p), std::fabs(q)) * thr;
    if (std::fabs(d - lim) < 1e-12 * (std::fabs(p) + std::fabs(q)) && d != lim) risky = true;
    if (d > lim) want = false;
  }
  if (!risky) {
    check(compmath::AlmostEq(a, b, thr) == want, "AlmostEq want ", want);
    check(compmath::AlmostEq(b, a, thr) == want, "AlmostEq not symmetric");
  }
  double neg = -posqty(r);
  throws<ValueError>([&] { compmath::AlmostEq(a, b, neg); }, "negative threshold accepted");
  kind(str("almost ", mode, want, thr == 0));
}
int main(int argc, char** argv) {
  return run(argc, argv, {{"addsub", addsub}, {"sums", sums}, {"norm", norm}, {"thresh", thresh}, {"create", create}, {"almost", almost}});
}
