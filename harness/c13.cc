// C13: enrichment balances and uranium assays against their definitions
#include "vh.h"
#include "error.h"
#include "material.h"
#include "pyne.h"
#include "toolkit/enrichment.h"
#include "toolkit/mat_query.h"
using namespace cyclus;
using namespace cyclus::toolkit;
using namespace vh;
static double assay(Rng& r) {
  static const double pool[] = {0.00711, 0.0025, 0.003, 0.04, 0.05, 0.2, 0.25, 0.5, 0.75, 0.9, 0.93, 0.999, 1e-6, 1e-4};
  return r.coin() ? pool[r.below(14)] : r.coin(4) ? 1e-3 + 0.01 * r.u() : r.u() * 0.999 + 5e-4;
}
static long double V(long double x) { return (1 - 2 * x) * logl(1 / x - 1); }
static void balance(Rng& r) {
  double a[3] = {assay(r), assay(r), assay(r)};
  std::sort(a, a + 3);
  double t = a[0], f = a[1], p = r.coin(12) ? f : a[2];
  if (f - t < 1e-5 * f) return;
  Assays as(f, p, t);
  eq(as.Feed(), f, "feed assay"); eq(as.Product(), p, "product assay"); eq(as.Tails(), t, "tails assay");
  double q = r.coin(8) ? 0 : qty(r);
  trace()("feed=", f, " product=", p, " tails=", t, " q=", q);
  double F = FeedQty(q, as), W = TailsQty(q, as);
  eqd(F, (double)((long double)q * ((long double)p - t) / ((long double)f - t)), 0, "feed quantity");
  check(std::fabs(F - (q + W)) <= 1e-9 * (F + q + std::fabs(W)) + 1e-12, "mass balance: feed ", F, " product ", q, " tails ", W);
  check(std::fabs(F * f - (q * p + W * t)) <= 1e-9 * (F * f + q * p) + 1e-12, "fissile balance: feed ", F * f, " product ", q * p, " tails ", W * t);
  check(F >= 0 && W >= -1e-12 * F, "negative quantity ", F, " ", W);
  double k = posqty(r);
  eqd(FeedQty(k * q, as), k * F, 0, "feed not linear"); eqd(TailsQty(k * q, as), k * W, k * F, "tails not linear");
  long double s1 = (long double)q * V(p), s2 = (long double)W * V(t), s3 = (long double)F * V(f);
  eqd(SwuRequired(q, as), (double)(s1 + s2 - s3), (double)(fabsl(s1) + fabsl(s2) + fabsl(s3)), "separative work");
  kind(str("balance ", q == 0, p == f, p > 0.5, t < 1e-3));
}
static void value(Rng& r) {
  double x = r.coin(4) ? -posqty(r) : r.coin(4) ? 1 + (r.coin() ? 0 : qty(r)) : assay(r);
  if (r.coin(20)) x = -1e-9;
  if (r.coin(20)) x = std::nextafter(1.0, 0.0);
  trace()("x=", x);
  if (x < 0 || x >= 1) {
    throws<ValueError>([&] { ValueFunc(x); }, "value function at ", x);
    double g = assay(r);
    if (g > 1e-3 && g < 0.99) {
      Assays bad(g, r.coin() && x >= 1 ? x : (x < 0 ? x : x), g / 2);
      throws<ValueError>([&] { SwuRequired(1, bad); }, "separative work with product assay ", x);
    }
    kind(str("value refused ", x < 0, x == 1));
    return;
  }
  long double w = V(x);
  if (x < 1 - 1e-9) eqd(ValueFunc(x), (double)w, 0, "value function");
  else ValueFunc(x);
  check(ValueFunc(0) > 1e300, "value function at 0 refused or finite");
  if (x > 1e-6 && x < 1 - 1e-6) check(std::fabs(ValueFunc(x) - ValueFunc(1 - x)) <= 1e-6 * (1 + std::fabs((double)w)), "value function not symmetric at ", x);
  kind(str("value ", x > 0.5));
}
static const int NUCS[] = {922350000, 922380000, 922340000, 922360000, 942390000, 80160000, 10010000, 922330000, 922350001};
static void assays(Rng& r) {
  CompMap m;
  int n = r.below(6);
  for (int i = 0; i < n; i++) m[NUCS[r.below(9)]] = qty(r);
  if (r.coin(3)) m[922350000] = qty(r);
  if (r.coin(3)) m[922380000] = qty(r);
  double tot = 0;
  for (auto& x : m) tot += x.second;
  bool atom = r.coin();
  Composition::Ptr c = atom ? Composition::CreateFromAtom(m) : Composition::CreateFromMass(m);
  double q = posqty(r);
  Material::Ptr mat = Material::CreateUntracked(q, c);
  for (auto& x : m) trace()(x.first, ":", x.second);
  trace()(atom ? "atoms" : "mass", " q=", q);
  auto get = [&](int k) { auto i = m.find(k); return i == m.end() ? 0.0 : i->second; };
  double a5 = get(922350000), a8 = get(922380000), w5 = pyne::atomic_mass(922350000), w8 = pyne::atomic_mass(922380000);
  double m5 = atom ? a5 * w5 : a5, m8 = atom ? a8 * w8 : a8, n5 = atom ? a5 : a5 / w5, n8 = atom ? a8 : a8 / w8;
  double mt = 0;
  for (auto& x : m) mt += atom ? x.second * pyne::atomic_mass(x.first) : x.second;
  eqd(UraniumAssayMass(mat), m5 + m8 > 0 ? m5 / (m5 + m8) : 0, 0, "mass assay");
  eqd(UraniumAssayAtom(mat), n5 + n8 > 0 ? n5 / (n5 + n8) : 0, 0, "atom assay");
  eqd(UraniumAssay(mat), n5 + n8 > 0 ? n5 / (n5 + n8) : 0, 0, "assay");
  eqd(UraniumQty(mat), mt > 0 ? q * (m5 + m8) / mt : 0, q, "uranium quantity");
  eqd(mat->quantity(), q, 0, "material changed");
  check(mat->comp() == c, "composition changed");
  MatQuery mq(mat);
  for (int k : NUCS) {
    double x = get(k) * (atom ? pyne::atomic_mass(k) : 1);
    eqd(mq.mass_frac(k), mt > 0 ? x / mt : 0, 0, "mass fraction of ", k);
    eqd(mq.mass(k), mt > 0 ? q * x / mt : 0, 0, "mass of ", k);
  }
  kind(str("assay ", atom, a5 > 0, a8 > 0, tot > a5 + a8, m.empty()));
}
int main(int c, char** v) { return run(c, v, {{"balance", balance}, {"value", value}, {"assays", assays}}); }
