// C06: package and transport-unit fills against their stated limits
#include "sim.h"
#include "cyc_limits.h"
#include "package.h"
#include "random_number_generator.h"
#include "sim_init.h"
using namespace sim;
using namespace vh;
static const double EPS = 1e-6;
static const char* PS[] = {"first", "equal", "uniform", "normal"};
static const char* TS[] = {"first", "equal", "hybrid"};

static void fills(Rng& r) {
  std::string st = PS[r.below(4)];
  double mn = r.coin(4) ? 0 : qty(r), mx = r.coin(8) ? mn : qty(r);
  if (r.coin(6)) mx = std::numeric_limits<double>::max();
  if (r.coin(3)) mx = mn * (1 + r.u());
  if (mn > mx) std::swap(mn, mx);
  trace()("package ", st, " ", mn, "..", mx);
  if (st == "normal" && mn == mx) { throws<ValueError>([&] { Package::Create("p", mn, mx, st); }, "normal strategy with equal limits"); return; }
  Package::Ptr p = Package::Create("p", mn, mx, st);
  check(p->fill_min() == mn && p->fill_max() == mx && p->strategy() == st && p->name() == "p", "definition changed");
  RandomNumberGenerator rng;
  SimInfo si(10);
  si.seed = r.next() & 0xffff;
  rng.Initialize(si);
  for (int k = 0; k < 4; k++) {
    double q = qty(r);
    int sel = r.below(8);
    double big = mx > 1e100 ? mn : mx;
    if (sel == 0) q = mn;
    if (sel == 1) q = mn + (r.coin() ? 1e-7 : -1e-7);
    if (sel == 2) q = mn + (r.coin() ? 1e-4 : -1e-4);
    if (sel == 3) q = big * r.range(1, 7);
    if (sel == 4) q = big * r.range(1, 7) + mn * r.u();
    if (sel == 5) q = big * r.range(1, 5) + (r.coin() ? 1e-7 : 1e-5);
    if (sel == 6 && mx < 1e100) q = r.range(1, 5) * (mn + (mx - mn) * r.u());
    if (q > 2000 * std::max(mn, mx / 4)) q = std::max(mn, mx / 4) * 2000 * r.u();   // keeps the vectors small
    if (r.coin(20)) q = 0;
    trace()("available ", q);
    std::vector<double> f;
    if (mx == 0 && q > 0) { try { f = p->GetFillMass(q); } catch (ValueError&) { continue; } }  // nothing fits: a refusal is fine
    else f = p->GetFillMass(q);
    double sum = 0, tol = 1e-9 * (std::fabs(q) + 1e-3);
    for (double x : f) {
      sum += x;
      check(x >= mn - EPS - tol && x <= mx + tol, "fill ", x, " outside ", mn, "..", mx);
    }
    check(sum <= std::max(q, 0.0) + tol, "fills of ", sum, " exceed the available ", q);
    if (q <= 0 || q < mn - EPS - tol) check(f.empty(), "less than one minimum fill gave ", f.size(), " packages");
    else if (q >= mn && q > EPS && mx > 0) check(!f.empty(), "nothing packaged of ", q);
    check(q - sum < std::max(mn, EPS) + tol, "left over ", q - sum, " could form another package");
    if (st == "first") for (size_t i = 0; i + 1 < f.size(); i++) check(f[i] == mx, "package ", i, " of ", f.size(), " is not full: ", f[i]);
    if (st == "equal" && !f.empty() && mx < 1e100) {
      double n = std::ceil(q / mx);
      if (std::fabs(q / mx - std::round(q / mx)) > 1e-9 && n * mn < q - tol) {
        eqd(sum, q, q, "everything fits in equal packages");
        for (double x : f) eqd(x, q / n, q, "unequal fill");
        eq((double)f.size(), n, "number of packages");
      }
    }
    kind(str("fills ", st, f.empty(), mn == 0, mn == mx, f.size() > 1, sum < q - tol));
  }
}
// can n packages be arranged into units of mn..mx packages each
static bool arrangeable(long n, long mn, long mx) {
  if (n == 0) return true;
  if (mx == 0) return false;
  long k = (n + mx - 1) / mx;
  return k * mn <= n;
}
static void tunits(Rng& r) {
  std::string st = TS[r.below(3)];
  int mn = r.coin(4) ? 0 : r.below(12), mx = mn + r.below(8);
  if (r.coin(8)) mx = std::numeric_limits<int>::max();
  if (r.coin(16)) { mn *= 1000; mx = mn + r.below(100000); }
  trace()("unit ", st, " ", mn, "..", mx);
  TransportUnit::Ptr t = TransportUnit::Create("t", mn, mx, st);
  check(t->fill_min() == mn && t->fill_max() == mx && t->strategy() == st && t->name() == "t", "definition changed");
  for (int k = 0; k < 6; k++) {
    int n = r.coin(5) ? 0 : r.below(120);
    if (mn > 1000 && r.coin()) n = r.below(1000000);
    if (r.coin(6)) n = mn - r.below(2);
    if (n < 0) n = 0;
    trace()("packages ", n);
    int s = t->MaxShippablePackages(n);
    check(s >= 0 && s <= n, s, " of ", n, " shippable");
    if (n < mn) eq(s, 0, "below the minimum fill");
    check(arrangeable(s, mn, mx), s, " packages do not fit units of ", mn, "..", mx);
    if (st == "hybrid" && arrangeable(n, mn, mx)) eq(s, n, "everything can be shipped");
    int f = t->GetTransportUnitFill(n);
    if (n == 0 || n < mn) eq(f, 0, "fill below the minimum");
    else check(f >= mn && f <= mx, "unit fill ", f, " outside ", mn, "..", mx);
    kind(str("unit ", st, mn == 0, mx > 1e9, s == 0, s == n));
  }
  TransportUnit::Ptr u = TransportUnit::unrestricted();
  int n = r.below(1000);
  eq(u->MaxShippablePackages(n), n, "unrestricted unit");
}
static void refuse(Rng& r) {
  double a = val(r), b = val(r);
  std::string s = r.coin(3) ? (r.coin() ? "" : "Equal") : PS[r.below(2)];
  bool ok = a >= 0 && b >= 0 && a <= b && (s == "first" || s == "equal");
  trace()("package ", s, " ", a, "..", b);
  if (ok) Package::Create("x", a, b, s);
  else throws<ValueError>([&] { Package::Create("x", a, b, s); }, "package ", s, " ", a, "..", b);
  int c = r.range(-3, 9), d = r.range(-3, 9);
  std::string t = r.coin(3) ? (r.coin() ? "uniform" : "") : TS[r.below(3)];
  bool okt = c >= 0 && d >= 0 && c <= d && t != "uniform" && t != "";
  trace()("unit ", t, " ", c, "..", d);
  if (okt) TransportUnit::Create("x", c, d, t);
  else throws<ValueError>([&] { TransportUnit::Create("x", c, d, t); }, "unit ", t, " ", c, "..", d);
  Package::unpackaged();
  TransportUnit::unrestricted();
  throws<ValueError>([&] { Package::Create(Package::unpackaged_name(), 0, 1, "first"); }, "a second 'unpackaged'");
  throws<ValueError>([&] { TransportUnit::Create(TransportUnit::unrestricted_name(), 0, 1, "first"); }, "a second 'unrestricted'");
  kind(str("refuse ", ok, okt, a < 0, b < 0, a > b));
}
// splitting a resource into packages follows the fills
static void resource(Rng& r) {
  World w;
  Fac* f = new Fac(w.ctx);
  double mn = 0.25 * r.below(8), mx = mn + 0.25 * (1 + r.below(8));
  std::string st = PS[r.below(2)];
  w.ctx->AddPackage("can", mn, mx, st);
  Package::Ptr p = w.ctx->GetPackage("can");
  double q = 0.125 * (1 + r.below(100));
  trace()("package ", st, " ", mn, "..", mx, " resource ", q);
  Product::Ptr b = Product::Create(f, q, "bolts");
  std::vector<double> want = p->GetFillMass(q);
  std::vector<Product::Ptr> v = b->Package<Product>(p);
  eq(v.size(), want.size(), "packages");
  double s = 0;
  for (size_t i = 0; i < v.size(); i++) { eqd(v[i]->quantity(), want[i], q, "package ", i); eq(v[i]->package_name(), std::string("can"), "package name"); s += v[i]->quantity(); }
  eqd(b->quantity() + s, q, q, "packaged and left");
  kind(str("resource ", st, v.size() > 1, b->quantity() > 0));
}
int main(int c, char** v) { return run(c, v, {{"fills", fills}, {"units", tunits}, {"refuse", refuse}, {"resource", resource}}); }
