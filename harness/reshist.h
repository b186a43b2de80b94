// Random histories of resource operations on the real Material/Product classes,
// each step compared with what the property states. ASPECT selects what is checked:
// 1 quantities, 2 nuclide masses, 4 records.
#ifndef RESHIST_H_
#define RESHIST_H_
#include "sim.h"
#include "decaystub.h"
#include "comp_math.h"
#include "cyc_limits.h"
#include "package.h"
namespace reshist {
using namespace sim;
using namespace vh;
static const int NUCS[] = {10010000, 80160000, 551370000, 922350000, 922380000, 942390000, 952410000, 561370000};
enum { QTY = 1, NUC = 2, REC = 4 };

struct Snap {
  double q;
  int sid, oid, qual;
  std::string pkg, type, quality;
  std::map<int, double> m;  // nuclide masses
  Composition* c;
};
struct Want {
  int sid, oid, p1, p2;
  double q;
  std::string type, pkg;
  int qual;
};
struct Item { Resource::Ptr r; bool tr; };

inline Material::Ptr mat(const Resource::Ptr& r) { return boost::dynamic_pointer_cast<Material>(r); }
inline Product::Ptr prod(const Resource::Ptr& r) { return boost::dynamic_pointer_cast<Product>(r); }
inline std::map<int, double> masses(Composition::Ptr c, double q) {
  const CompMap& v = c->mass();
  double t = 0;
  for (auto& x : v) t += x.second;
  std::map<int, double> o;
  for (auto& x : v) if (x.second != 0) o[x.first] = t == 0 ? 0 : x.second / t * q;
  return o;
}
inline Snap snap(const Resource::Ptr& r) {
  Snap s;
  s.q = r->quantity();
  s.sid = r->state_id();
  s.oid = r->obj_id();
  s.pkg = r->package_name();
  s.type = r->type();
  s.c = 0;
  s.qual = -1;
  if (Material::Ptr m = mat(r)) { s.c = m->comp().get(); s.qual = m->qual_id(); s.m = masses(m->comp(), s.q); }
  else { s.quality = prod(r)->quality(); s.qual = r->qual_id(); }
  return s;
}

struct Hist {
  int aspect;
  Rng& r;
  World w;
  Fac* fac[2];
  std::vector<Item> it;
  std::vector<Snap> before;
  std::vector<Composition::Ptr> comps;
  std::vector<std::string> pkgs;
  std::set<int> ids;
  std::vector<Want> want;
  size_t mk;
  std::map<int, Composition::Ptr> seen;

  Hist(int a, Rng& r_) : aspect(a), r(r_) {
    w.ctx->t = r.below(5);
    for (int i = 0; i < 2; i++) fac[i] = new Fac(w.ctx);
    int n = r.range(1, 4);
    for (int i = 0; i < n; i++) {
      CompMap v;
      int k = r.range(1, 4);
      for (int j = 0; j < k; j++) v[NUCS[r.below(8)]] = r.coin() ? (double)r.range(1, 9) : posqty(r);
      double t = 0, mx = 0;
      for (auto& x : v) { t += x.second; mx = std::max(mx, x.second); }
      for (auto& x : v) if (x.second < 1e-3 * mx) x.second = mx * 0.01;
      comps.push_back(r.coin(4) ? Composition::CreateFromAtom(v) : Composition::CreateFromMass(v));
    }
    n = r.below(3);
    for (int i = 0; i < n; i++) {
      std::string nm = str("pkg", i);
      double lo = r.coin() ? 0.5 : (double)r.range(1, 5), hi = lo + r.range(0, 6);
      w.ctx->AddPackage(nm, lo, hi, r.coin() ? "first" : "equal");
      pkgs.push_back(nm);
      trace()("package ", nm, " [", lo, ",", hi, "] ", w.ctx->GetPackage(nm)->strategy());
    }
  }
  double amount() { double q = r.coin(3) ? r.range(1, 12) : r.coin() ? 0.25 * r.range(1, 60) : r.u() * 100 + 0.01; return r.coin(10) ? 0 : q; }
  void start() {
    want.clear();
    before.clear();
    for (auto& x : it) before.push_back(snap(x.r));
    mk = w.mark();
  }
  // the state of item k must be unchanged
  void same(size_t k, const char* op) {
    Snap s = snap(it[k].r), &b = before[k];
    if (aspect & QTY) check(s.q == b.q, op, ": quantity of an uninvolved or refused resource #", k, " changed from ", b.q, " to ", s.q);
    if (aspect & NUC) check(s.c == b.c, op, ": composition of an uninvolved or refused resource #", k, " changed");
    if (aspect & REC) check(s.sid == b.sid && s.oid == b.oid && s.pkg == b.pkg && s.quality == b.quality && s.type == b.type, op, ": identity, quality or package of resource #", k, " changed");
  }
  void others(std::set<size_t> inv, const char* op) { for (size_t k = 0; k < before.size(); k++) if (!inv.count(k)) same(k, op); }
  void qty(const Resource::Ptr& x, double q, double scale, const char* what) {
    if (aspect & QTY) {
      eqd(x->quantity(), q, scale, what);
      check(x->quantity() >= -1e-6, what, ": negative quantity ", x->quantity());
    }
  }
  // nuclide masses of x must be those in m (abs tolerance)
  void nuc(const Resource::Ptr& x, const std::map<int, double>& m, double tol, const char* what) {
    if (!(aspect & NUC)) return;
    Material::Ptr mm = mat(x);
    if (!mm) return;
    std::map<int, double> g = masses(mm->comp(), mm->quantity());
    double mag = 0;
    for (auto& y : m) mag += std::fabs(y.second);
    std::set<int> ks;
    for (auto& y : m) ks.insert(y.first);
    for (auto& y : g) ks.insert(y.first);
    for (int k : ks) {
      double a = g.count(k) ? g[k] : 0, b = m.count(k) ? m.at(k) : 0;
      if (std::fabs(a - b) > tol + 1e-9 * mag) throw Fail(str(what, ": mass of nuclide ", k, ": got ", a, " want ", b));
    }
  }
  void expect(const Item& x, int p1, int p2) {
    if (!x.tr) return;
    Want e;
    e.sid = x.r->state_id();
    e.oid = x.r->obj_id();
    e.p1 = p1;
    e.p2 = p2;
    e.q = x.r->quantity();
    e.type = x.r->type();
    e.pkg = x.r->package_name();
    e.qual = x.r->qual_id();
    want.push_back(e);
    if (Material::Ptr m = mat(x.r)) seen[m->qual_id()] = m->comp();
  }
  void rows(const char* op, int creator = -1) {
    if (!(aspect & REC)) return;
    w.mark();
    std::vector<Row> rs = w.back.titled("Resources", mk);
    std::set<size_t> used;
    for (auto& e : want) {
      bool ok = false;
      for (size_t i = 0; i < rs.size() && !ok; i++) {
        if (used.count(i) || rs[i].i("ResourceId") != e.sid) continue;
        used.insert(i);
        ok = true;
        eq(rs[i].i("ObjId"), e.oid, op, ": object id");
        eq(rs[i].s("Type"), e.type, op, ": type");
        eq(rs[i].i("TimeCreated"), w.ctx->t, op, ": time");
        eqd(rs[i].d("Quantity"), e.q, 0, op, ": recorded quantity");
        eq(rs[i].s("Units"), std::string(e.type == "Material" ? "kg" : "NONE"), op, ": units");
        eq(rs[i].i("QualId"), e.qual, op, ": quality id");
        eq(rs[i].s("PackageName"), e.pkg, op, ": package name");
        eq(rs[i].i("Parent1"), e.p1, op, ": first parent");
        eq(rs[i].i("Parent2"), e.p2, op, ": second parent");
        check(ids.insert(e.sid).second, op, ": state id ", e.sid, " recorded before");
      }
      check(ok, op, ": no Resources row for the resource with state id ", e.sid);
      if (e.type == "Material") {
        int n = 0;
        for (auto& x : w.back.titled("MaterialInfo", mk)) if (x.i("ResourceId") == e.sid) n++;
        check(n == 1, op, ": ", n, " MaterialInfo rows for state ", e.sid);
        std::map<int, double> got;
        double t = 0;
        for (auto& x : w.back.titled("Compositions")) if (x.i("QualId") == e.qual) {
          check(!got.count(x.i("NucId")), op, ": composition ", e.qual, " recorded twice");
          got[x.i("NucId")] = x.d("MassFrac");
          t += x.d("MassFrac");
        }
        CompMap mm = seen[e.qual]->mass();
        double tt = 0;
        for (auto& x : mm) tt += x.second;
        check(got.size() == mm.size(), op, ": composition ", e.qual, " recorded with ", got.size(), " nuclides instead of ", mm.size());
        if (tt > 0) for (auto& x : mm) eqd(got[x.first], x.second / tt, 1, op, ": recorded mass fraction of ", x.first);
      } else {
        int n = 0;
        for (auto& x : allprod()) if (x.first == e.qual) n++;
        check(n == 1, op, ": quality id ", e.qual, " recorded ", n, " times");
      }
    }
    check(used.size() == rs.size(), op, ": ", rs.size() - used.size(), " unexpected Resources row(s)");
    std::vector<Row> cr = w.back.titled("ResCreators", mk);
    if (creator >= 0 && !want.empty()) {
      check(cr.size() == 1, op, ": ", cr.size(), " ResCreators rows");
      eq(cr[0].i("ResourceId"), want[0].sid, op, ": created resource id");
      eq(cr[0].i("AgentId"), creator, op, ": creator");
    } else check(cr.empty(), op, ": unexpected ResCreators row");
  }
  // products are registered once per process, over all worlds
  static std::map<int, std::string>& known() { static std::map<int, std::string> k; return k; }
  std::vector<std::pair<int, std::string> > allprod() {
    for (auto& x : w.back.titled("Products")) {
      int q = x.i("QualId");
      if (known().count(q)) { if (known()[q] != x.s("Quality")) return {}; }
      known()[q] = x.s("Quality");
    }
    return std::vector<std::pair<int, std::string> >(known().begin(), known().end());
  }
  int pickidx(bool material, int not_ = -1) {
    std::vector<int> c;
    for (size_t i = 0; i < it.size(); i++) if ((int)i != not_ && (mat(it[i].r) ? true : false) == material) c.push_back(i);
    return c.empty() ? -1 : r.pick(c);
  }
  std::string quality() { return r.coin(8) ? str("fresh", r.next() % 100000000) : str("q", r.below(3)); }

  void create() {
    start();
    bool tr = !r.coin(4), m = !r.coin(3);
    double q = amount();
    int f = r.below(2);
    std::string pk = pkgs.empty() || r.coin() ? Package::unpackaged_name() : r.pick(pkgs);
    Item x;
    x.tr = tr;
    Composition::Ptr c = r.pick(comps);
    std::string ql = quality();
    trace()("create ", m ? "material " : "product ", m ? "" : ql, q, tr ? " tracked " : " untracked ", pk, " as #", it.size());
    if (m) x.r = tr ? Material::Create(fac[f], q, c, pk) : Material::CreateUntracked(q, c);
    else x.r = tr ? Product::Create(fac[f], q, ql, pk) : Product::CreateUntracked(q, ql);
    others({}, "create");
    it.push_back(x);
    qty(x.r, q, 0, "created quantity");
    nuc(x.r, masses(c, q), 0, "created composition");
    if (tr && (aspect & REC)) eq(x.r->package_name(), pk, "created package");
    expect(x, 0, 0);
    rows("create", tr ? fac[f]->id() : -1);
    kind(str("create ", m, tr, q == 0));
  }
  void clone(int k) {
    start();
    trace()("clone #", k, " as #", it.size());
    Item x;
    x.r = it[k].r->Clone();
    x.tr = false;
    others({}, "clone");
    check(x.r.get() != it[k].r.get(), "clone returned the original");
    qty(x.r, before[k].q, 0, "cloned quantity");
    nuc(x.r, before[k].m, 0, "cloned composition");
    if (aspect & REC) check(x.r->state_id() == before[k].sid && x.r->package_name() == before[k].pkg, "clone state");
    rows("clone");
    it.push_back(x);
    kind("clone");
  }
  void extract(int k) {
    start();
    Item s = it[k];
    double q0 = before[k].q, q;
    int how = r.below(6);
    if (how == 0) q = q0;
    else if (how == 1) q = 0;
    else if (how == 2) q = q0 + (r.coin() ? 1 : 1e-3);
    else q = q0 * (r.coin() ? 0.25 * r.range(1, 3) : 0.01 + 0.98 * r.u());
    if (q < q0 && q0 - q < 1e-4) q = q0;
    int sid = before[k].sid;
    int way = r.below(3);
    trace()("extract ", q, " from #", k, " holding ", q0, " way ", way, " as #", it.size());
    Item x;
    x.tr = s.tr;
    try {
      if (way == 0) x.r = s.r->ExtractRes(q);
      else if (Material::Ptr m = mat(s.r)) x.r = m->ExtractQty(q);
      else x.r = prod(s.r)->Extract(q);
    } catch (ValueError& e) {
      check(q > q0, "extraction of ", q, " from ", q0, " refused");
      others({}, "refused extract");
      rows("refused extract");
      kind("extract refused");
      return;
    }
    check(q <= q0, "extraction of ", q, " from ", q0, " accepted");
    others({(size_t)k}, "extract");
    check(x.r.get() != s.r.get(), "extract returned the source");
    qty(s.r, q0 - q, q0, "quantity left after extract");
    qty(x.r, q, 0, "quantity extracted");
    nuc(x.r, scale(before[k].m, q0 == 0 ? 0 : q / q0), 0, "extracted composition");
    nuc(s.r, scale(before[k].m, q0 == 0 ? 0 : (q0 - q) / q0), 0, "composition left");
    if (aspect & NUC) if (Material::Ptr m = mat(s.r)) check(m->comp() == mat(x.r)->comp() && m->comp().get() == before[k].c, "extraction by quantity changed the composition");
    if (aspect & REC) {
      eq(s.r->obj_id(), before[k].oid, "object id of the source");
      check(x.r->obj_id() != before[k].oid, "object id of the piece");
      if (Product::Ptr p = prod(s.r)) check(p->quality() == before[k].quality && prod(x.r)->quality() == before[k].quality, "quality");
    }
    expect(x, sid, 0);
    if (s.r->quantity() > 1e-6) expect(s, sid, 0);
    it.push_back(x);
    rows("extract");
    kind(str("extract ", way, how, s.tr));
  }
  static std::map<int, double> scale(std::map<int, double> m, double f) { for (auto& x : m) x.second *= f; return m; }
  void extract_comp(int k) {
    start();
    Item s = it[k];
    Material::Ptr m = mat(s.r);
    double q0 = before[k].q;
    if (q0 < 0.05) return;
    int how = r.below(6);
    Composition::Ptr c;
    double q;
    double thr = r.coin() ? -1 : r.coin() ? 1e-4 * q0 : 0.02 * q0;
    bool refuse = false;
    std::map<int, double> m0 = before[k].m;
    if (how == 0) { c = r.pick(comps); q = q0 * 0.9 * r.u(); }          // may or may not be possible
    else if (how == 1) { c = r.pick(comps); q = q0 * 1.5; refuse = true; }
    else {                                                              // a feasible part: fractions of some nuclides
      CompMap v;
      q = 0;
      for (auto& x : m0) if (r.below(3)) { double f = r.coin(3) ? 1 : 0.1 + 0.8 * r.u(); v[x.first] = x.second * f; q += v[x.first]; }
      if (v.empty() || q <= 1e-3) return;
      if (q > q0) q = q0;
      c = r.coin() ? Composition::CreateFromMass(v) : Composition::CreateFromMass(scalev(v, 1 / q));
    }
    double t = thr < 0 ? 1e-6 : thr;
    std::map<int, double> out = masses(c, q), left = m0;
    double neg = 0, kept = 0, sumleft = 0;
    bool border = false;
    for (auto& x : out) left[x.first] -= x.second;
    for (auto& x : left) {
      if (std::fabs(std::fabs(x.second) - t) < 1e-9 * q0 + 1e-12) border = true;
      if (x.second < -t) { neg = std::min(neg, x.second); refuse = true; }
    }
    if (c.get() == before[k].c) { left = scale(m0, (q0 - q) / q0); refuse = q > q0; border = false; }
    else if (q <= q0) {
      double drop = 0;
      for (auto& x : left) { if (std::fabs(x.second) <= t) { drop += std::fabs(x.second); x.second = 0; } else kept += x.second; sumleft += x.second; }
    }
    if (border) return;
    trace()("extract_comp ", q, " of ", show(c), " from #", k, " holding ", q0, " threshold ", thr, " as #", it.size());
    Item x;
    x.tr = s.tr;
    try { x.r = thr < 0 ? m->ExtractComp(q, c) : m->ExtractComp(q, c, thr); }
    catch (ValueError& e) {
      check(refuse, "possible extraction refused");
      others({}, "refused extract_comp");
      rows("refused extract_comp");
      kind("extract_comp refused");
      return;
    }
    check(!refuse, "impossible extraction accepted");
    others({(size_t)k}, "extract_comp");
    qty(s.r, q0 - q, q0, "quantity left after extract_comp");
    qty(x.r, q, 0, "quantity extracted");
    if (aspect & NUC) {
      check(mat(x.r)->comp() == c, "extracted material has another composition");
      // the entries kept must stand in the right proportion; they are scaled to the quantity left
      if (c.get() == before[k].c) nuc(s.r, left, 0, "composition left");
      else {
        const CompMap& g = m->comp()->mass();
        double gs = 0;
        for (auto& y : g) gs += y.second;
        for (auto& y : left) {
          double got = g.count(y.first) ? g.at(y.first) : 0;
          if (kept > 0 && gs > 0) eqd(got / gs * kept, y.second, q0, "mass of nuclide ", y.first, " left");
          else eqd(got, y.second, q0, "mass of nuclide ", y.first, " left");
        }
        for (auto& y : g) if (y.second != 0) check(left.count(y.first) && left[y.first] != 0, "nuclide ", y.first, " appeared or was not dropped");
        if (kept > 0) check(gs > 0, "everything was dropped");
      }
    }
    int sid = before[k].sid;
    expect(x, sid, 0);
    if (s.r->quantity() > 1e-6) expect(s, sid, 0);
    it.push_back(x);
    rows("extract_comp");
    kind(str("extract_comp ", how, s.tr, q == q0, thr < 0));
  }
  static CompMap scalev(CompMap v, double f) { for (auto& x : v) x.second *= f; return v; }
  static std::string show(Composition::Ptr c) { std::string s = "{"; for (auto& x : c->mass()) s += str(x.first, ":", x.second, " "); return s + "}"; }
  void absorb(int k, int o) {
    start();
    Item a = it[k], b = it[o];
    trace()("absorb #", o, " (", before[o].q, ") into #", k, " (", before[k].q, ")");
    Product::Ptr p = prod(a.r);
    bool bad = p && p->quality() != prod(b.r)->quality();
    try {
      if (p) p->Absorb(prod(b.r));
      else mat(a.r)->Absorb(mat(b.r));
    } catch (ValueError& e) {
      check(bad, "absorption refused");
      others({}, "refused absorb");
      rows("refused absorb");
      kind("absorb refused");
      return;
    }
    check(!bad, "products of different quality were mixed");
    others({(size_t)k, (size_t)o}, "absorb");
    double q = before[k].q + before[o].q;
    qty(a.r, q, q, "quantity after absorb");
    if (aspect & QTY) check(b.r->quantity() == 0, "absorbed resource still holds ", b.r->quantity());
    std::map<int, double> mm = before[k].m;
    for (auto& x : before[o].m) mm[x.first] += x.second;
    nuc(a.r, mm, 0, "after absorb");
    expect(a, before[k].sid, before[o].sid);
    rows("absorb");
    kind(str("absorb ", p ? 1 : 0, a.tr, b.tr, before[k].q == 0, before[o].q == 0));
  }
  void transmute(int k) {
    start();
    Item s = it[k];
    Composition::Ptr c = r.pick(comps);
    trace()("transmute #", k);
    mat(s.r)->Transmute(c);
    others({(size_t)k}, "transmute");
    if (aspect & QTY) check(s.r->quantity() == before[k].q, "transmute changed the quantity");
    if (aspect & NUC) check(mat(s.r)->comp() == c, "transmute did not set the composition");
    expect(s, before[k].sid, 0);
    rows("transmute");
    kind(str("transmute ", s.tr));
  }
  void package_extract(int k) {
    start();
    Item s = it[k];
    double q0 = before[k].q, q = r.coin(4) ? q0 : r.coin(5) ? q0 + 1 : q0 * (0.05 + 0.9 * r.u());
    if (q < q0 && q0 - q < 1e-4) q = q0;
    std::string pk = pkgs.empty() ? "box" : r.pick(pkgs);
    trace()("package_extract ", q, " from #", k, " holding ", q0, " as ", pk, " #", it.size());
    Item x;
    x.tr = s.tr;
    try { x.r = s.r->PackageExtract(q, pk); }
    catch (ValueError& e) {
      check(q > q0, "package extraction refused");
      others({}, "refused package_extract");
      rows("refused package_extract");
      kind("package_extract refused");
      return;
    }
    check(q <= q0, "package extraction of more than available accepted");
    others({(size_t)k}, "package_extract");
    pieces(k, {x}, {q}, pk, "package_extract");
    kind(str("package_extract ", s.tr, q == q0));
  }
  void pieces(int k, std::vector<Item> ps, std::vector<double> qs, std::string pk, const char* op) {
    Item s = it[k];
    double q0 = before[k].q, tot = 0, ptot = 0;
    for (size_t i = 0; i < ps.size(); i++) {
      if (qs[i] >= 0) qty(ps[i].r, qs[i], q0, "quantity of the package");
      tot += ps[i].r->quantity();
      if (aspect & REC) eq(ps[i].r->package_name(), pk, "package name");
      nuc(ps[i].r, scale(before[k].m, q0 == 0 ? 0 : ps[i].r->quantity() / q0), 0, "composition of the package");
      if (aspect & NUC) if (mat(s.r)) check(mat(ps[i].r)->comp().get() == before[k].c, "composition of the package");
      if (aspect & REC) if (prod(s.r)) eq(prod(ps[i].r)->quality(), before[k].quality, "quality of the package");
    }
    qty(s.r, q0 - tot, q0, "quantity left after packaging");
    if (aspect & NUC) check(!s.r || !mat(s.r) || mat(s.r)->comp().get() == before[k].c, "composition changed by packaging");
    if (aspect & REC) eq(s.r->package_name(), before[k].pkg, "package of the source");
    // chain of parents: each package comes from the state the source had when it was split off
    if ((aspect & REC) && s.tr) {
      w.mark();
      std::vector<Row> rs = w.back.titled("Resources", mk);
      int cur = before[k].sid;
      size_t n = 0;
      double left = q0;
      for (size_t i = 0; i < ps.size(); i++) {
        bool ok = false;
        for (auto& x : rs) if (x.i("ResourceId") == ps[i].r->state_id()) {
          check(!ok, op, ": package recorded twice");
          ok = true;
          n++;
          eq(x.i("Parent1"), cur, op, ": parent of the package");
          eq(x.i("Parent2"), 0, op, ": second parent of the package");
          eqd(x.d("Quantity"), ps[i].r->quantity(), 0, op, ": recorded quantity");
          eq(x.s("PackageName"), pk, op, ": recorded package");
          eq(x.i("TimeCreated"), w.ctx->t, op, ": time");
          eq(x.i("ObjId"), ps[i].r->obj_id(), op, ": object id");
          eq(x.i("QualId"), ps[i].r->qual_id(), op, ": quality id");
          eq(x.s("Type"), ps[i].r->type(), op, ": type");
          check(ids.insert(x.i("ResourceId")).second, op, ": state id recorded before");
        }
        check(ok, op, ": package not recorded");
        left -= ps[i].r->quantity();
        if (left > 1e-6) {
          int nxt = -1;
          for (auto& x : rs) if (x.i("ObjId") == before[k].oid && x.i("Parent1") == cur) { check(nxt < 0, op, ": source recorded twice"); nxt = x.i("ResourceId"); eqd(x.d("Quantity"), left, q0, op, ": recorded remainder"); eq(x.i("Parent2"), 0, op, ": second parent of the remainder"); }
          check(nxt >= 0, op, ": remainder of the source not recorded");
          check(ids.insert(nxt).second, op, ": state id recorded before");
          n++;
          cur = nxt;
        }
      }
      check(rs.size() == n, op, ": unexpected Resources rows");
      if (s.r->quantity() > 1e-6) eq(s.r->state_id(), cur, op, ": state id of the remainder");
    } else if (aspect & REC) rows(op);
    for (auto& x : ps) it.push_back(x);
  }
  void package(int k) {
    if (pkgs.empty()) return;
    start();
    Item s = it[k];
    std::string pk = r.pick(pkgs);
    Package::Ptr p = w.ctx->GetPackage(pk);
    double q0 = before[k].q;
    trace()("package #", k, " holding ", q0, " into ", pk);
    std::vector<Item> ps;
    std::vector<double> qs;
    if (mat(s.r)) for (auto& x : s.r->Package<Material>(p)) { check(x.get() != 0, "package is null"); ps.push_back({x, s.tr}); }
    else for (auto& x : s.r->Package<Product>(p)) { check(x.get() != 0, "package is null"); ps.push_back({x, s.tr}); }
    others({(size_t)k}, "package");
    double tot = 0;
    for (auto& x : ps) {
      double q = x.r->quantity();
      tot += q;
      qs.push_back(-1);
      if (aspect & QTY) check(q >= p->fill_min() - 1e-6 && q <= p->fill_max() + 1e-6, "package of ", q, " outside its limits");
    }
    qty(it[k].r, q0 - tot, q0, "quantity left after packaging");
    pieces(k, ps, qs, pk, "package");
    kind(str("package ", ps.size() > 1, ps.empty(), s.tr, mat(s.r) ? 1 : 0));
  }
  void change_package(int k) {
    start();
    Item s = it[k];
    std::string pk = pkgs.empty() || r.coin() ? Package::unpackaged_name() : r.pick(pkgs);
    trace()("change_package #", k, " holding ", before[k].q, " from ", before[k].pkg, " to ", pk);
    bool bad = false, ctx = s.tr || before[k].pkg == "?";
    if (pk != Package::unpackaged_name()) { Package::Ptr p = w.ctx->GetPackage(pk); bad = before[k].q < p->fill_min() || before[k].q > p->fill_max(); }
    if (pk == before[k].pkg) bad = false;
    try { s.r->ChangePackage(pk); }
    catch (ValueError& e) {
      check(bad, "package change refused");
      others({}, "refused change_package");
      rows("refused change_package");
      kind("change_package refused");
      return;
    }
    others({(size_t)k}, "change_package");
    if (aspect & QTY) check(s.r->quantity() == before[k].q, "change of package changed the quantity");
    if (aspect & NUC) if (mat(s.r)) check(mat(s.r)->comp().get() == before[k].c, "change of package changed the composition");
    if (s.tr) {
      check(!bad, "package outside its limits accepted");
      if (aspect & REC) eq(s.r->package_name(), pk, "package after change");
    }
    if (pk != before[k].pkg) expect(s, before[k].sid, 0);
    rows("change_package");
    kind(str("change_package ", s.tr, pk == before[k].pkg));
  }
  void decay(int k) {
    start();
    Item s = it[k];
    trace()("decay #", k, " at ", w.ctx->t);
    if (!mat(s.r)) return;
    int t = w.ctx->t;
    mat(s.r)->Decay(t);
    others({(size_t)k}, "decay");
    if (aspect & QTY) check(s.r->quantity() == before[k].q, "decay changed the quantity");
    if (mat(s.r)->comp().get() != before[k].c) { expect(s, before[k].sid, 0); kind("decay effective"); }
    rows("decay");
  }
  void step() {
    // rounding remainders of packaging, and materials whose composition was thresholded away, leave the pool
    for (size_t i = 0; i < it.size(); i++) {
      double q = it[i].r->quantity();
      Material::Ptr m = mat(it[i].r);
      bool none = m && q > 0;
      if (none) for (auto& x : m->comp()->mass()) if (x.second > 0) none = false;
      if (none || (q != 0 && q < 1e-6)) { it.erase(it.begin() + i); i--; }
    }
    int k = it.empty() ? -1 : r.below(it.size());
    if (it.size() > 14) { it.erase(it.begin() + r.below(it.size())); return; }
    switch (k < 0 ? 0 : r.below(16)) {
      case 0: case 1: create(); break;
      case 2: clone(k); break;
      case 3: case 4: case 5: extract(k); break;
      case 6: case 7: { k = pickidx(true); if (k >= 0) extract_comp(k); break; }
      case 8: case 9: case 10: {
        bool m = r.coin(3) ? false : true;
        k = pickidx(m);
        int o = pickidx(m, k);
        if (k >= 0 && o >= 0) absorb(k, o);
        break;
      }
      case 11: { k = pickidx(true); if (k >= 0) transmute(k); break; }
      case 12: package_extract(k); break;
      case 13: package(k); break;
      case 14: change_package(k); break;
      case 15: if (r.coin()) w.ctx->t += r.range(1, 30); else if (r.coin()) { k = pickidx(true); if (k >= 0) decay(k); } break;
    }
  }
};
inline void history(int aspect, Rng& r) {
  Hist h(aspect, r);
  int n = r.coin(5) ? r.range(20, 50) : r.range(3, 15);
  for (int i = 0; i < n; i++) h.step();
  h.it.clear();
}
}  // namespace reshist
#endif
