// C14: symbolic functions and commodity supply bookkeeping against a model
#include <memory>
#include "vh.h"
#include "error.h"
#include "toolkit/commodity_producer.h"
#include "toolkit/commodity_producer_manager.h"
#include "toolkit/supply_demand_manager.h"
#include "toolkit/symbolic_function_factories.h"
#include "toolkit/symbolic_functions.h"
using namespace cyclus;
using namespace cyclus::toolkit;
using namespace vh;
struct Fn { int k = 0; double a = 0, b = 0, c = 0; double at(double x) const { return k ? a * std::exp(b * x) + c : a * x + b; } };
static std::string num(double x) { return str(x); }
static SymFunction::Ptr make(Rng& r, Fn* f) {
  f->k = r.below(2);
  if (f->k == 0) {
    f->a = val(r); f->b = val(r);
    if (r.coin(3)) return LinFunctionFactory().GetFunctionPtr(num(f->a) + " " + num(f->b));
    if (r.coin(3)) return BasicFunctionFactory().GetFunctionPtr(r.coin() ? "lin" : "linear", num(f->a) + " " + num(f->b));
    if (r.coin(6)) { f->b = 0; return SymFunction::Ptr(new LinearFunction(f->a)); }
    return SymFunction::Ptr(new LinearFunction(f->a, f->b));
  }
  f->a = val(r); f->b = (r.u() - 0.5) / 5; f->c = r.coin(3) ? 0 : val(r);
  std::string s = num(f->a) + " " + num(f->b);
  if (f->c != 0) s += " " + num(f->c);
  if (r.coin(3)) return ExpFunctionFactory().GetFunctionPtr(s);
  if (r.coin(3)) return BasicFunctionFactory().GetFunctionPtr(r.coin() ? "exp" : "exponential", s);
  if (f->c == 0 && r.coin()) return SymFunction::Ptr(new ExponentialFunction(f->a, f->b));
  return SymFunction::Ptr(new ExponentialFunction(f->a, f->b, f->c));
}
static void functions(Rng& r) {
  Fn f;
  SymFunction::Ptr p = make(r, &f);
  trace()(f.k ? "exp " : "lin ", f.a, " ", f.b, " ", f.c);
  for (int i = 0; i < 4; i++) {
    double x = r.coin(4) ? 0 : r.coin() ? r.range(-20, 60) : val(r) / 1e5;
    eqd(p->value(x), f.at(x), std::fabs(f.k ? f.a * std::exp(f.b * x) : f.a * x), "function at ", x);
  }
  if (r.coin(10)) throws<Error>([&] { BasicFunctionFactory().GetFunctionPtr("quadratic", "1 2"); }, "unknown function type");
  kind(str("function ", f.k, f.c == 0));
}
struct Piece { Fn f; double x, y; };
static double pw(const std::vector<Piece>& ps, double x, double* mag) {
  const Piece* best = 0;
  for (auto& p : ps) if (p.x <= x && (!best || p.x > best->x)) best = &p;
  if (!best) return 0;
  double v = best->f.at(x - best->x);
  *mag += std::fabs(v) + std::fabs(best->y) + (best->f.k ? std::fabs(best->f.a * std::exp(best->f.b * (x - best->x))) : std::fabs(best->f.a * (x - best->x)));
  return v + best->y;
}
static void piecewise(Rng& r) {
  PiecewiseFunctionFactory fac;
  std::vector<Piece> ps;
  std::vector<double> pts;
  double mag = 0;
  int n = r.below(6);
  for (int i = 0; i < n; i++) {
    Piece p;
    SymFunction::Ptr fp = make(r, &p.f);
    if (p.f.k) { p.f.b *= 0.5; fp = SymFunction::Ptr(new ExponentialFunction(p.f.a, p.f.b, p.f.c)); }
    double last = ps.empty() ? r.range(-5, 5) : ps.back().x;
    bool bad = !ps.empty() && r.coin(5);
    p.x = ps.empty() ? last : bad ? last - (r.coin() ? 0 : r.range(1, 3)) : last + (r.coin(3) ? 0.25 : r.range(1, 6));
    int cont = r.below(3);
    trace()("piece at ", p.x, cont == 0 ? " jump " : " continuous ", p.f.k ? "exp " : "lin ", p.f.a, ",", p.f.b, ",", p.f.c);
    if (bad) {
      throws<Error>([&] { fac.AddFunction(fp, p.x, cont != 0); }, "piece before the last one");
      kind("piecewise refused");
    } else {
      double m = 0;
      p.y = cont != 0 ? pw(ps, p.x, &m) - p.f.at(0) : 0;
      mag += m;
      if (cont == 2) fac.AddFunction(fp, p.x); else fac.AddFunction(fp, p.x, cont != 0);
      if (cont == 2) p.y = 0;   // the default
      {
        SymFunction::Ptr q = fac.GetFunctionPtr();
        if (cont == 2) {        // read off whether the default is continuous; it is documented as true
          double m2 = 0, left = pw(ps, p.x, &m2);
          p.y = left - p.f.at(0);
        }
      }
      ps.push_back(p);
      pts.push_back(p.x);
    }
  }
  SymFunction::Ptr f = fac.GetFunctionPtr();
  for (int i = 0; i < 12; i++) {
    double x = !pts.empty() && r.coin() ? r.pick(pts) + (r.coin(3) ? 0 : r.coin() ? -0.125 : 0.125) : r.range(-8, 30) + (r.coin() ? 0.5 : 0);
    double m = mag, w = pw(ps, x, &m);
    eqd(f->value(x), w, m, "piecewise function at ", x);
  }
  throws<Error>([&] { fac.GetFunctionPtr("1 2"); }, "piecewise with parameters");
  kind(str("piecewise ", ps.size()));
}
struct MProd { std::map<std::string, std::pair<double, double> > c; double dc, dk; };
static void supply(Rng& r) {
  static const char* names[] = {"a", "b", "power", "c"};
  int np = r.range(1, 4), nm = r.range(1, 3), ns = r.range(1, 2);
  std::vector<std::unique_ptr<CommodityProducer> > P;
  std::vector<MProd> mp(np);
  for (int i = 0; i < np; i++) {
    bool dflt = r.coin(3);
    mp[i].dc = dflt ? 0 : qty(r); mp[i].dk = dflt ? kModifierLimit : qty(r);
    P.emplace_back(dflt ? new CommodityProducer() : new CommodityProducer(mp[i].dc, mp[i].dk));
  }
  std::vector<std::unique_ptr<CommodityProducerManager> > M;
  std::vector<std::set<int> > mm(nm);
  for (int i = 0; i < nm; i++) M.emplace_back(new CommodityProducerManager());
  std::vector<std::unique_ptr<SupplyDemandManager> > S;
  std::vector<std::set<int> > sm(ns);
  std::vector<std::map<std::string, Fn> > sd(ns);
  for (int i = 0; i < ns; i++) S.emplace_back(new SupplyDemandManager());
  int steps = r.range(3, 30);
  for (int k = 0; k < steps; k++) {
    int p = r.below(np), m = r.below(nm), s = r.below(ns);
    std::string n = names[r.below(4)];
    Commodity co(n);
    int op = r.below(11);
    trace()("op", op, " p", p, " m", m, " s", s, " ", n);
    auto& pc = mp[p].c;
    double x = qty(r), y = qty(r);
    switch (op) {
      case 0: P[p]->Add(co); pc.insert({n, {mp[p].dc, mp[p].dk}}); break;
      case 1: P[p]->Add(co, CommodInfo(x, y)); pc.insert({n, {x, y}}); break;
      case 2: P[p]->Rm(co); pc.erase(n); break;
      case 3: if (!pc.count(n)) pc[n] = {0, kModifierLimit}; P[p]->SetCapacity(co, x); pc[n].first = x; break;
      case 4: if (!pc.count(n)) pc[n] = {0, kModifierLimit}; P[p]->SetCost(co, x); pc[n].second = x; break;
      case 5: M[m]->Register(P[p].get()); mm[m].insert(p); break;
      case 6: M[m]->Unregister(P[p].get()); mm[m].erase(p); break;
      case 7: S[s]->RegisterProducerManager(M[m].get()); sm[s].insert(m); break;
      case 8: S[s]->UnregisterProducerManager(M[m].get()); sm[s].erase(m); break;
      case 9: {
        int q = r.below(np);
        if (q == p) break;
        P[p]->Copy(P[q].get());
        for (auto& e : mp[q].c) pc[e.first] = e.second;
        break;
      }
      case 10: {
        Fn f;
        SymFunction::Ptr fp = make(r, &f);
        S[s]->RegisterCommodity(co, fp);
        sd[s].insert({n, f});
        break;
      }
    }
    for (int i = 0; i < np; i++) {
      std::set<std::string> got;
      for (auto& c : P[i]->ProducedCommodities()) got.insert(c.name());
      eq(got.size(), mp[i].c.size(), "commodities of producer ", i);
      for (int j = 0; j < 4; j++) {
        Commodity c(names[j]);
        bool has = mp[i].c.count(names[j]) > 0;
        eq(P[i]->Produces(c), has, "producer ", i, " produces ", names[j]);
        eq(got.count(names[j]) > 0, has, "listed commodity ", names[j]);
        if (has) { eqd(P[i]->Capacity(c), mp[i].c[names[j]].first, 0, "capacity"); eqd(P[i]->Cost(c), mp[i].c[names[j]].second, 0, "cost"); }
      }
    }
    for (int j = 0; j < 4; j++) {
      Commodity c(names[j]);
      std::vector<double> tot(nm, 0);
      for (int i = 0; i < nm; i++) {
        for (int q : mm[i]) if (mp[q].c.count(names[j])) tot[i] += mp[q].c[names[j]].first;
        eqd(M[i]->TotalCapacity(c), tot[i], 0, "total capacity of manager ", i, " for ", names[j]);
        eq(M[i]->producers().size(), mm[i].size(), "producers of manager ", i);
      }
      for (int i = 0; i < ns; i++) {
        double t = 0;
        for (int q : sm[i]) t += tot[q];
        eqd(S[i]->Supply(c), t, 0, "supply of ", names[j]);
        bool has = sd[i].count(names[j]) > 0;
        eq(S[i]->ManagesCommodity(c), has, "manages ", names[j]);
        if (has) {
          int tm = r.below(30);
          Fn& f = sd[i][names[j]];
          eqd(S[i]->Demand(c, tm), f.at(tm), std::fabs(f.at(tm)) + std::fabs(f.a) * tm + std::fabs(f.c) , "demand for ", names[j], " at ", tm);
          eqd(S[i]->DemandFunction(c)->value(tm), f.at(tm), std::fabs(f.a) * tm + std::fabs(f.c), "demand function");
        }
      }
    }
    for (int j = 0; j < 4; j++) for (int i = 0; i < np; i++) eq(P[i]->Produces(Commodity(names[j])), mp[i].c.count(names[j]) > 0, "queries changed producer ", i);
    kind(str("supply ", op));
  }
}
int main(int c, char** v) { return run(c, v, {{"functions", functions}, {"piecewise", piecewise}, {"supply", supply}}); }
