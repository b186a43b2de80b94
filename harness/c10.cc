// C10: random exchange graphs through the greedy solver, checked for feasibility,
// exclusivity and preference order by replaying the matches
#include "vh.h"
#include <limits>
#include "cyc_limits.h"
#include "error.h"
#include "exchange_graph.h"
#include "greedy_preconditioner.h"
#include "greedy_solver.h"
#include "logger.h"
using namespace cyclus;
using namespace vh;
static const double UNL = std::numeric_limits<double>::max();
typedef ExchangeNode::Ptr N;
struct G {
  ExchangeGraph g;
  std::vector<RequestGroup::Ptr> rg;
  std::vector<ExchangeNodeGroup::Ptr> sg;
  std::vector<N> us, vs;
  std::vector<Arc> arcs;
  std::map<ExchangeNodeGroup*, std::vector<double> > caps;
  std::map<ExchangeNode*, double> qty0;
  std::map<N, std::map<Arc, double> > pref;
  std::map<N, int> group;
};
static double big(Rng& r) { return r.coin(8) ? UNL : posqty(r); }
static double coef(Rng& r) { static const double p[] = {0, 1, 1, 2, 0.5, 0.1, 3, 10}; return r.coin(4) ? r.u() * 4 : p[r.below(8)]; }
static const char* COM[] = {"a", "b", "c"};
static void make(G& x, Rng& r) {
  int nr = r.range(1, 3), ns = r.range(1, 3);
  double same = posqty(r);
  auto q = [&](bool b) { return r.coin(3) ? same : b ? big(r) : posqty(r); };
  for (int i = 0; i < nr; i++) {
    double t = q(false);
    RequestGroup::Ptr g(new RequestGroup(t));
    int nn = r.range(1, 3);
    for (int k = 0; k < nn; k++) {
      N n(new ExchangeNode(r.coin() ? t : q(true), r.coin(4), COM[r.below(3)], r.range(1, 4)));
      g->AddExchangeNode(n);
      x.us.push_back(n);
      x.group[n] = i;
    }
    int nc = r.below(3);
    for (int k = 0; k < nc; k++) g->AddCapacity(k == 0 ? t : big(r));
    x.rg.push_back(g);
    x.g.AddRequestGroup(g);
    trace()("request group ", t, " nodes ", nn, " caps ", nc);
  }
  for (int i = 0; i < ns; i++) {
    ExchangeNodeGroup::Ptr g(new ExchangeNodeGroup());
    int nn = r.range(1, 4);
    for (int k = 0; k < nn; k++) {
      N n(new ExchangeNode(q(true), r.coin(4), COM[r.below(3)], r.range(5, 8)));
      g->AddExchangeNode(n);
      x.vs.push_back(n);
    }
    int nc = r.below(4);
    for (int k = 0; k < nc; k++) g->AddCapacity(r.coin(8) ? 0 : r.coin(3) ? same : big(r));
    x.sg.push_back(g);
    x.g.AddSupplyGroup(g);
    trace()("supply group nodes ", nn, " caps ", nc);
  }
  for (auto& v : x.vs) {
    int k = r.coin(5) ? 2 : 1;
    for (int j = 0; j < k; j++) {
      N u = r.pick(x.us);
      Arc a(u, v);
      bool dup = false;
      for (auto& b : x.arcs) if (b == a) dup = true;
      if (dup) continue;
      double p = r.coin() ? (double)r.range(1, 4) : posqty(r);
      a.pref(p);
      u->prefs[a] = p;
      x.pref[u][a] = p;
      for (size_t i = 0; i < u->group->capacities().size(); i++) u->unit_capacities[a].push_back(i == 0 ? 1 : coef(r));
      for (size_t i = 0; i < v->group->capacities().size(); i++) v->unit_capacities[a].push_back(coef(r));
      if (u->group->capacities().empty() && r.coin()) u->unit_capacities[a];
      x.g.AddArc(a);
      x.arcs.push_back(a);
      trace()("arc u", u->qty, u->exclusive ? "!" : "", " v", v->qty, v->exclusive ? "!" : "", " pref ", p);
    }
  }
  for (auto& g : x.rg) x.caps[g.get()] = g->capacities();
  for (auto& g : x.sg) x.caps[g.get()] = g->capacities();
  for (auto& n : x.us) x.qty0[n.get()] = n->qty;
  for (auto& n : x.vs) x.qty0[n.get()] = n->qty;
}
static double excl(const Arc& a) {
  N u = a.unode(), v = a.vnode();
  if (u->exclusive && v->exclusive) return u->qty == v->qty ? u->qty : 0;
  if (u->exclusive) return u->qty <= v->qty ? u->qty : 0;
  if (v->exclusive) return v->qty <= u->qty ? v->qty : 0;
  return -1;
}
struct Replay {
  G& x;
  std::map<ExchangeNodeGroup*, std::vector<double> > left;
  std::map<N, double> used;
  std::vector<double> matched;
  std::set<Arc> done;
  explicit Replay(G& g) : x(g), left(g.caps), matched(g.rg.size(), 0.0) {}
  // how much more the arc could carry now
  double room(const Arc& a) {
    N u = a.unode(), v = a.vnode();
    double q = std::min(u->qty - used[u], v->qty - used[v]);
    q = std::min(q, x.rg[x.group[u]]->qty() - matched[x.group[u]]);
    std::vector<double>& c = left[v->group];
    for (size_t i = 0; i < c.size(); i++) {
      double k = v->unit_capacities[a][i];
      if (c[i] != UNL && k > 0) q = std::min(q, c[i] / k);
    }
    std::vector<double>& d = left[u->group];
    double m = d.empty() ? UNL : -UNL;
    for (size_t i = 0; i < d.size(); i++) {
      double k = u->unit_capacities[a][i];
      m = std::max(m, d[i] == UNL || k == 0 ? UNL : d[i] / k);
    }
    return std::min(q, m);
  }
  double scale(const Arc& a) {
    N u = a.unode(), v = a.vnode();
    double s = x.rg[x.group[u]]->qty();
    return s;
  }
  void take(const Arc& a, double q) {
    N u = a.unode(), v = a.vnode();
    used[u] += q; used[v] += q;
    matched[x.group[u]] += q;
    for (int s = 0; s < 2; s++) {
      N n = s ? v : u;
      std::vector<double>& c = left[n->group];
      for (size_t i = 0; i < c.size(); i++) if (c[i] != UNL) c[i] -= q * n->unit_capacities[a][i];
    }
    done.insert(a);
  }
  bool saturated(const Arc& a) {
    double tol = eps() * 1.001 + 1e-9 * scale(a);
    double e = excl(a);
    if (e >= 0) return done.count(a) || e <= eps() * 1.001 || room(a) < e * (1 + 1e-12) ;
    return room(a) <= tol;
  }
};
static void verify(G& x, const char* what) {
  Replay p(x);
  const std::vector<Match>& m = x.g.matches();
  for (auto& k : m) {
    const Arc& a = k.first;
    double q = k.second;
    bool in = false;
    for (auto& b : x.arcs) if (b == a) in = true;
    check(in, what, "match on something that is not an arc of the graph");
    check(q > 0, what, "match of ", q);
    check(!p.done.count(a), what, "the same arc is matched twice");
    double e = excl(a);
    eq(a.exclusive(), e >= 0, what, "exclusivity of an arc");
    if (e >= 0) eqd(q, e, 0, what, "amount matched on an exclusive arc");
    double room = p.room(a);
    check(q <= room + 1e-9 * p.scale(a) + 1e-12, what, "match of ", q, " where only ", room, " can be taken");
    // more-preferred arcs of the same request are already used up
    for (auto& b : x.pref[a.unode()]) {
      if (b.second > x.pref[a.unode()][a] && !p.saturated(b.first))
        throw Fail(str(what, "an arc of preference ", x.pref[a.unode()][a], " is used while one of ", b.second, " could take ", p.room(b.first)));
    }
    p.take(a, q);
  }
  // totals, independently of the order
  std::map<N, double> used;
  std::vector<double> tot(x.rg.size(), 0.0);
  std::map<ExchangeNodeGroup*, std::vector<double> > use;
  for (auto& k : m) {
    N u = k.first.unode(), v = k.first.vnode();
    used[u] += k.second; used[v] += k.second;
    tot[x.group[u]] += k.second;
    use[v->group].resize(x.caps[v->group].size());
    for (size_t i = 0; i < x.caps[v->group].size(); i++) use[v->group][i] += k.second * v->unit_capacities[k.first][i];
  }
  for (auto& k : used) check(k.second <= k.first->qty * (1 + 1e-9), what, "node of ", k.first->qty, " given ", k.second);
  for (size_t i = 0; i < tot.size(); i++) check(tot[i] <= x.rg[i]->qty() * (1 + 1e-9), what, "request group of ", x.rg[i]->qty(), " given ", tot[i]);
  for (auto& k : use)
    for (size_t i = 0; i < k.second.size(); i++)
      if (x.caps[k.first][i] != UNL)
        check(k.second[i] <= x.caps[k.first][i] * (1 + 1e-9) + 1e-9, what, "supply capacity ", x.caps[k.first][i], " used ", k.second[i]);
  // every arc was tried: nothing more can be matched
  for (auto& a : x.arcs) check(p.saturated(a), what, "an arc could still take ", p.room(a));
  // the graph itself is as it was
  for (auto& k : x.caps) {
    check(k.first->capacities() == k.second, what, "the group capacities of the graph changed");
  }
  for (auto& k : x.qty0) check(k.first->qty == k.second, what, "node quantity changed");
  kind(str("matches ", std::min<size_t>(m.size(), 5), " arcs ", std::min<size_t>(x.arcs.size(), 6)));
}
static void solve(Rng& r) {
  static bool quiet = false;
  if (!quiet) { Logger::ReportLevel() = LEV_ERROR; quiet = true; }
  std::map<std::string, double> w;
  for (int i = 0; i < 3; i++) w[COM[i]] = r.range(0, 3);
  bool ex = r.coin();
  GreedySolver* s = 0;
  switch (r.below(4)) {
    case 0: s = new GreedySolver(ex); break;
    case 1: s = new GreedySolver(ex, new GreedyPreconditioner(w)); break;
    case 2: s = new GreedySolver(ex, new GreedyPreconditioner(w, r.coin() ? GreedyPreconditioner::REVERSE : GreedyPreconditioner::END)); break;
    default: s = new GreedySolver(ex, NULL);
  }
  std::unique_ptr<GreedySolver> own(s);
  int n = r.range(1, 2);
  for (int i = 0; i < n; i++) {
    G x;
    make(x, r);
    s->Solve(&x.g);
    verify(x, "");
    if (r.coin(5)) {
      x.g.ClearMatches();
      s->Solve(&x.g);
      verify(x, "solved again: ");
    }
  }
}
// the building blocks on their own
static void blocks(Rng& r) {
  double q = posqty(r), p = r.coin() ? q : posqty(r);
  bool eu = r.coin(), ev = r.coin();
  N u(new ExchangeNode(q, eu, "a", 1)), v(new ExchangeNode(p, ev, "a", 2));
  trace()("u ", q, eu, " v ", p, ev);
  Arc a(u, v);
  a.pref(2.5);
  eq(a.exclusive(), eu || ev, "exclusive");
  eqd(a.excl_val(), eu || ev ? excl(a) : 0, 0, "exclusive amount");
  check(a.unode() == u && a.vnode() == v, "ends of the arc");
  Arc b(a), c(v, u);
  c = a;
  for (const Arc* k : {&b, &c}) {
    check(*k == a && !(*k < a) && !(a < *k), "copy is another arc");
    eq(k->exclusive(), a.exclusive(), "copied exclusivity");
    eq(k->excl_val(), a.excl_val(), "copied exclusive amount");
    eq(k->pref(), a.pref(), "copied preference");
  }
  ExchangeGraph g;
  int n = r.range(1, 5);
  std::vector<N> us;
  for (int i = 0; i < n; i++) {
    N w(new ExchangeNode(i + 1));
    us.push_back(w);
    Arc k(w, v);
    g.AddArc(k);
  }
  eq(g.arcs().size(), (size_t)n, "arcs");
  eq(g.node_arc_map()[v].size(), (size_t)n, "arcs of the shared node");
  for (int i = 0; i < n; i++) {
    eq(g.node_arc_map()[us[i]].size(), 1u, "arcs of a node");
    check(g.node_arc_map()[v][i].unode() == us[i], "arc order");
    int id = g.arc_ids()[g.arcs()[i]];
    check(g.arc_by_id().at(id) == g.arcs()[i], "arc by its id");
    g.AddMatch(g.arcs()[i], i + 0.5);
    check(g.matches().back().first == g.arcs()[i] && g.matches().back().second == i + 0.5, "added match");
  }
  std::set<int> ids;
  for (auto& k : g.arc_ids()) ids.insert(k.second);
  eq(ids.size(), (size_t)n, "arc ids");
  g.ClearMatches();
  check(g.matches().empty(), "matches left");
  kind(str("arc ", eu, ev, q < p, q == p));
}
int main(int c, char** v) { return run(c, v, {{"solve", solve}, {"blocks", blocks}}); }
