PROPERTY = "C10"
NEEDS = "an exclusive request slightly above what the supplier can still provide"
BREAKS = "an exclusive match is made although the capacity falls a little short, so the supplier's capacity is exceeded"
EDITS = [("src/greedy_solver.cc", """          double dist = boost::math::float_distance(tomatch, excl_val);
          if (dist >= float_ulp_eq ) {""", """          double dist = excl_val - tomatch;
          if (dist >= 1e-4 * excl_val && !IsNegative(dist - eps())) {""")]
DEMO = r"""
#include "exchange_graph.h"
#include "greedy_solver.h"
int main() {
  ExchangeGraph g;
  ExchangeNode::Ptr v(new ExchangeNode(100, false, "c", 9));
  ExchangeNodeGroup::Ptr s(new ExchangeNodeGroup());
  s->AddExchangeNode(v);
  s->AddCapacity(99.995);
  g.AddSupplyGroup(s);
  RequestGroup::Ptr r(new RequestGroup(100));
  ExchangeNode::Ptr u(new ExchangeNode(100, true, "c", 1));
  r->AddExchangeNode(u);
  g.AddRequestGroup(r);
  Arc a(u, v);
  a.pref(1);
  u->prefs[a] = 1;
  v->unit_capacities[a].push_back(1);
  g.AddArc(a);
  GreedySolver sol(true);
  sol.Solve(&g);
  EXPECT(g.matches().size() == 0);
  return bad ? 1 : 0;
}
"""
