PROPERTY = "C10"
NEEDS = "two or more exclusive requests served by one divisible bid whose supply group has no binding capacity"
BREAKS = "what exclusive matches take from a bid is not remembered, so the bid is promised more than once"
EDITS = [("src/greedy_solver.cc", """          n_qty_[v] += tomatch;
""", """          if (!a.exclusive() || v->exclusive)
            n_qty_[v] += tomatch;
""")]
DEMO = r"""
#include "exchange_graph.h"
#include "greedy_solver.h"
int main() {
  ExchangeGraph g;
  ExchangeNode::Ptr v(new ExchangeNode(10, false, "c", 9));
  ExchangeNodeGroup::Ptr s(new ExchangeNodeGroup());
  s->AddExchangeNode(v);
  g.AddSupplyGroup(s);
  for (int i = 0; i < 3; ++i) {
    RequestGroup::Ptr r(new RequestGroup(6));
    ExchangeNode::Ptr u(new ExchangeNode(6, true, "c", i + 1));
    r->AddExchangeNode(u);
    g.AddRequestGroup(r);
    Arc a(u, v);
    a.pref(1);
    u->prefs[a] = 1;
    g.AddArc(a);
  }
  GreedySolver sol(true);
  sol.Solve(&g);
  double t = 0;
  for (size_t i = 0; i < g.matches().size(); ++i) t += g.matches()[i].second;
  EXPECT(t == 6);
  return bad ? 1 : 0;
}
"""
