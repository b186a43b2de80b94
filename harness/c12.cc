// C12: random sets of trades through TradeExecutor; who is asked for what, what
// is delivered to whom and what is recorded are compared with the trades agreed
#include "sim.h"
#include "bid.h"
#include "bid_portfolio.h"
#include "cyc_limits.h"
#include "request.h"
#include "request_portfolio.h"
#include "trade.h"
#include "trade_executor.h"
#include "trader.h"
using namespace cyclus;
using namespace vh;
template <class T> struct Book {
  std::vector<std::vector<Trade<T> > > asked;
  std::vector<std::pair<Trade<T>, typename T::Ptr> > gave, got;
  int accepts = 0;
};
static Material::Ptr mk(Agent* a, double q, Material*) {
  CompMap m;
  m[922350000] = 1;
  return Material::Create(a, q, Composition::CreateFromMass(m));
}
static Product::Ptr mk(Agent* a, double q, Product*) { return Product::Create(a, q, "thing"); }
// 0 as agreed, 1 nothing, 2 empty resources, 3 answers in reverse, 4 a trade answered in two parts, 5 partial amount
template <class T> static void answer(Agent* a, Rng& r, int mode, const std::vector<Trade<T> >& ts, std::vector<std::pair<Trade<T>, typename T::Ptr> >& out) {
  for (size_t k = 0; k < ts.size(); k++) {
    const Trade<T>& t = ts[mode == 3 ? ts.size() - 1 - k : k];
    if (mode == 1 || (mode != 0 && r.coin(5))) continue;
    double q = mode == 2 ? 0 : mode == 5 ? t.amt * 0.5 : t.amt;
    if (mode == 4) {
      out.push_back(std::make_pair(t, mk(a, q * 0.25, (T*)0)));
      q *= 0.75;
    }
    out.push_back(std::make_pair(t, mk(a, q, (T*)0)));
  }
}
struct Guy : public sim::Fac {
  Rng r;
  int mode;
  Book<Material> lm;
  Book<Product> lp;
  Guy(Context* c, uint64_t s, int m) : sim::Fac(c), r(s), mode(m) {}
  virtual void GetMatlTrades(const std::vector<Trade<Material> >& ts, std::vector<std::pair<Trade<Material>, Material::Ptr> >& out) {
    lm.asked.push_back(ts);
    size_t n = out.size();
    answer(this, r, mode, ts, out);
    lm.gave.insert(lm.gave.end(), out.begin() + n, out.end());
  }
  virtual void GetProductTrades(const std::vector<Trade<Product> >& ts, std::vector<std::pair<Trade<Product>, Product::Ptr> >& out) {
    lp.asked.push_back(ts);
    size_t n = out.size();
    answer(this, r, mode, ts, out);
    lp.gave.insert(lp.gave.end(), out.begin() + n, out.end());
  }
  virtual void AcceptMatlTrades(const std::vector<std::pair<Trade<Material>, Material::Ptr> >& rs) { lm.accepts++; lm.got.insert(lm.got.end(), rs.begin(), rs.end()); }
  virtual void AcceptProductTrades(const std::vector<std::pair<Trade<Product>, Product::Ptr> >& rs) { lp.accepts++; lp.got.insert(lp.got.end(), rs.begin(), rs.end()); }
};
static Book<Material>& lg(Guy* g, Material*) { return g->lm; }
static Book<Product>& lg(Guy* g, Product*) { return g->lp; }
template <class T> static void deal(sim::World& w, std::vector<Guy*>& gs, Rng& r, std::set<int>& used) {
  typedef std::pair<Trade<T>, typename T::Ptr> Resp;
  static const char* COM[] = {"fuel", "ore", "waste"};
  std::vector<Request<T>*> reqs;
  std::vector<Bid<T>*> bids;
  std::vector<Trade<T> > ts;
  int n = r.below(7);
  for (int k = 0; k < n; k++) {
    Guy* a = r.pick(gs);
    Guy* b = r.pick(gs);
    double q = r.coin(6) ? 0.4 * eps_rsrc() : posqty(r);
    Request<T>* rq = k && r.coin(4) ? r.pick(reqs) : Request<T>::Create(mk(b, posqty(r), (T*)0), b, COM[r.below(3)]);
    b = dynamic_cast<Guy*>(rq->requester());
    Bid<T>* bd = k && r.coin(4) ? r.pick(bids) : Bid<T>::Create(rq, mk(a, posqty(r), (T*)0), a);
    reqs.push_back(rq);
    bids.push_back(bd);
    ts.push_back(Trade<T>(rq, bd, q));
    trace()("trade ", k, " from ", bd->bidder()->manager()->id(), " to ", rq->requester()->manager()->id(), " amount ", q);
  }
  for (auto g : gs) lg(g, (T*)0) = Book<T>();
  size_t from = w.mark();
  bool ctx = !r.coin(6);
  {
    TradeExecutor<T> ex(ts);
    if (ctx) ex.ExecuteTrades(w.ctx);
    else ex.ExecuteTrades();
  }
  // who is asked for what
  for (auto g : gs) {
    std::vector<Trade<T> > mine;
    for (auto& t : ts) if (t.bid->bidder() == g) mine.push_back(t);
    Book<T>& l = lg(g, (T*)0);
    eq((int)l.asked.size(), mine.empty() ? 0 : 1, "a supplier is asked once, and only if it has trades");
    if (mine.empty()) continue;
    eq(l.asked[0].size(), mine.size(), "trades asked of a supplier");
    for (size_t k = 0; k < mine.size(); k++) check(mine[k] == l.asked[0][k], "the trades agreed, as agreed");
  }
  // what is delivered
  for (auto g : gs) {
    std::vector<Resp> want;
    for (auto s : gs) for (auto& x : lg(s, (T*)0).gave) if (x.first.request->requester() == g) want.push_back(x);
    Book<T>& l = lg(g, (T*)0);
    eq(l.got.size(), want.size(), "responses delivered");
    check(l.accepts <= 1, "delivered in one call");
    std::vector<bool> seen(want.size(), false);
    for (auto& x : l.got) {
      bool ok = false;
      for (size_t k = 0; k < want.size() && !ok; k++)
        if (!seen[k] && want[k].first == x.first && want[k].second == x.second) seen[k] = ok = true;
      check(ok, "a delivered response is one the supplier gave for that trade");
    }
  }
  // what is recorded
  w.rec.Flush();
  std::vector<sim::Row> rows = w.back.titled("Transactions", from);
  struct E { int s, r, id; std::string c; bool seen; };
  std::vector<E> want;
  for (auto s : gs) for (auto& x : lg(s, (T*)0).gave)
    if (ctx && x.second->quantity() > eps_rsrc()) want.push_back(E{s->id(), x.first.request->requester()->manager()->id(), x.second->state_id(), x.first.request->commodity(), false});
  eq(rows.size(), want.size(), "one row per response of positive quantity");
  for (auto& row : rows) {
    check(used.insert(row.i("TransactionId")).second, "a new transaction id");
    eq(row.i("Time"), w.ctx->time(), "time");
    bool ok = false;
    for (auto& e : want)
      if (!e.seen && !ok && e.s == row.i("SenderId") && e.r == row.i("ReceiverId") && e.id == row.i("ResourceId") && e.c == row.s("Commodity")) e.seen = ok = true;
    check(ok, "a row states sender, receiver, resource and commodity of a trade");
  }
  for (auto x : std::set<Bid<T>*>(bids.begin(), bids.end())) delete x;
  for (auto x : std::set<Request<T>*>(reqs.begin(), reqs.end())) delete x;
}
static void trades(Rng& r) {
  sim::World w(r.coin() ? 1 : r.range(1, 20));
  std::vector<Guy*> gs;
  int n = r.range(1, 4);
  for (int k = 0; k < n; k++) gs.push_back(new Guy(w.ctx, r.next(), r.coin() ? 0 : r.range(1, 5)));
  std::set<int> used;
  for (int k = r.range(1, 3); k > 0; k--) {
    w.ctx->t = r.below(50);
    if (r.coin()) { kind("material"); deal<Material>(w, gs, r, used); }
    else { kind("product"); deal<Product>(w, gs, r, used); }
  }
  for (auto g : gs) delete g;
}
int main(int c, char** v) { return run(c, v, {{"trades", trades}}); }
