PROPERTY = "C12"
NEEDS = "one supplier answering two or more trades of the same requester in one step"
BREAKS = "all responses between the same two traders are recorded under one transaction id"
EDITS = [("src/trade_executor.h", """      for (v_it = trades.begin(); v_it != trades.end(); ++v_it) {
        Trade<T>& trade = v_it->first;""", """      int trans_id = trades.empty() ? -1 : ctx->NextTransactionID();
      for (v_it = trades.begin(); v_it != trades.end(); ++v_it) {
        Trade<T>& trade = v_it->first;"""), ("src/trade_executor.h", """AddVal("TransactionId", ctx->NextTransactionID())""", """AddVal("TransactionId", trans_id)""")]
COMMON = r"""
#include "trade_executor.h"
#include "facility.h"
#include "recorder.h"
#include "rec_backend.h"
#include "timer.h"
#include "product.h"
#include <set>
struct Guy : public Facility {
  size_t asked, got;
  Guy(Context* c) : Facility(c), asked(0), got(0) {}
  virtual Agent* Clone() { return new Guy(context()); }
  virtual void InitInv(Inventories& inv) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void Tick() {}
  virtual void Tock() {}
  virtual void GetProductTrades(const std::vector<Trade<Product> >& ts, std::vector<std::pair<Trade<Product>, Product::Ptr> >& out) {
    asked += ts.size();
    for (size_t i = 0; i < ts.size(); i++) out.push_back(std::make_pair(ts[i], Product::CreateUntracked(ts[i].amt, "thing")));
  }
  virtual void AcceptProductTrades(const std::vector<std::pair<Trade<Product>, Product::Ptr> >& rs) { got += rs.size(); }
};
"""
DEMO = COMMON + r"""
int main() {
  World w;
  Context& ctx = *w.ctx;
  Guy s(&ctx), q(&ctx);
  RequestPortfolio<Product>::Ptr rp(new RequestPortfolio<Product>());
  Request<Product>* r1 = rp->AddRequest(Product::CreateUntracked(2, "thing"), &q, "c");
  Request<Product>* r2 = rp->AddRequest(Product::CreateUntracked(3, "thing"), &q, "c");
  BidPortfolio<Product>::Ptr bp(new BidPortfolio<Product>());
  Bid<Product>* b1 = bp->AddBid(r1, Product::CreateUntracked(2, "thing"), &s);
  Bid<Product>* b2 = bp->AddBid(r2, Product::CreateUntracked(3, "thing"), &s);
  std::vector<Trade<Product> > ts;
  ts.push_back(Trade<Product>(r1, b1, 2));
  ts.push_back(Trade<Product>(r2, b2, 3));
  TradeExecutor<Product> ex(ts);
  ex.ExecuteTrades(&ctx);
  w.rec.Flush();
  std::vector<Row> rows = w.back.get("Transactions");
  EXPECT(rows.size() == 2 && rows[0].i("TransactionId") != rows[1].i("TransactionId"));
  EXPECT(q.got == 2);
  return bad ? 1 : 0;
}
"""
