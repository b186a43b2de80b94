PROPERTY = "C12"
NEEDS = "the same request matched twice with the same bid for the same amount"
BREAKS = "the second of two equal trades is dropped: the supplier is asked for it once only"
EDITS = [("src/trade_executor.h", """    trade_ctx.trades_by_supplier[it->bid->bidder()].push_back(*it);
""", """    // the solver may report a match it split in pieces more than once
    std::vector< Trade<T> >& group = trade_ctx.trades_by_supplier[it->bid->bidder()];
    if (group.empty() || !(group.back() == *it)) group.push_back(*it);
""")]
DEMO = r"""
#include "trade_executor.h"
#include "facility.h"
#include "recorder.h"
#include "rec_backend.h"
#include "timer.h"
#include "product.h"
#include <set>
struct Guy : public Facility {
  size_t asked, got;
  Guy(Context* c) : Facility(c), asked(0), got(0) {}
  virtual Agent* Clone() { return new Guy(context()); }
  virtual void InitInv(Inventories& inv) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void Tick() {}
  virtual void Tock() {}
  virtual void GetProductTrades(const std::vector<Trade<Product> >& ts, std::vector<std::pair<Trade<Product>, Product::Ptr> >& out) {
    asked += ts.size();
    for (size_t i = 0; i < ts.size(); i++) out.push_back(std::make_pair(ts[i], Product::CreateUntracked(ts[i].amt, "thing")));
  }
  virtual void AcceptProductTrades(const std::vector<std::pair<Trade<Product>, Product::Ptr> >& rs) { got += rs.size(); }
};

int main() {
  World w;
  Context& ctx = *w.ctx;
  Guy s(&ctx), q(&ctx);
  RequestPortfolio<Product>::Ptr rp(new RequestPortfolio<Product>());
  Request<Product>* r1 = rp->AddRequest(Product::CreateUntracked(6, "thing"), &q, "c");
  BidPortfolio<Product>::Ptr bp(new BidPortfolio<Product>());
  Bid<Product>* b1 = bp->AddBid(r1, Product::CreateUntracked(6, "thing"), &s);
  std::vector<Trade<Product> > ts(2, Trade<Product>(r1, b1, 3));
  TradeExecutor<Product> ex(ts);
  ex.ExecuteTrades(&ctx);
  EXPECT(s.asked == 2);
  EXPECT(q.got == 2);
  return bad ? 1 : 0;
}
"""
