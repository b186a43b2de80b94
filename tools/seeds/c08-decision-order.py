PROPERTY = "C08"
NEEDS = "listeners registered in an order unlike that of their ids"
BREAKS = "decisions are made in order of registration and not of agent id"
EDITS = [("src/timer.cc", """  for (std::map<int, TimeListener*>::iterator agent = tickers_.begin();
       agent != tickers_.end();
       agent++) {
    agent->second->Decision();
  }
""", """  for (TimeListener* agent : py_tickers_) {
    agent->Decision();
  }
  for (TimeListener* agent : cpp_tickers_) {
    agent->Decision();
  }
""")]
DEMO = r"""
#include <vector>
static std::vector<int> order;
struct Guy : public Facility {
  Guy(Context* c) : Facility(c) {}
  virtual Agent* Clone() { return new Guy(context()); }
  virtual void InitInv(Inventories& inv) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void Tick() {}
  virtual void Tock() {}
  virtual void Decision() { order.push_back(id()); }
};

int main() {
  Mem back;
  Recorder rec(1u);
  rec.RegisterBackend(&back);
  Timer ti;
  Context* ctx = new Context(&ti, &rec);
  ctx->InitSim(SimInfo(1));
  Guy* a = new Guy(ctx);
  Guy* b = new Guy(ctx);
  b->Build(NULL);
  a->Build(NULL);
  ti.RunSim();
  EXPECT(order.size() == 2);
  EXPECT(order[0] == a->id() && order[1] == b->id());
  return bad ? 1 : 0;
}
"""
