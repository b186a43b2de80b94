PROPERTY = "C08"
NEEDS = "a timer initialised again after a killed run"
BREAKS = "the run that follows a killed one stops after its first step"
EDITS = [("src/timer.cc", """  want_kill_ = false;
  ctx_ = ctx;
""", """  ctx_ = ctx;
""")]
DEMO = r"""
struct Guy : public Facility {
  int kill, n;
  Guy(Context* c, int k) : Facility(c), kill(k), n(0) {}
  virtual Agent* Clone() { return new Guy(context(), kill); }
  virtual void InitInv(Inventories& inv) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void Tick() { n++; if (context()->time() == kill) context()->KillSim(); }
  virtual void Tock() {}
};

int main() {
  Mem back;
  Recorder rec(1u);
  rec.RegisterBackend(&back);
  Timer ti;
  Context* ctx = new Context(&ti, &rec);
  ctx->InitSim(SimInfo(6));
  Guy* g = new Guy(ctx, 2);
  g->Build(NULL);
  ti.RunSim();
  EXPECT(g->n == 3);
  g->kill = -1;
  g->n = 0;
  ctx->InitSim(SimInfo(5));
  ti.RunSim();
  EXPECT(g->n == 5);
  return bad ? 1 : 0;
}
"""
