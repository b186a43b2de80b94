// C08: random simulations on the real timer and context; every call an agent
// receives is logged and compared with the phases and schedules stated
#include "sim.h"
using namespace cyclus;
using namespace vh;
struct Ev {
  char k;  // B enter, N parent told of a build, T tick, X materials exchanged, Y products exchanged, O tock, D decision, P parent told of a decommission, E exit
  int id, t;
  std::string proto;
  int parent;
};
struct Plan;
static std::vector<Ev>* evs;
static Plan* plan;
static void note(char k, Agent* a, int t);
static void act(char k, Agent* a);
template <class Base> struct Probe : public Base {
  bool shim;
  Probe(Context* c, bool s) : Base(c), shim(s) {}
  virtual Agent* Clone() { Probe* f = new Probe(this->context(), shim); f->Base::InitFrom(this); return f; }
  virtual void Snapshot(DbInit di) {}
  virtual void InitInv(Inventories& inv) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual bool IsShim() { return shim; }
  virtual void EnterNotify() { Base::EnterNotify(); note('B', this, this->context()->time()); act('B', this); }
  virtual void BuildNotify(Agent* m) { note('N', m, this->context()->time()); }
  virtual void DecomNotify(Agent* m) { note('P', m, this->context()->time()); }
  virtual void Tick() { note('T', this, this->context()->time()); act('T', this); }
  virtual void Tock() { note('O', this, this->context()->time()); act('O', this); }
  virtual void Decision() { note('D', this, this->context()->time()); act('D', this); }
  virtual void Decommission() { note('E', this, this->context()->time()); Base::Decommission(); }
};
struct Fac2 : public Probe<Facility> {
  Fac2(Context* c, bool s) : Probe<Facility>(c, s) {}
  virtual Agent* Clone() { Fac2* f = new Fac2(context(), shim); f->Facility::InitFrom(this); return f; }
  virtual std::set<RequestPortfolio<Material>::Ptr> GetMatlRequests() { note('X', this, context()->time()); return std::set<RequestPortfolio<Material>::Ptr>(); }
  virtual std::set<RequestPortfolio<Product>::Ptr> GetProductRequests() { note('Y', this, context()->time()); return std::set<RequestPortfolio<Product>::Ptr>(); }
};
typedef Probe<Institution> Inst2;
struct Build { std::string proto; Agent* parent; };
struct Plan {
  Rng& r;
  sim::World& w;
  int dur;
  std::map<int, std::vector<Build> > builds;
  std::map<int, int> decom;             // agent id -> last time it is scheduled for
  std::map<int, std::set<int> > decoms;  // the same by time
  std::vector<Agent*> parents, alive;
  std::vector<std::string> protos;
  bool killed;
  int kill_time, nsched, ndecom;
  Plan(Rng& r_, sim::World& w_) : r(r_), w(w_), dur(0), killed(false), kill_time(0), nsched(0), ndecom(0) {}
  void sched_build() {
    int now = w.ti.time();
    Build b;
    b.proto = r.pick(protos);
    b.parent = r.coin(4) ? NULL : r.pick(parents);
    int t = r.range(now - 2, now + 5);
    bool direct = r.coin(3);
    if (!direct && r.coin(5)) {
      trace()("t=", now, " context build of ", b.proto, " at -1");
      w.ctx->SchedBuild(b.parent, b.proto);
      builds[now + 1].push_back(b);
      nsched++;
      return;
    }
    if (!direct && t == -1) return;  // means the next step
    trace()("t=", now, (direct ? " timer" : " context"), " build of ", b.proto, " at ", t);
    bool refused = false;
    try {
      if (direct) w.ti.SchedBuild(b.parent, b.proto, t); else w.ctx->SchedBuild(b.parent, b.proto, t);
    } catch (ValueError&) { refused = true; }
    check(refused == (t <= now), "a build for ", t, " at time ", now, (refused ? " was refused" : " was accepted"));
    if (!refused) { builds[t].push_back(b); if (!direct) nsched++; }
  }
  void sched_decom() {
    if (alive.empty()) return;
    int now = w.ti.time();
    Agent* a = r.pick(alive);
    int t = r.range(now - 2, now + 5);
    bool direct = r.coin(3);
    if (!direct && t == -1) t = now;
    trace()("t=", now, (direct ? " timer" : " context"), " decommission of ", a->id(), " at ", t);
    bool refused = false;
    try {
      if (direct) w.ti.SchedDecom(a, t); else w.ctx->SchedDecom(a, (!direct && t == now && r.coin(2)) ? -1 : t);
    } catch (ValueError&) { refused = true; }
    check(refused == (t < now), "a decommission for ", t, " at time ", now, (refused ? " was refused" : " was accepted"));
    if (refused) return;
    if (!direct) ndecom++;
    int id = a->id();
    if (decom.count(id)) decoms[decom[id]].erase(id);
    decom[id] = t;
    decoms[t].insert(id);
  }
};
static void note(char k, Agent* a, int t) {
  Ev e;
  e.k = k; e.id = a->id(); e.t = t; e.proto = a->prototype(); e.parent = a->parent() ? a->parent()->id() : -1;
  evs->push_back(e);
  if (k == 'B') plan->alive.push_back(a);
  if (k == 'E') plan->alive.erase(std::find(plan->alive.begin(), plan->alive.end(), a));
}
static void act(char k, Agent* a) {
  Rng& r = plan->r;
  if (plan->dur < 0) return;  // not running
  int n = r.coin(3) ? r.below(3) : 0;
  for (int i = 0; i < n; i++) {
    int what = r.below(10);
    if (what < 5) plan->sched_build();
    else if (what < 9) plan->sched_decom();
    else if (what == 9 && r.coin(8)) {
      trace()("t=", plan->w.ti.time(), " kill");
      plan->w.ctx->KillSim();
      if (!plan->killed) { plan->killed = true; plan->kill_time = plan->w.ti.time(); }
    } else if (r.coin(4)) plan->w.ctx->Snapshot();
  }
}
static const char* kname(char k) {
  switch (k) { case 'B': return "entering"; case 'N': return "build notice"; case 'T': return "tick"; case 'X': return "material requests"; case 'Y': return "product requests"; case 'O': return "tock"; case 'D': return "decision"; case 'P': return "decommission notice"; case 'E': return "decommission"; }
  return "?";
}
static void simulation(Rng& r) {
  warn_limit = 0;
  sim::World w(r.range(1, 5));
  w.ctx->own = false;
  std::vector<Ev> log;
  evs = &log;
  Plan pl(r, w);
  plan = &pl;
  pl.dur = -1;
  int dur = r.range(0, 9);
  int start = r.coin(3) ? r.range(0, 4) : 0;
  SimInfo si(dur, 2000 + r.below(20), r.range(1, 12), "h");
  if (start > 0 || r.coin(4)) si.branch_time = start;
  trace()("duration ", dur, " start ", start);
  if (r.coin(6)) {
    SimInfo bad = si;
    bad.m0 = r.coin(2) ? r.range(-3, 0) : r.range(13, 20);
    bad.branch_time = 3;
    int was = w.ti.time(), wasd = w.ti.dur();
    throws<ValueError>([&] { w.ti.Initialize(w.ctx, bad); }, "a month outside 1..12");
    check(w.ti.time() == was && w.ti.dur() == wasd, "a refused initialisation changed the timer");
  }
  if (r.coin(3)) w.ctx->KillSim();  // what happened before the start is of no concern
  w.ctx->InitSim(si);
  eq(w.ti.time(), start, "initial time");
  eq(w.ti.dur(), dur, "duration");
  // agents present from the start, built in an order unlike that of their ids
  std::vector<Agent*> first;
  int np = r.range(1, 3);
  for (int i = 0; i < np; i++) {
    Inst2* a = new Inst2(w.ctx, r.coin(2));
    a->prototype("inst"); first.push_back(a); pl.parents.push_back(a);
  }
  int nf = r.range(0, 4);
  for (int i = 0; i < nf; i++) { Fac2* a = new Fac2(w.ctx, r.coin(2)); a->prototype("first"); first.push_back(a); }
  for (int i = 0; i < 3; i++) {
    Fac2* p = new Fac2(w.ctx, r.coin(2));
    std::string n = std::string("p") + char('0' + i);
    p->prototype(n);
    w.ctx->AddPrototype(n, p);
    pl.protos.push_back(n);
  }
  for (size_t i = first.size(); i > 1; i--) std::swap(first[i - 1], first[r.below(i)]);
  for (size_t i = 0; i < first.size(); i++) {
    bool isp = std::find(pl.parents.begin(), pl.parents.end(), first[i]) != pl.parents.end();
    first[i]->Build(isp ? NULL : r.pick(pl.parents));
  }
  // the parents stay for good
  for (size_t i = 0; i < pl.parents.size(); i++) pl.alive.erase(std::find(pl.alive.begin(), pl.alive.end(), pl.parents[i]));
  std::map<int, char> listeners;  // id -> 'I' or 'F'
  for (size_t i = 0; i < first.size(); i++) listeners[first[i]->id()] = dynamic_cast<Facility*>(first[i]) ? 'F' : 'I';
  // a registration repeated changes nothing
  if (r.coin(3)) { Agent* a = r.pick(first); if (TimeListener* tl = dynamic_cast<TimeListener*>(a)) w.ctx->RegisterTimeListener(tl); }
  // one that left no longer hears anything
  if (r.coin(3) && !pl.alive.empty()) {
    Agent* a = r.pick(pl.alive);
    trace()("unregister ", a->id());
    w.ctx->UnregisterTimeListener(dynamic_cast<TimeListener*>(a));
    listeners[a->id()] = 'x';
  }
  for (int i = r.below(6); i > 0; i--) { pl.sched_build(); pl.sched_decom(); }
  log.clear();
  pl.dur = dur;
  w.ti.RunSim();
  pl.dur = -1;
  w.rec.Flush();
  // ---- replay of the schedule
  size_t at = 0;
  int t = start;
  auto need = [&](char k, int now) -> Ev& {
    check(at < log.size(), "at time ", now, " no ", kname(k), " where one was due");
    Ev& e = log[at];
    check(e.k == k, "at time ", now, " ", kname(e.k), " of ", e.id, " (time ", e.t, ") where ", kname(k), " was due");
    eq(e.t, now, "time of ", kname(k));
    at++;
    return e;
  };
  auto all = [&](char k, int now) {
    std::multiset<int> want, got;
    for (auto& l : listeners) {
      bool exch = k == 'X' || k == 'Y';
      if (exch ? l.second != 'I' : l.second != 'x') want.insert(l.first);
    }
    for (size_t i = 0; i < want.size(); i++) got.insert(need(k, now).id);
    check(got == want, "listeners called for ", kname(k), " at time ", now);
  };
  bool ran_killed = false;
  for (; t < dur; t++) {
    std::vector<Build>& bs = pl.builds[t];
    for (size_t i = 0; i < bs.size(); i++) {
      Ev& e = need('B', t);
      eq(e.proto, bs[i].proto, "prototype built at ", t);
      int pid = bs[i].parent ? bs[i].parent->id() : -1;
      eq(e.parent, pid, "parent of the agent built at ", t);
      listeners[e.id] = 'F';
      int id = e.id;
      if (bs[i].parent) eq(need('N', t).id, id, "agent of the build notice");
    }
    all('T', t);
    all('X', t);
    all('Y', t);
    all('O', t);
    for (auto& l : listeners) if (l.second != 'x') eq(need('D', t).id, l.first, "order of decisions at ", t);
    std::set<int> ds = pl.decoms[t];
    while (!ds.empty()) {
      bool told = at < log.size() && log[at].k == 'P';
      if (told) need('P', t);
      Ev e = need('E', t);
      check(told == (e.parent != -1), "parent told of the decommission of ", e.id);
      check(ds.erase(e.id) == 1, "decommission of agent ", e.id, " at time ", t, ", when it was not scheduled");
      listeners.erase(e.id);
    }
    if (pl.killed && pl.kill_time == t) { t++; ran_killed = true; break; }
  }
  check(at == log.size(), "a call after the last step: ", at < log.size() ? kname(log[at].k) : "");
  eq(w.ti.time(), t, "time at the end");
  std::vector<sim::Row> fin = w.back.titled("Finish");
  eq(fin.size(), size_t(1), "finish records");
  eq(fin[0].i("EndTime"), t - 1, "recorded end time");
  check(fin[0].as<bool>("EarlyTerm") == ran_killed, "recorded early termination");
  eq(w.back.titled("BuildSchedule").size(), size_t(pl.nsched), "recorded build schedules");
  eq(w.back.titled("DecomSchedule").size(), size_t(pl.ndecom), "recorded decommission schedules");
  std::map<int, int> exits;
  for (auto& x : w.back.titled("AgentExit")) exits[x.i("AgentId")]++;
  for (auto& x : exits) eq(x.second, 1, "exit records of agent ", x.first);
}
int main(int c, char** v) { return run(c, v, {{"simulation", simulation}}); }
