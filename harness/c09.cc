// C09: random histories of agents and registrations on a real context,
// compared with a shadow tree and shadow registries
#include "sim.h"
#include "package.h"
#include "composition.h"
using namespace cyclus;
using namespace vh;
template <class Base> struct Ag : public Base {
  explicit Ag(Context* c) : Base(c) {}
  virtual Agent* Clone() { Ag* f = new Ag(this->context()); f->Base::InitFrom(this); return f; }
  virtual void Snapshot(DbInit di) {}
  virtual void InitInv(Inventories& inv) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void Tick() {}
  virtual void Tock() {}
};
typedef Ag<Facility> F;
typedef Ag<Institution> N;
typedef Ag<Region> G;
struct Sh { Agent* a; int id, parent, enter, life, pid; std::string proto, spec, kind; };
static void tree(Rng& r) {
  warn_limit = 0;
  sim::World w(r.range(1, 4));
  std::map<int, Sh> sh;
  std::map<std::string, int> nproto, nspec;
  int last = -1;
  std::vector<sim::Row> entries, exits;
  static const char* names[] = {"a", "b", "c"};
  static const char* specs[] = {":x:Y", ":x:Z"};
  auto pickid = [&]() -> int { int k = r.below(sh.size()); auto it = sh.begin(); std::advance(it, k); return it->first; };
  auto anc = [&](int x, int y) { for (int p = sh[y].parent; p != -1; p = sh[p].parent) if (p == x) return true; return false; };
  size_t nent = 0, nex = 0;
  int steps = r.range(4, 40);
  for (int s = 0; s < steps; s++) {
    w.ctx->t += r.coin(3) ? r.below(3) : 0;
    int now = w.ctx->t;
    int op = r.below(10);
    if (sh.empty()) op = 0;
    if (op <= 2) {
      int k = r.below(3);
      Agent* a = k == 0 ? static_cast<Agent*>(new F(w.ctx)) : k == 1 ? static_cast<Agent*>(new N(w.ctx)) : static_cast<Agent*>(new G(w.ctx));
      Sh x;
      x.a = a; x.id = a->id(); x.parent = -1; x.pid = -1; x.enter = -1; x.life = -1;
      x.kind = k == 0 ? "Facility" : k == 1 ? "Inst" : "Region";
      x.proto = names[r.below(3)]; x.spec = specs[r.below(2)];
      a->prototype(x.proto); a->spec(x.spec);
      check(x.id > last, "agent id ", x.id, " after ", last);
      last = x.id;
      sh[x.id] = x;
      trace()("new ", x.kind, " ", x.id);
    } else if (op <= 5) {
      Sh& x = sh[pickid()];
      int p = r.coin(4) ? -1 : pickid();
      if (p != -1 && p != x.id && anc(x.id, p)) continue;  // no cycles
      bool build = x.enter == -1 && r.coin(2);
      trace()(build ? "build " : "connect ", x.id, " under ", p);
      if (build && p == x.id) {
        kind("own-child");
        throws<KeyError>([&] { x.a->Build(x.a); }, "an agent built under itself");
      } else if (build) {
        kind("build");
        x.a->Build(p == -1 ? NULL : sh[p].a);
        x.enter = now;
        if (p != -1) x.parent = x.pid = p;
        nproto[x.proto]++; nspec[x.spec]++;
        w.rec.Flush();
        std::vector<sim::Row> e = w.back.titled("AgentEntry");
        eq(e.size(), ++nent, "entry records");
        sim::Row& q = e.back();
        eq(q.i("AgentId"), x.id, "id in the entry record");
        eq(q.i("ParentId"), x.pid, "parent in the entry record");
        eq(q.i("Lifetime"), x.life, "lifetime in the entry record");
        eq(q.i("EnterTime"), now, "time in the entry record");
        eq(q.s("Kind"), x.kind, "kind in the entry record");
        eq(q.s("Prototype"), x.proto, "prototype in the entry record");
        eq(q.s("Spec"), x.spec, "spec in the entry record");
      }
    } else if (op == 6) {
      Sh& x = sh[pickid()];
      int n = r.range(-1, 20);
      trace()("lifetime of ", x.id, " ", n);
      if (x.enter != -1) throws<ValueError>([&] { x.a->lifetime(n); }, "the lifetime of a built agent");
      else { x.a->lifetime(n); x.life = n; }
    } else if (op == 7) {
      Sh x = sh[pickid()];
      bool dec = x.enter != -1;
      trace()(dec ? "decommission " : "destroy ", x.id);
      if (dec) { kind("decommission"); x.a->Decommission(); } else w.ctx->DelAgent(x.a);
      sh.erase(x.id);
      for (auto& y : sh) if (y.second.parent == x.id) y.second.parent = y.second.pid = -1;
      w.rec.Flush();
      std::vector<sim::Row> e = w.back.titled("AgentExit");
      if (dec) {
        nex++;
        nproto[x.proto]--; nspec[x.spec]--;
        eq(e.size(), nex, "exit records");
        eq(e.back().i("AgentId"), x.id, "id in the exit record");
        eq(e.back().i("ExitTime"), now, "time in the exit record");
      } else eq(e.size(), nex, "exit records");
    } else if (op == 8 && sh.size() > 1) {
      int a = pickid(), b = pickid();
      check(sh[a].a->AncestorOf(sh[b].a) == anc(a, b), "whether ", a, " is an ancestor of ", b);
      check(sh[a].a->DecendentOf(sh[b].a) == anc(b, a), "whether ", a, " is a descendant of ", b);
      check(sh[a].a->InFamilyTree(sh[b].a) == (a == b || anc(a, b) || anc(b, a)), "whether ", a, " and ", b, " are one family");
    } else {
      Sh& x = sh[pickid()];
      if (x.enter != -1) {
        int n = r.range(0, 20);
        x.a->lifetime_force(n);
        x.life = x.enter + n <= now ? now - x.enter + 1 : n;
        trace()("force lifetime of ", x.id, " ", n);
      }
    }
    for (auto& y : sh) {
      Sh& x = y.second;
      check(x.a->parent() == (x.parent == -1 ? NULL : sh[x.parent].a), "parent of ", x.id);
      eq(x.a->parent_id(), x.pid, "parent id of ", x.id);
      eq(x.a->id(), x.id, "id");
      eq(x.a->enter_time(), x.enter, "enter time of ", x.id);
      eq(x.a->lifetime(), x.life, "lifetime of ", x.id);
      eq(x.a->exit_time(), x.life == -1 ? -1 : x.enter + x.life - 1, "exit time of ", x.id);
      std::set<Agent*> kids;
      for (auto& z : sh) if (z.second.parent == x.id) kids.insert(z.second.a);
      check(x.a->children() == kids, "children of ", x.id);
    }
    for (int i = 0; i < 3; i++) eq(w.ctx->n_prototypes(names[i]), nproto[names[i]], "agents of prototype ", names[i]);
    for (int i = 0; i < 2; i++) eq(w.ctx->n_specs(specs[i]), nspec[specs[i]], "agents of spec ", specs[i]);
  }
}
static void registries(Rng& r) {
  warn_limit = 0;
  sim::World w(r.range(1, 4));
  static const char* names[] = {"a", "b", "A", "", "a b", "zz"};
  std::map<std::string, Agent*> protos;
  std::map<std::string, Composition::Ptr> recs;
  struct Pk { double lo, hi; std::string st; };
  std::map<std::string, Pk> pks;
  struct Tu { int lo, hi; std::string st; };
  std::map<std::string, Tu> tus;
  size_t np = 0, nr = 0, nk = 0, nt = 0;
  Package::unpackaged();
  TransportUnit::unrestricted();
  for (int s = r.range(3, 25); s > 0; s--) {
    std::string n = names[r.below(6)];
    switch (r.below(5)) {
      case 0: {
        bool over = r.coin(3);
        Agent* p = r.coin(2) ? static_cast<Agent*>(new F(w.ctx)) : static_cast<Agent*>(new N(w.ctx));
        p->prototype(n); p->spec(std::string(":s:") + names[r.below(3)]);
        trace()("prototype '", n, "' over ", over);
        if (protos.count(n) && !over) {
          kind("dup-proto");
          throws<KeyError>([&] { if (r.coin(2)) w.ctx->AddPrototype(n, p); else w.ctx->AddPrototype(n, p, false); }, "a prototype added again");
        } else { w.ctx->AddPrototype(n, p, over); protos[n] = p; np++; }
        break;
      }
      case 1: {
        std::map<int, double> m;
        m[922350000] = posqty(r);
        recs[n] = Composition::CreateFromMass(m);
        w.ctx->AddRecipe(n, recs[n]);
        nr++;
        trace()("recipe '", n, "'");
        break;
      }
      case 2: {
        Pk k;
        k.lo = r.coin(3) ? 0 : posqty(r); k.hi = r.coin(4) ? k.lo : k.lo + posqty(r); k.st = r.coin(2) ? "first" : "equal";
        bool badp = r.coin(5);
        double lo = badp ? k.hi + 1 : k.lo;
        trace()("package '", n, "' ", lo, " ", k.hi);
        if (pks.count(n)) { kind("dup-package"); throws<KeyError>([&] { w.ctx->AddPackage(n, lo, k.hi, k.st); }, "a package added again"); }
        else if (badp) { kind("bad-package"); throws<ValueError>([&] { w.ctx->AddPackage(n, lo, k.hi, k.st); }, "a package with a minimum above its maximum"); }
        else { w.ctx->AddPackage(n, k.lo, k.hi, k.st); pks[n] = k; nk++; }
        break;
      }
      case 3: {
        Tu k;
        k.lo = r.below(4); k.hi = k.lo + r.below(4); k.st = r.coin(2) ? "first" : "hybrid";
        bool badp = r.coin(5);
        int lo = badp ? k.hi + 1 : k.lo;
        trace()("transport unit '", n, "' ", lo, " ", k.hi);
        if (tus.count(n)) { kind("dup-unit"); throws<KeyError>([&] { w.ctx->AddTransportUnit(n, lo, k.hi, k.st); }, "a transport unit added again"); }
        else if (badp) throws<ValueError>([&] { w.ctx->AddTransportUnit(n, lo, k.hi, k.st); }, "a transport unit with a minimum above its maximum");
        else { w.ctx->AddTransportUnit(n, k.lo, k.hi, k.st); tus[n] = k; nt++; }
        break;
      }
      default: {
        if (protos.count(n)) {
          Agent* a = w.ctx->CreateAgent<Agent>(n);
          check(a != protos[n] && a->prototype() == protos[n]->prototype() && a->spec() == protos[n]->spec() && a->lifetime() == protos[n]->lifetime() && a->id() != protos[n]->id(), "the agent made from '", n, "'");
          bool fac = dynamic_cast<Facility*>(protos[n]) != NULL;
          if (fac) check(w.ctx->CreateAgent<Facility>(n) != NULL, "cast");
          else throws<CastError>([&] { w.ctx->CreateAgent<Facility>(n); }, "an agent of another type");
        } else throws<KeyError>([&] { w.ctx->CreateAgent<Agent>(n); }, "an unknown prototype");
      }
    }
    for (int i = 0; i < 6; i++) {
      std::string m = names[i];
      if (recs.count(m)) check(w.ctx->GetRecipe(m) == recs[m], "recipe '", m, "'");
      else throws<KeyError>([&] { w.ctx->GetRecipe(m); }, "an unknown recipe");
      if (pks.count(m)) {
        Package::Ptr p = w.ctx->GetPackage(m);
        check(p->name() == m && p->fill_min() == pks[m].lo && p->fill_max() == pks[m].hi && p->strategy() == pks[m].st, "package '", m, "'");
      } else throws<KeyError>([&] { w.ctx->GetPackage(m); }, "an unknown package");
      if (tus.count(m)) {
        TransportUnit::Ptr p = w.ctx->GetTransportUnit(m);
        check(p->name() == m && p->fill_min() == tus[m].lo && p->fill_max() == tus[m].hi && p->strategy() == tus[m].st, "transport unit '", m, "'");
      } else throws<KeyError>([&] { w.ctx->GetTransportUnit(m); }, "an unknown transport unit");
      if (!protos.count(m)) throws<KeyError>([&] { w.ctx->CreateAgent<Agent>(m); }, "an unknown prototype");
    }
    check(w.ctx->GetPackage(Package::unpackaged_name()) == Package::unpackaged(), "the package of what is not packaged");
    check(w.ctx->GetTransportUnit(TransportUnit::unrestricted_name()) == TransportUnit::unrestricted(), "the unrestricted transport unit");
    w.rec.Flush();
    eq(w.back.titled("Prototypes").size(), np, "prototype records");
    eq(w.back.titled("Recipes").size(), nr, "recipe records");
    eq(w.back.titled("Packages").size(), nk, "package records");
    eq(w.back.titled("TransportUnits").size(), nt, "transport unit records");
  }
  if (np) { auto x = w.back.titled("Prototypes"); check(protos.count(x.back().s("Prototype")) && protos[x.back().s("Prototype")]->id() == x.back().i("AgentId"), "the last prototype record"); }
  std::map<std::string, Pk> seen;
  for (auto& x : w.back.titled("Packages")) {
    Pk& k = pks[x.s("PackageName")];
    check(x.d("FillMin") == k.lo && x.d("FillMax") == k.hi && x.s("Strategy") == k.st, "a package record");
  }
  std::set<std::string> vers;
  for (auto& x : w.back.titled("AgentVersions")) check(vers.insert(x.s("Spec")).second, "the version of a spec recorded twice");
}
int main(int c, char** v) { return run(c, v, {{"tree", tree}, {"registries", registries}}); }
