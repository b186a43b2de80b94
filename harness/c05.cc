// C05: ResBuf against a model list of (object, quantity)
#include "sim.h"
#include "toolkit/res_buf.h"
#include "toolkit/res_manip.h"
#include "cyc_limits.h"
using namespace sim;
using namespace vh;
using toolkit::ResBuf;
static Composition::Ptr comp(int k) {
  static std::vector<Composition::Ptr> c;
  if (c.empty()) {
    CompMap v;
    v[922350000] = 1; v[922380000] = 9; c.push_back(Composition::CreateFromMass(v));
    v.clear(); v[80160000] = 2; v[10010000] = 1; c.push_back(Composition::CreateFromMass(v));
  }
  return c[k % 2];
}
template <class T> struct Mk;
template <> struct Mk<Material> { static Material::Ptr make(World& w, Agent* a, double q, bool tr, int k) { return tr ? Material::Create(a, q, comp(k)) : Material::CreateUntracked(q, comp(k)); } static Resource::Ptr wrong() { return Product::CreateUntracked(1, "x"); } };
template <> struct Mk<Product> { static Product::Ptr make(World& w, Agent* a, double q, bool tr, int k) { return tr ? Product::Create(a, q, "bolts") : Product::CreateUntracked(q, "bolts"); } static Resource::Ptr wrong() { return Material::CreateUntracked(1, comp(0)); } };
template <> struct Mk<Resource> { static Resource::Ptr make(World& w, Agent* a, double q, bool tr, int k) { if (k % 2) return Mk<Material>::make(w, a, q, tr, k); return Mk<Product>::make(w, a, q, tr, k); } static Resource::Ptr wrong() { return Resource::Ptr(); } };

template <class T> struct Model {
  typedef typename T::Ptr P;
  Rng& r;
  World w;
  Fac* fac;
  ResBuf<T>* b;
  bool bulk, keep;
  double cap;
  struct E { P p; double q; };
  std::vector<E> m;             // expected contents, oldest first
  std::vector<P> out;           // objects outside the buffer
  Model(Rng& r_) : r(r_) {
    fac = new Fac(w.ctx);
    w.ctx->AddPackage("can", 0.25, 4, "first");
    bulk = !boost::is_same<T, Resource>::value && r.coin(4);
    keep = !bulk && r.coin(3);
    b = new ResBuf<T>(bulk, keep);
    cap = INFINITY;
    trace()("buffer", bulk ? " bulk" : "", keep ? " keeps packaging" : "");
    check(b->capacity() == INFINITY && b->count() == 0 && b->quantity() == 0 && b->empty(), "a new buffer is not empty and unlimited");
  }
  ~Model() { m.clear(); out.clear(); delete b; }
  double total() { double t = 0; for (auto& e : m) t += e.q; return t; }
  void invariant(const char* op) {
    eq(b->count(), (int)m.size(), op, ": count");
    eq(b->empty(), m.empty(), op, ": empty");
    eq(b->quantity(), total(), op, ": quantity");
    eq(b->space(), std::max(0.0, cap - total()), op, ": space");
    eq(b->capacity(), cap, op, ": capacity");
    for (auto& e : m) check(e.p->quantity() == e.q, op, ": a held resource has ", e.p->quantity(), " instead of ", e.q);
    if (!m.empty()) check(b->Peek() == m[0].p, op, ": peek is not the oldest resource");
    else throws<ValueError>([&] { b->Peek(); }, "peek at an empty buffer");
    if (r.coin(6)) {  // a copy holds the same objects in the same order: drain it
      ResBuf<T> c(*b);
      for (auto& e : m) { P p = c.Pop(); check(p == e.p, op, ": contents out of order"); }
      eq(c.count(), 0, op, ": contents");
    }
  }
  double dy() { return r.coin(12) ? 0 : 0.25 * r.range(1, 24); }
  P fresh() {
    P p = Mk<T>::make(w, fac, dy(), !r.coin(3), r.below(4));
    if (r.coin(4)) { Resource::Ptr x = p; if (p->quantity() > 0.5) { x = p->PackageExtract(0.5, "can"); p = boost::dynamic_pointer_cast<T>(x); } }
    return p;
  }
  P any() { if (!out.empty() && r.coin(3)) { int k = r.below(out.size()); P p = out[k]; out.erase(out.begin() + k); return p; } return fresh(); }
  bool held(P p) { for (auto& e : m) if (e.p == p) return true; return false; }
  bool tracked_pkg(P p) { return true; }
  void added(P p, double q, std::string pkg, bool hasctx) {
    if (!bulk || m.empty()) {
      m.push_back({p, q});
      if (!bulk) check(p->quantity() == q, "push changed the quantity");
      if (keep) eq(p->package_name(), pkg, "package of a pushed resource");
      else if (hasctx) eq(p->package_name(), std::string(Package::unpackaged_name()), "package of a pushed resource");
    } else {
      m[0].q += q;
      check(p->quantity() == 0, "merged resource still holds ", p->quantity());
    }
  }
  static bool hasctx(P p) { return true; }
  void push1() {
    int how = r.below(10);
    if (how == 0 && !m.empty()) {
      int k = r.below(m.size());
      trace()("push duplicate");
      throws<Error>([&] { b->Push(m[k].p); }, "push of a resource already held");
      invariant("refused push");
      kind("dup");
      return;
    }
    if (how == 1) {
      Resource::Ptr x = Mk<T>::wrong();
      if (!x) return;
      trace()("push wrong type");
      throws<CastError>([&] { b->Push(x); }, "push of the wrong type");
      invariant("refused push");
      kind("wrongtype");
      return;
    }
    P p = any();
    double q = p->quantity();
    std::string pkg = p->package_name();
    bool over = q > cap - total();
    bool tr = istracked(p);
    trace()("push ", q, over ? " (too much)" : "");
    if (over) {
      throws<ValueError>([&] { b->Push(p); }, "push beyond capacity");
      check(p->quantity() == q && p->package_name() == pkg, "refused push changed the resource");
      invariant("refused push");
      kind("over");
      return;
    }
    b->Push(p);
    added(p, q, pkg, tr);
    invariant("push");
    kind(str("push", bulk, keep, q == 0));
  }
  // packages of resources without context cannot be changed
  std::map<int, bool> tr_;
  bool istracked(P p) {
    Material::Ptr a = boost::dynamic_pointer_cast<Material>(Resource::Ptr(p));
    // a tracked resource was recorded under its object id
    w.mark();
    for (auto& x : w.back.titled("Resources")) if (x.i("ObjId") == p->obj_id()) return true;
    return false;
  }
  void pushv() {
    int n = r.below(4);
    std::vector<P> v;
    std::vector<std::string> pk;
    std::vector<double> qs;
    std::vector<bool> trs;
    double t = 0;
    for (int i = 0; i < n; i++) { v.push_back(any()); pk.push_back(v[i]->package_name()); qs.push_back(v[i]->quantity()); trs.push_back(istracked(v[i])); t += qs[i]; }
    bool dup = false, over = false, wrong = false;
    int how = r.below(8);
    std::vector<Resource::Ptr> rv;
    if (how == 0 && !m.empty()) { v.insert(v.begin() + r.below(v.size() + 1), r.pick(m).p); dup = true; }
    else if (how == 1 && n > 0) { v.push_back(v[r.below(n)]); dup = true; }
    double tt = 0;
    for (auto& p : v) tt += p->quantity();
    over = tt > cap - total();
    for (auto& p : v) rv.push_back(p);
    if (how == 2) { Resource::Ptr x = Mk<T>::wrong(); if (x) { rv.insert(rv.begin() + r.below(rv.size() + 1), x); wrong = true; } }
    trace()("push vector of ", rv.size(), " total ", tt, dup ? " dup" : "", over ? " over" : "", wrong ? " wrong" : "");
    bool threw = false;
    try {
      if (wrong || r.coin()) b->Push(rv);
      else b->Push(v);
    } catch (CastError&) { threw = true; check(wrong, "push refused as wrong type"); }
    catch (ValueError&) { threw = true; check(over, "push refused as over capacity"); }
    catch (KeyError&) { threw = true; check(dup, "push refused as duplicate"); }
    eq(threw, dup || over || wrong, "refusal of a vector push");
    if (threw) {
      for (int i = 0; i < n; i++) check(v[i]->quantity() >= 0, "x");
      for (int i = 0, j = 0; i < n; i++) (void)j;
      invariant("refused push");
      std::set<P> s(v.begin(), v.end());
      for (auto& p : s) if (!held(p)) out.push_back(p);
      kind(str("pushv refused ", dup, over, wrong));
      return;
    }
    for (int i = 0; i < n; i++) added(v[i], qs[i], pk[i], trs[i]);
    invariant("push vector");
    kind(str("pushv", n, bulk));
  }
  void pop1() {
    bool back = r.coin();
    if (m.empty()) {
      trace()("pop from empty");
      if (back) throws<ValueError>([&] { b->PopBack(); }, "pop-back of an empty buffer");
      else throws<ValueError>([&] { b->Pop(); }, "pop of an empty buffer");
      invariant("refused pop");
      return;
    }
    trace()(back ? "pop back" : "pop");
    P p = back ? b->PopBack() : b->Pop();
    int k = back ? m.size() - 1 : 0;
    check(p == m[k].p, back ? "pop-back did not return the newest" : "pop did not return the oldest");
    check(p->quantity() == m[k].q, "popped resource changed");
    m.erase(m.begin() + k);
    out.push_back(p);
    invariant("pop");
    kind(str("pop", back));
  }
  void popn() {
    int n = r.range(-1, m.size() + 1);
    trace()("popn ", n);
    if (n < 0 || n > (int)m.size()) {
      if (r.coin()) throws<ValueError>([&] { b->PopN(n); }, "popn ", n);
      else throws<ValueError>([&] { b->PopNRes(n); }, "popnres ", n);
      invariant("refused popn");
      kind("popn refused");
      return;
    }
    std::vector<P> v;
    if (r.coin()) v = b->PopN(n);
    else for (auto& x : b->PopNRes(n)) v.push_back(boost::dynamic_pointer_cast<T>(x));
    eq((int)v.size(), n, "number popped");
    for (int i = 0; i < n; i++) { check(v[i] == m[i].p && v[i]->quantity() == m[i].q, "popn returned the wrong resource at ", i); out.push_back(v[i]); }
    m.erase(m.begin(), m.begin() + n);
    invariant("popn");
    kind(str("popn", n > 1));
  }
  void popq() {
    double t = total(), q;
    int how = r.below(6);
    if (how == 0) q = t;
    else if (how == 1) q = t + 0.25;
    else if (how == 2) q = 0;
    else q = 0.25 * r.below((int)(t * 4) + 1);
    int way = r.below(3);
    trace()("pop quantity ", q, " of ", t, " way ", way);
    if (q > t) {
      if (way == 0) throws<ValueError>([&] { b->PopVector(q); }, "pop of too much");
      else if (way == 1) throws<ValueError>([&] { b->Pop(q); }, "pop of too much");
      else throws<ValueError>([&] { b->Pop(q, 0.1); }, "pop of too much");
      invariant("refused pop");
      kind("popq refused");
      return;
    }
    if (q == 0 && way != 0) return;
    std::vector<E> want;   // p null: a new piece
    std::vector<E> rest;
    double left = q;
    for (auto& e : m) {
      if (left > 0) {
        if (e.q > left) { want.push_back({P(), left}); rest.push_back({e.p, e.q - left}); left = 0; }
        else { want.push_back(e); left -= e.q; }
      } else rest.push_back(e);
    }
    if (way == 0) {
      std::vector<P> v = b->PopVector(q);
      eq(v.size(), want.size(), "number of resources popped");
      for (size_t i = 0; i < v.size(); i++) {
        eq(v[i]->quantity(), want[i].q, "popped quantity");
        if (want[i].p) check(v[i] == want[i].p, "popped out of order at ", i);
        else for (auto& e : m) check(v[i] != e.p, "popped resource is still held");
        out.push_back(v[i]);
      }
      m = rest;
      invariant("popvector");
      kind(str("popvector ", v.size() > 1, want.empty() ? 2 : want.back().p ? 1 : 0));
      return;
    }
    if (boost::is_same<T, Resource>::value) {  // mixed types cannot be squashed: one type only
      std::set<std::string> ty;
      for (auto& e : m) ty.insert(Resource::Ptr(e.p)->type());
      if (ty.size() > 1) return;
    }
    if (way == 2 && q == t) { want = m; rest.clear(); }
    P p = way == 1 ? b->Pop(q) : b->Pop(q, 0.1);
    eq(p->quantity(), q, "popped quantity");
    if (want[0].p) check(p == want[0].p, "merged pop is not based on the oldest");
    for (size_t i = 1; i < want.size(); i++) if (want[i].p) check(want[i].p->quantity() == 0, "merged resource still holds something");
    m = rest;
    for (auto& e : m) check(e.p != p, "popped resource is still held");
    out.push_back(p);
    invariant("pop quantity");
    kind(str("popq ", way, want.size() > 1));
  }
  void setcap() {
    double t = total();
    int how = r.below(5);
    double c = how == 0 ? -1 : how == 1 ? t : how == 2 ? t - 0.25 : how == 3 ? INFINITY : t + 0.25 * r.below(40);
    trace()("capacity ", c, " holding ", t);
    if (c < 0 || c < t) {
      throws<ValueError>([&] { b->capacity(c); }, "capacity ", c);
      kind("capacity refused");
    } else { b->capacity(c); cap = c; kind("capacity"); }
    invariant("capacity");
  }
  void run() {
    int n = r.range(3, 25);
    for (int i = 0; i < n; i++) switch (r.below(9)) {
      case 0: case 1: push1(); break;
      case 2: pushv(); break;
      case 3: pop1(); break;
      case 4: popn(); break;
      case 5: case 6: popq(); break;
      case 7: setcap(); break;
      case 8:
        if (bulk) throws<ValueError>([&] { b->keep_packaging(true); }, "bulk buffer keeping packaging");
        else { keep = r.coin(); b->keep_packaging(keep); eq(b->keep_packaging(), keep, "keep_packaging"); }
        break;
    }
  }
};
static void material(Rng& r) { Model<Material> m(r); m.run(); }
static void product(Rng& r) { Model<Product> m(r); m.run(); }
static void resource(Rng& r) { Model<Resource> m(r); m.run(); }
// arbitrary doubles: totals within tolerance, near-capacity pushes
static void totals(Rng& r) {
  ResBuf<Material> b(r.coin(3), false);
  std::vector<Material::Ptr> in;
  double cap = r.coin(3) ? INFINITY : posqty(r) * 10, tot = 0, mag = 1;
  b.capacity(cap);
  int n = r.range(2, 40);
  for (int i = 0; i < n; i++) {
    if (r.below(3)) {
      double q = r.u() * std::pow(10.0, r.range(-2, 3));
      if (r.coin(4) && cap < 1e200 && tot < cap) q = cap - tot + (r.coin() ? 1e-7 : 1e-3);
      Material::Ptr m = Material::CreateUntracked(q, comp(0));
      trace()("push ", q, " space ", b.space());
      double over = q - std::max(0.0, cap - tot);
      if (std::fabs(over - 1e-6) < 1e-8) continue;
      try { b.Push(m); check(over < 1e-6 + 1e-9 * mag, "push of ", q, " into space ", cap - tot, " accepted"); tot += q; mag = std::max(mag, tot); }
      catch (ValueError&) { check(over > 1e-6 - 1e-9 * mag, "push of ", q, " into space ", cap - tot, " refused"); }
    } else if (b.quantity() > 0) {
      double q = b.quantity() * (r.coin(3) ? 1 : r.u());
      trace()("pop ", q);
      if (q <= 0) continue;
      double got = 0;
      int c0 = b.count();
      std::vector<Material::Ptr> v = b.PopVector(q);
      for (auto& x : v) got += x->quantity();
      eqd(got, q, mag, "popped total");
      check(b.count() <= c0, "count grew");
      tot -= q;
    }
    eqd(b.quantity(), tot, mag, "quantity");
    if (cap < 1e200) eqd(b.space(), std::max(0.0, cap - tot), mag, "space");
    double held = 0;
    ResBuf<Material> c(b);
    for (auto& x : c.PopN(c.count())) held += x->quantity();
    eqd(b.quantity(), held, mag, "quantity against contents");
  }
  kind(str("totals ", cap > 1e200));
}
static void squash(Rng& r) {
  World w;
  Fac* f = new Fac(w.ctx);
  int n = r.range(0, 5);
  bool m = r.coin();
  std::vector<Resource::Ptr> v;
  double t = 0;
  for (int i = 0; i < n; i++) { double q = 0.25 * r.below(30); t += q; v.push_back(m ? Resource::Ptr(Material::Create(f, q, comp(r.below(2)))) : Resource::Ptr(Product::Create(f, q, "bolts"))); }
  trace()("squash ", n, m ? " materials" : " products");
  if (n == 0) { throws<Error>([&] { toolkit::Squash(v); }, "squash of nothing"); return; }
  Resource::Ptr p = toolkit::Squash(v);
  eq(p->quantity(), t, "squashed quantity");
  check(p == v[0], "squash did not return the first");
  for (int i = 1; i < n; i++) eq(v[i]->quantity(), 0.0, "squashed resource");
  eq(p->package_name(), std::string(Package::unpackaged_name()), "package");
  kind(str("squash ", n > 1, m));
}
int main(int c, char** v) { return run(c, v, {{"material", material}, {"product", product}, {"resource", resource}, {"totals", totals}, {"squash", squash}}); }
