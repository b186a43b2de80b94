// C17: keyed stores (ResMap) against a std::map model; TotalInvTracker against its buffers
#include "vh.h"
#include "sim.h"
#include "error.h"
#include "material.h"
#include "product.h"
#include "toolkit/res_map.h"
#include "toolkit/total_inv_tracker.h"
using namespace cyclus;
using namespace cyclus::toolkit;
using namespace vh;
template <class R> typename R::Ptr mk(Rng& r);
template <> Material::Ptr mk<Material>(Rng& r) { CompMap m; m[922350000] = 1; return Material::CreateUntracked(qty(r), Composition::CreateFromMass(m)); }
template <> Product::Ptr mk<Product>(Rng& r) { return Product::CreateUntracked(qty(r), "q"); }
template <class R> void take(typename R::Ptr p, double q);
template <> void take<Material>(Material::Ptr p, double q) { p->ExtractQty(q); }
template <> void take<Product>(Product::Ptr p, double q) { p->Extract(q); }
template <class K> K key(int i);
template <> int key<int>(int i) { return i * 7 - 10; }
template <> std::string key<std::string>(int i) { static const char* n[] = {"best", "a", "b", "worst", "x", "yy"}; return n[i % 6]; }

template <class K, class R> struct Store {
  typedef typename R::Ptr P;
  typedef ResMap<K, R> S;
  S s;
  std::map<K, P> m;
  std::vector<P> held;
  void same(Rng& r, bool q) {
    eq(s.size(), (int)m.size(), "size");
    eq(s.empty(), m.empty(), "empty");
    if (q) {
      long double t = 0;
      for (auto& x : m) t += x.second->quantity();
      eqd(s.quantity(), (double)t, (double)t, "quantity");
      if (r.coin(3)) eqd(s.quantity(), (double)t, (double)t, "quantity (second reading)");
    }
    const S& cs = s;
    size_t n = 0;
    for (typename S::const_iterator i = cs.cbegin(); i != cs.cend(); ++i, ++n) {
      check(m.count(i->first) == 1, "key that was never stored or was removed: ", i->first);
      check(m[i->first] == i->second, "another resource under key ", i->first);
    }
    eq(n, m.size(), "entries");
  }
  void go(Rng& r) {
    int steps = r.range(2, 25);
    bool check_q = true;
    for (int k = 0; k < steps; k++) {
      K x = key<K>(r.below(6));
      int op = r.below(14);
      trace()("op", op, " key ", x);
      switch (op) {
        case 0: case 1: case 2: { P p = mk<R>(r); trace()("q ", p->quantity()); s[x] = p; m[x] = p; held.push_back(p); break; }
        case 3: if (m.count(x)) { check(s[x] == m[x], "wrong resource under ", x); const S& cs = s; check(cs[x] == m[x], "wrong resource under ", x, " (const)"); } break;
        case 4: { size_t n = s.erase(x); eq(n, m.erase(x), "number erased"); break; }
        case 5: {
          if (m.empty()) break;
          int i = r.below(m.size());
          typename S::iterator a = s.begin();
          std::advance(a, i);
          K gone = a->first;
          s.erase(a);
          eq(m.erase(gone), 1u, "erased key");
          break;
        }
        case 6: {
          int n = m.size(), i = r.below(n + 1), j = r.range(i, n);
          typename S::iterator a = s.begin(), b = s.begin();
          std::advance(a, i); std::advance(b, j);
          auto c = m.begin(), d = m.begin();
          std::advance(c, i); std::advance(d, j);
          s.erase(a, b);
          m.erase(c, d);
          break;
        }
        case 7: if (r.coin(4)) { s.clear(); m.clear(); } break;
        case 8: {
          if (m.count(x)) { P p = s.Pop(x); check(p == m[x], "popped another resource than the one under ", x); m.erase(x); }
          else throws<KeyError>([&] { s.Pop(x); }, "pop of absent key ", x);
          break;
        }
        case 9: {
          std::vector<P> v = s.Values();
          eq(v.size(), m.size(), "Values size");
          size_t i = 0;
          for (auto& e : m) { check(v[i] == e.second, "Values entry ", i); ++i; }
          std::vector<Resource::Ptr> w = s.ResValues();
          eq(w.size(), m.size(), "ResValues size");
          i = 0;
          for (auto& e : m) { check(w[i] == e.second, "ResValues entry ", i); ++i; }
          break;
        }
        case 10: {
          std::map<K, int> o = s.obj_ids();
          eq(o.size(), m.size(), "obj_ids size");
          for (auto& e : m) check(o.count(e.first) && o[e.first] == e.second->obj_id(), "object id under ", e.first);
          break;
        }
        case 11: case 12: {   // in-place change of a resource that is (or was) stored
          if (held.empty()) break;
          P p = r.pick(held);
          double q = p->quantity() * (r.coin(3) ? 1 : r.u());
          trace()("take ", q, " of ", p->quantity());
          take<R>(p, q);
          break;
        }
        case 13: {            // save, load into another store
          std::map<K, int> ids = s.obj_ids();
          std::vector<Resource::Ptr> v = s.ResValues();
          for (int i = (int)v.size() - 1; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]);
          Store<K, R> t;
          if (r.coin()) t.s.obj_ids(ids);
          else { S other; other.obj_ids(ids); t.s.obj_ids(ids); }
          if (r.coin()) t.s.ResValues(v);
          else t.s.Values(ResCast<R>(v));
          t.m = m;
          t.same(r, true);
          std::map<K, int> again = t.s.obj_ids();
          check(again == ids, "object ids after loading");
          break;
        }
      }
      same(r, r.coin());
      kind(str("map ", op, m.size() > 2));
    }
    same(r, true);
  }
};
static void maps(Rng& r) {
  switch (r.below(4)) {
    case 0: { Store<int, Material> s; s.go(r); break; }
    case 1: { Store<std::string, Material> s; s.go(r); break; }
    case 2: { Store<int, Product> s; s.go(r); break; }
    default: { Store<std::string, Product> s; s.go(r); }
  }
}
static void tracker(Rng& r) {
  int n = r.range(1, 4);
  std::vector<ResBuf<Material> > b(n);
  std::vector<ResBuf<Material>*> ptr;
  double caps = 0;
  std::vector<double> cap(n);
  for (int i = 0; i < n; i++) {
    bool big = r.coin(4);
    cap[i] = big ? b[i].capacity() : posqty(r);
    if (!big) b[i].capacity(cap[i]);
    ptr.push_back(&b[i]);
    caps += cap[i];
    trace()("buffer capacity ", cap[i]);
  }
  ResBuf<Material> other;
  double lim = std::numeric_limits<double>::max();
  TotalInvTracker t;
  throws<ValueError>([&] { TotalInvTracker u; u.num_bufs(); }, "uninitialised tracker");
  throws<ValueError>([&] { TotalInvTracker u; u.Init(std::vector<ResBuf<Material>*>(), 5); }, "no buffers");
  double badlim = r.coin() ? 0 : -posqty(r);
  throws<ValueError>([&] { TotalInvTracker u; u.Init(ptr, badlim); }, "limit ", badlim);
  if (r.coin()) { lim = posqty(r); t.Init(ptr, lim); } else t.Init(ptr);
  trace()("limit ", lim);
  int steps = r.range(2, 20);
  for (int k = 0; k < steps; k++) {
    int i = r.below(n);
    int op = r.below(5);
    double tot = 0;
    for (auto& x : b) { long double s = 0; for (auto& m : x.PopN(0)) s += m->quantity(); tot += x.quantity(); }
    trace()("op", op, " buffer ", i);
    if (op <= 1) {
      double q = r.u() * b[i].space();
      if (q > 1e6) q = qty(r);
      if (q <= b[i].space()) b[i].Push(Material::CreateUntracked(q, NewBlankMaterial(0)->comp()));
    } else if (op == 2) {
      if (b[i].quantity() > 0) b[i].Pop(b[i].quantity() * r.u());
    } else if (op == 3) {
      double c = r.coin(3) ? tot : r.coin() ? posqty(r) : tot * r.u();
      trace()("set limit ", c, " holding ", tot);
      if (tot - c > eps_rsrc() * 1.01) throws<ValueError>([&] { t.set_capacity(c); }, "limit ", c, " below ", tot);
      else if (tot - c < eps_rsrc() * 0.99) { t.set_capacity(c); lim = c; }
    }
    tot = 0;
    for (auto& x : b) tot += x.quantity();
    double c = std::min(caps, lim), sp = std::max(0.0, c - tot);
    eqd(t.quantity(), tot, 0, "tracker quantity");
    eqd(t.total_capacity_bufs(), caps, 0, "sum of capacities");
    eqd(t.tracker_capacity(), lim, 0, "own limit");
    eqd(t.capacity(), c, 0, "tracker capacity");
    eqd(t.space(), sp, c, "tracker space");
    check(t.space() >= 0, "negative space");
    eq(t.empty(), tot == 0, "empty");
    eq(t.num_bufs(), n, "buffers");
    eqd(t.constrained_buf_space(ptr[i]), std::min(b[i].space(), sp), std::min(c, cap[i]), "constrained space");
    check(t.buf_in_tracker(ptr[i]), "buffer not found");
    check(!t.buf_in_tracker(&other), "foreign buffer found");
    kind(str("tracker ", op, caps < lim, tot > c));
  }
}
int main(int c, char** v) { return run(c, v, {{"maps", maps}, {"tracker", tracker}}); }
