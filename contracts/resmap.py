"""Contracts on toolkit::ResMap and toolkit::TotalInvTracker (C17).

The quantity of a stored resource is read through the contract proved for C01
(resbuf.slim), that of a buffer through the contracts proved for C05."""
import z3
from engine import *
from lib import *
import resbuf
from resbuf import KINDS, SEQ

SRCS = ["drivers/resmap.cc"]
MAP = MapSort(I, I)
RS = "cyclus::Resource::"
J, K = z3.Int("j!rm"), z3.Int("k!rm")
OBJ = ghost("ghost::obj_id", I)


def dom(m, k): return z3.Select(MAP.dom(m), k)
def val(m, k): return z3.Select(MAP.val(m), k)


def same_map(a, b): return z3.ForAll([K], z3.And(dom(a, K) == dom(b, K), z3.Implies(dom(a, K), val(a, K) == val(b, K))))


class Store:
    def __init__(self, c, view, s, m, kind):
        self.c, self.v = c, view
        self.m = view.f(m + "resources_", s)
        self.ids = view.f(m + "obj_ids_", s)
        self.D, self.V = view.v.named(c, MAP.dom(self.m)), view.v.named(c, MAP.val(self.m))
        self.n = MAP.size(self.m)
        self.Q = view.v.named(c, view.arr(kind.q))
        self.qty = view.f(m + "quantity_", s)
        self.kind = kind

    def key(self, i): return self.v.v.enum_fn(self.D)[0](self.D, i)
    def at(self, i): return z3.Select(self.V, self.key(i))
    def total(self, hi=None): return self.c.sum(lambda j: z3.Select(self.Q, self.at(j)), z3.IntVal(0), self.n if hi is None else hi)

    def inv(self):
        return [("held", z3.ForAll([K], z3.Implies(z3.Select(self.D, K), z3.And(z3.Select(self.V, K) > 0, z3.Select(self.V, K) <= self.v.alloc,
                                                  resbuf.isT(self.v, z3.Select(self.V, K), self.kind))), patterns=[z3.Select(self.V, K)])),
                ("size", self.n >= 0)]


def store(cls, kind):
    m = "cyclus::toolkit::ResMap<%s>::" % cls
    out = []
    add = lambda n, *a, **kw: out.append(Contract(m + n, *a, **{"prop": ["C17"], "exact": True, **kw}))
    O = lambda c: Store(c, c.old, c.this, m, kind)
    N = lambda c: Store(c, c.new, c.this, m, kind)
    F = lambda c, *fs: [c.field(m + f, [c.this]) for f in fs]
    inv = lambda c: O(c).inv()
    qm = ("quantity_", "dirty_quantity_")
    kept = lambda c: ("C17:entries-kept", N(c).m == O(c).m)

    def upd(L):
        o = Store(L, L.c.old, L.c.this, m, kind)
        i, it = L.acc(I, "i"), L.it
        q = L.acc(SeqSort(R), "qtys")
        s = q.sort()
        A = L.v.named(L, s.arr(q))
        return [("range", z3.And(0 <= i, i <= o.n)), ("step", it.idx == i), ("len", z3.And(s.lo(q) == 0, s.hi(q) == o.n)),
                ("read", z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < i), z3.Select(A, J) == z3.Select(o.Q, o.at(J))), patterns=[z3.Select(A, J)]))]
    add("UpdateQuantity", 0, requires=inv, modifies=lambda c: F(c, *qm), loops={0: upd}, ensures=lambda c: [("C17:total", N(c).qty == O(c).total())])
    add("quantity", 0, requires=inv, modifies=lambda c: F(c, *qm), ensures=lambda c: [("C17:total", c.ret == O(c).total()), kept(c)])
    add("size", 0, ensures=lambda c: [("C17:size", c.ret == O(c).n)])
    add("empty", 0, ensures=lambda c: [("C17:empty", c.ret == (O(c).n == 0))])

    def others(c, gone, keep=lambda k: z3.BoolVal(False)):
        """entries at keys other than those in gone are as before; none at gone"""
        o, n = O(c), N(c)
        return z3.ForAll([K], z3.And(z3.Select(n.D, K) == z3.And(z3.Select(o.D, K), z3.Not(gone(K))),
                                     z3.Implies(z3.Select(n.D, K), z3.Select(n.V, K) == z3.Select(o.V, K))))
    add("erase", 1, sig="(const int &)" if cls.startswith("int") else "(const std::basic_string<char, std::char_traits<char>, std::allocator<char>> &)", requires=inv, modifies=lambda c: F(c, "resources_", *qm),
        ensures=lambda c: [("C17:only-that-key", others(c, lambda k: k == c.arg(0))), ("C17:count", c.ret == z3.If(z3.Select(O(c).D, c.arg(0)), 1, 0)),
                           ("C17:size", N(c).n == O(c).n - c.ret)])
    add("Pop", 1, requires=inv, modifies=lambda c: F(c, "resources_", "dirty_quantity_"),
        throws=lambda c: [Throws("cyclus::KeyError", z3.Not(z3.Select(O(c).D, c.arg(0))), label="absent-key")],
        ensures=lambda c: [("C17:the-one-stored", c.ret == z3.Select(O(c).V, c.arg(0))), ("C17:only-that-key", others(c, lambda k: k == c.arg(0))),
                           ("C17:size", N(c).n == O(c).n - 1)])
    add("clear", 0, modifies=lambda c: F(c, "resources_", "obj_ids_", "dirty_quantity_"),
        ensures=lambda c: [("C17:nothing-left", z3.And(N(c).n == 0, MAP.size(N(c).ids) == 0, z3.ForAll([K], z3.And(z3.Not(dom(N(c).m, K)), z3.Not(dom(N(c).ids, K))))))])
    for con in ("", ):
        add("operator[]", 1, modifies=lambda c: F(c, "resources_", "dirty_quantity_"), ensures=lambda c: [
            ("C17:entry-there", dom(N(c).m, c.arg(0))),
            ("C17:others-kept", z3.ForAll([K], z3.Implies(z3.Or(K != c.arg(0), dom(O(c).m, K)), z3.And(dom(N(c).m, K) == dom(O(c).m, K), val(N(c).m, K) == val(O(c).m, K)))))])

    # ---- saving and loading
    def vals_inv(L):
        o = Store(L, L.c.old, L.c.this, m, kind)
        i, it = L.acc(I, "i"), L.it
        q = L.acc(SEQ, "vals")
        A = L.v.named(L, SEQ.arr(q))
        return [("range", z3.And(0 <= i, i <= o.n)), ("step", it.idx == i), ("len", z3.And(SEQ.lo(q) == 0, SEQ.hi(q) == o.n)),
                ("read", z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < i), z3.Select(A, J) == o.at(J)), patterns=[z3.Select(A, J)]))]

    def vals_ens(c):
        o = O(c)
        A = c.v.named(c, SEQ.arr(c.ret))
        return [("C17:count", SEQ.hi(c.ret) - SEQ.lo(c.ret) == o.n),
                ("C17:key-order", z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < o.n), z3.Select(A, J + SEQ.lo(c.ret)) == o.at(J)), patterns=[o.key(J)]))]
    add("Values", 0, requires=inv, loops={0: vals_inv}, ensures=vals_ens)
    ID = lambda view, r: view.f(OBJ, r)

    def ids_inv(L):
        o, s = Store(L, L.c.old, L.c.this, m, kind), Store(L, L.S, L.c.this, m, kind)
        it = L.it
        i = it.idx
        idx = L.v.enum_fn(o.D)[1]
        return [("range", z3.And(0 <= i, i <= o.n)), ("so-far", z3.ForAll([K], z3.And(dom(s.ids, K) == z3.And(z3.Select(o.D, K), idx(o.D, K) < i),
                z3.Implies(dom(s.ids, K), val(s.ids, K) == ID(L.c.old, z3.Select(o.V, K))))))]
    add("obj_ids", 0, requires=inv, modifies=lambda c: F(c, "obj_ids_"), loops={0: ids_inv}, ensures=lambda c: [("C17:ids-of-all", z3.ForAll([K], z3.And(
        dom(N(c).ids, K) == dom(O(c).m, K), z3.Implies(dom(O(c).m, K), val(N(c).ids, K) == ID(c.old, val(O(c).m, K)))))), kept(c)])
    add("obj_ids", 1, modifies=lambda c: F(c, "obj_ids_", "dirty_quantity_"), ensures=lambda c: [("C17:ids-set", N(c).ids == c.arg(0)), kept(c)])

    class Vals:
        def __init__(self, c, x):
            self.A, self.lo, self.hi = c.v.named(c, SEQ.arr(x)), SEQ.lo(x), SEQ.hi(x)

        def at(self, i): return z3.Select(self.A, i)
        def rng(self, i): return z3.And(self.lo <= i, i < self.hi)

    def load_req(c):
        o, x = O(c), Vals(c, c.arg(0))
        I_ = c.v.named(c, MAP.val(o.ids))
        return inv(c) + [("vector", z3.And(x.lo <= x.hi, z3.ForAll([J], z3.Implies(x.rng(J), z3.And(x.at(J) > 0, x.at(J) <= c.old.alloc)), patterns=[x.at(J)]))),
            ("ids-distinct", z3.ForAll([J, K], z3.Implies(z3.And(dom(o.ids, J), dom(o.ids, K), J != K), z3.Select(I_, J) != z3.Select(I_, K)), patterns=[z3.MultiPattern(z3.Select(I_, J), z3.Select(I_, K))])),
            ("ids-known", z3.ForAll([J], z3.Implies(x.rng(J), z3.Exists([K], z3.And(dom(o.ids, K), z3.Select(I_, K) == ID(c.old, x.at(J))))), patterns=[x.at(J)])),
            ("values-distinct", z3.ForAll([J, K], z3.Implies(z3.And(x.rng(J), x.rng(K), J != K), ID(c.old, x.at(J)) != ID(c.old, x.at(K))), patterns=[z3.MultiPattern(x.at(J), x.at(K))]))]

    def load_ens(c):
        o, n, x = O(c), N(c), Vals(c, c.arg(0))
        return [("C17:restored-under-its-key", z3.ForAll([J, K], z3.Implies(z3.And(x.rng(J), dom(o.ids, K), val(o.ids, K) == ID(c.old, x.at(J))),
                    z3.And(z3.Select(n.D, K), z3.Select(n.V, K) == x.at(J))), patterns=[z3.MultiPattern(x.at(J), val(o.ids, K))])), ("C17:ids-kept", n.ids == o.ids)]

    def load0(L):
        o = Store(L, L.c.old, L.c.this, m, kind)
        it = L.it
        i = it.idx
        lk = L.acc(MAP, "lookup")
        D = L.v.named(L, MAP.dom(o.ids))
        idx = L.v.enum_fn(it.D)[1]
        return [("range", z3.And(0 <= i, i <= MAP.size(o.ids))), ("same", it.D == D if not z3.eq(it.D, D) else z3.BoolVal(True)),
                ("inverse", z3.ForAll([K], z3.Implies(z3.And(dom(o.ids, K), idx(it.D, K) < i), z3.And(dom(lk, val(o.ids, K)), val(lk, val(o.ids, K)) == K)),
                                      patterns=[val(o.ids, K)]))]

    def load1(L):
        o, s, x = Store(L, L.c.old, L.c.this, m, kind), Store(L, L.S, L.c.this, m, kind), Vals(L, L.c.arg(0))
        i = L.pos("i")
        lk = L.acc(MAP, "lookup")
        return [("range", z3.And(0 <= i, i <= x.hi - x.lo)), ("ids", s.ids == o.ids),
                ("inverse", z3.ForAll([K], z3.Implies(dom(o.ids, K), z3.And(dom(lk, val(o.ids, K)), val(lk, val(o.ids, K)) == K)), patterns=[val(o.ids, K)])),
                ("restored", z3.ForAll([J, K], z3.Implies(z3.And(x.lo <= J, J < x.lo + i, dom(o.ids, K), val(o.ids, K) == ID(L.c.old, x.at(J))),
                    z3.And(z3.Select(s.D, K), z3.Select(s.V, K) == x.at(J))), patterns=[z3.MultiPattern(x.at(J), val(o.ids, K))]))]
    add("Values", 1, requires=load_req, modifies=lambda c: F(c, "resources_", "dirty_quantity_"), ensures=load_ens, loops={0: load0, 1: load1})
    return out


# ------------------------------------------------------------- tracker --
T = "cyclus::toolkit::TotalInvTracker::"
MK = KINDS[0]


class Trk:
    def __init__(self, c, view, t):
        self.c, self.v = c, view
        b = view.f(T + "bufs_", t)
        self.bufs = b
        self.lo, self.hi, self.A = SEQ.lo(b), SEQ.hi(b), view.v.named(c, SEQ.arr(b))
        self.n = self.hi - self.lo
        self.lim = view.f(T + "max_inv_size_", t)
        self.qty = view.f(T + "qty_", t)

    def at(self, i): return z3.Select(self.A, i)
    def sum(self, f, hi=None):
        arr = self.v.v.named(self.c, self.v.arr(MK.b(f)))
        return self.c.sum(lambda j: z3.Select(arr, self.at(j)), self.lo, self.hi if hi is None else self.lo + hi)

    def inv(self):
        return [("order", self.lo <= self.hi), ("buffers", z3.ForAll([J], z3.Implies(z3.And(self.lo <= J, J < self.hi), z3.And(self.at(J) > 0, self.at(J) <= self.v.alloc)), patterns=[self.at(J)]))]

    def cap(self):
        s = self.sum("cap_")
        return z3.If(s <= self.lim, s, self.lim)

    def space(self):
        x = self.cap() - self.sum("qty_")
        return z3.If(x > 0, x, z3.RealVal(0))


def tracker():
    out = []
    add = lambda n, *a, **kw: out.append(Contract(T + n, *a, **{"prop": ["C17"], "exact": True, **kw}))
    O = lambda c: Trk(c, c.old, c.this)
    N = lambda c: Trk(c, c.new, c.this)
    inv = lambda c: O(c).inv()
    F = lambda c, *fs: [c.field(T + f, [c.this]) for f in fs]
    none = lambda c: [Throws("cyclus::ValueError", O(c).n == 0, label="not-initialised")]
    sumloop = lambda f, name, old=False: lambda L: [("range", z3.And(0 <= L.pos("i"), L.pos("i") <= Trk(L, L.c.old, L.c.this).n)),
        ("partial", (L.S.f(T + "qty_", L.c.this) if name is None else L.acc(R, name)) == Trk(L, L.c.old, L.c.this).sum(f, L.pos("i")))]
    add("num_bufs", 0, requires=inv, throws=none, ensures=lambda c: [("C17:count", c.ret == O(c).n)])
    add("quantity", 0, requires=inv, throws=none, modifies=lambda c: F(c, "qty_"), loops={0: sumloop("qty_", None)},
        ensures=lambda c: [("C17:sum-of-quantities", c.ret == O(c).sum("qty_"))])
    add("total_capacity_bufs", 0, requires=inv, throws=none, loops={0: sumloop("cap_", "cap")}, ensures=lambda c: [("C17:sum-of-capacities", c.ret == O(c).sum("cap_"))])
    add("tracker_capacity", 0, ensures=lambda c: [("C17:own-limit", c.ret == O(c).lim)])
    add("capacity", 0, requires=inv, throws=none, ensures=lambda c: [("C17:smaller-of-both", c.ret == O(c).cap())])
    add("space", 0, requires=inv, throws=none, modifies=lambda c: F(c, "qty_"), ensures=lambda c: [("C17:space", c.ret == O(c).space()), ("C17:not-negative", c.ret >= 0)])
    add("empty", 0, requires=inv, throws=none, modifies=lambda c: F(c, "qty_"), ensures=lambda c: [("C17:empty", c.ret == (O(c).sum("qty_") == 0))])

    def bspace(c):
        b = resbuf.Buf(c, c.old, c.arg(0), MK)
        return z3.If(b.space <= O(c).space(), b.space, O(c).space())
    add("constrained_buf_space", 1, requires=lambda c: inv(c) + [("buffer", c.arg(0) > 0)], throws=none, modifies=lambda c: F(c, "qty_"),
        ensures=lambda c: [("C17:smaller-space", c.ret == bspace(c))])
    low = lambda c: O(c).sum("qty_") - c.arg(0) > EPS(c.old)
    add("set_capacity", 1, requires=inv, modifies=lambda c: F(c, "qty_", "max_inv_size_"),
        throws=lambda c: none(c) + [Throws("cyclus::ValueError", z3.And(O(c).n != 0, low(c)), label="below-contents", modifies=lambda c: F(c, "qty_"))],
        ensures=lambda c: [("C17:set", N(c).lim == c.arg(0))])

    def bi(L):
        o = Trk(L, L.c.old, L.c.this)
        i = L.pos("i")
        return [("range", z3.And(0 <= i, i <= o.n)), ("not-yet", z3.ForAll([J], z3.Implies(z3.And(o.lo <= J, J < o.lo + i), o.at(J) != L.c.arg(0)), patterns=[o.at(J)]))]
    add("buf_in_tracker", 1, requires=inv, throws=none, loops={0: bi},
        ensures=lambda c: [("C17:tracked", c.ret == z3.Exists([J], z3.And(O(c).lo <= J, J < O(c).hi, O(c).at(J) == c.arg(0))))])
    vec = lambda c: SEQ.hi(c.arg(0)) - SEQ.lo(c.arg(0))
    add("Init", 2, requires=lambda c: [("vector", vec(c) >= 0)], modifies=lambda c: F(c, "bufs_", "max_inv_size_"),
        throws=lambda c: [Throws("cyclus::ValueError", vec(c) == 0, label="no-buffers"), Throws("cyclus::ValueError", z3.And(vec(c) != 0, c.arg(1) <= 0), label="bad-limit", modifies=lambda c: F(c, "bufs_"))],
        ensures=lambda c: [("C17:tracks-these", N(c).bufs == c.arg(0)), ("C17:limit", N(c).lim == c.arg(1))])
    return out


def build():
    out = resbuf.slim()
    for k in KINDS:
        for n, g in (("capacity", "cap_"), ("quantity", "qty_")):
            out.append(Contract(k.b(n), 0, ret=(lambda k, g: lambda c: c.old.f(k.b(g), c.this))(k, g), assumed=True, exact=True))
        out.append(Contract(k.b("space"), 0, ret=(lambda k: lambda c: resbuf.Buf(c, c.old, c.this, k).space)(k), assumed=True, exact=True))
    out.append(Contract(RS + "obj_id", 0, ret=lambda c: c.old.f(OBJ, c.this), assumed=True, exact=True))
    out.append(Contract("cyclus::CycArithmetic::KahanSum", 1, assumed=True, exact=True, ret=lambda c: (lambda s, x: c.sum(
        lambda j: z3.Select(c.v.named(c, s.arr(x)), j), s.lo(x), s.hi(x)))(c.arg(0).sort(), c.arg(0))))
    return out + store("int, cyclus::Material", KINDS[0]) + store("std::basic_string<char, std::char_traits<char>, std::allocator<char>>, cyclus::Product", KINDS[1]) + tracker()
