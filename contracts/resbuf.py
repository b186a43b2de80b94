"""Contracts on toolkit::ResBuf<T> and Squash (C05), for T = Material, Product.

The resource operations a buffer calls are used through the projection of their
contracts (contracts/resources.py, where they are proved: C01, C04) onto the
quantity, quality and package of a resource: `slim`."""
import z3
from engine import *
from lib import *

M, P, RS = "cyclus::Material::", "cyclus::Product::", "cyclus::Resource::"
SRCS = ["drivers/resbuf.cc", "toolkit/res_manip.cc"]
SEQ, SET = SeqSort(I), SetSort(I)
UNPKG = "unpackaged"
J, K = z3.Int("j!rb"), z3.Int("k!rb")


class Kind:
    def __init__(self, cls):
        self.cls = cls
        self.t = "cyclus::" + cls
        self.m = self.t + "::"
        self.q = self.m + ("qty_" if cls == "Material" else "quantity_")
        self.pkg = self.m + "package_name_"
        self.buf = "cyclus::toolkit::ResBuf<%s>::" % self.t
        self.b = lambda n: self.buf + n
        self.ptr = "boost::shared_ptr<%s>" % self.t


KINDS = [Kind("Material"), Kind("Product")]


def isT(view, r, k): return is_type(view.v, r, k.t)
def ok(view, r, k): return z3.And(r > 0, r <= view.alloc, isT(view, r, k), view.f(k.q, r) >= 0)


def slim():
    out = []
    add = lambda *a, **kw: out.append(Contract(*a, assumed=True, exact=True, **kw))
    for k in KINDS:
        q = k.q
        add(k.m + "quantity", 0, ret=(lambda q: lambda c: c.old.f(q, c.this))(q))

        def cp_ens(c, k=k):
            return [("stripped", z3.Or(c.new.f(k.pkg, c.this) == c.arg(0), z3.And(c.old.f(k.m + "ctx_", c.this) == 0,
                                                                             c.new.f(k.pkg, c.this) == c.old.f(k.pkg, c.this))))]
        add(k.m + "ChangePackage", 1, ensures=cp_ens, modifies=(lambda k: lambda c: [c.field(k.pkg, [c.this])])(k),
            requires=lambda c: [("default-package", c.arg(0) == strlit(UNPKG))])

        def ex_ens(c, k=k):
            return [fresh_ret(c), ("type", isT(c.new, c.ret, k)), ("piece", c.new.f(k.q, c.ret) == c.arg(0)),
                    ("rest", c.new.f(k.q, c.this) == c.old.f(k.q, c.this) - c.arg(0))]
        for nm in ("ExtractRes", "ExtractQty", "Extract"):
            add(k.m + nm, 1, allocs=True, ensures=ex_ens, modifies=(lambda k: lambda c: [c.field(k.q, [c.this]), c.field(k.pkg, [])])(k),
                throws=(lambda q: lambda c: [Throws("cyclus::ValueError", c.old.f(q, c.this) < c.arg(0), label="more-than-there-is")])(q))

        def ab_ens(c, k=k):
            return [("sum", z3.And(c.new.f(k.q, c.this) == c.old.f(k.q, c.this) + c.old.f(k.q, c.arg(0)), c.new.f(k.q, c.arg(0)) == 0))]
        add(k.m + "Absorb", 1, sig=k.ptr, ensures=ab_ens, modifies=(lambda q: lambda c: [c.field(q, [c.this, c.arg(0)])])(q),
            requires=lambda c: [("other", z3.And(c.arg(0) != c.this, c.arg(0) > 0))],
            throws=lambda c: [Throws("cyclus::ValueError", z3.BoolVal(True), must=False, label="other-quality")])
    # virtual calls through Resource::Ptr
    add(RS + "quantity", 0, ret=lambda c: z3.If(is_type(c.v, c.this, "cyclus::Material"), c.old.f(KINDS[0].q, c.this), z3.If(
        is_type(c.v, c.this, "cyclus::Product"), c.old.f(KINDS[1].q, c.this), c.v.ufun("other_quantity", I, R)(c.this))))
    return out


# ------------------------------------------------------ what a buffer is --
class Buf:
    """a buffer in a given state"""
    def __init__(self, c, view, b, k):
        self.c, self.v, self.b, self.k = c, view, b, k
        f = lambda n: view.f(k.b(n), b)
        self.rs, self.present, self.qty, self.cap, self.bulk, self.keep = map(f, ("rs_", "rs_present_", "qty_", "cap_", "is_bulk_", "keep_packaging_"))
        self.lo, self.hi, self.arr = SEQ.lo(self.rs), SEQ.hi(self.rs), view.v.named(c, SEQ.arr(self.rs))
        self.n = self.hi - self.lo
        self.D = view.v.named(c, SET.dom(self.present))
        self.Q = view.v.named(c, view.arr(k.q))
        self.space = z3.If(self.cap - self.qty > 0, self.cap - self.qty, z3.RealVal(0))

    def at(self, i): return z3.Select(self.arr, i)
    def rng(self, i): return z3.And(self.lo <= i, i < self.hi)
    def sum(self, lo=None, hi=None): return qsum(self.c, self.arr, self.Q, self.lo if lo is None else lo, self.hi if hi is None else hi)

    def shape(self):
        """distinct valid resources, the set is exactly theirs"""
        return [("order", self.lo <= self.hi),
                ("valid", z3.ForAll([J], z3.Implies(self.rng(J), z3.And(self.at(J) > 0, self.at(J) <= self.v.alloc, isT(self.v, self.at(J), self.k),
                                                                       z3.Select(self.Q, self.at(J)) >= 0)), patterns=[self.at(J)])),
                ("distinct", z3.ForAll([J, K], z3.Implies(z3.And(self.rng(J), self.rng(K), J != K), self.at(J) != self.at(K)),
                                       patterns=[z3.MultiPattern(self.at(J), self.at(K))])),
                ("members", z3.ForAll([J], z3.Implies(self.rng(J), z3.Select(self.D, self.at(J))), patterns=[self.at(J)])),
                ("no-others", SET.size(self.present) == self.n)]

    def inv(self, qty=True):
        self.c.fact(z3.Or(self.sum() == self.sum(), self.lo < 0))
        return self.shape() + ([("total", self.qty == self.sum())] if qty else []) + [
            ("capacity", self.cap >= 0), ("bulk", z3.Implies(self.bulk, z3.And(self.n <= 1, z3.Not(self.keep))))]


def qsum(c, arr, Q, lo, hi):
    arr, Q = z3.simplify(arr), z3.simplify(Q)
    return c.sum(lambda j: z3.Select(Q, z3.Select(arr, j)), lo, hi)


def P5(xs): return [("C05:" + n, g) for n, g in xs]


def same_from(a, b, lo, hi):
    """the sequences agree at the same positions (positions do not move when the ends do)"""
    return z3.ForAll([J], z3.Implies(z3.And(lo <= J, J < hi), z3.Select(b.arr, J) == z3.Select(a.arr, J)), patterns=[z3.Select(b.arr, J)])


def seq_is(b, x, lo, hi):
    A = b.v.v.named(b.c, SEQ.arr(x))
    return z3.And(SEQ.hi(x) - SEQ.lo(x) == hi - lo, z3.ForAll([J], z3.Implies(
        z3.And(SEQ.lo(x) <= J, J < SEQ.hi(x)), z3.Select(A, J) == z3.Select(b.arr, J - SEQ.lo(x) + lo)), patterns=[z3.Select(A, J)]))


def buffer(k):
    out = []
    add = lambda n, *a, **kw: out.append(Contract(k.b(n), *a, **{"prop": ["C05"], **kw}))
    O = lambda c: Buf(c, c.old, c.this, k)
    N = lambda c: Buf(c, c.new, c.this, k)
    inv0 = lambda c: O(c).inv()
    inv1 = lambda c: P5(N(c).inv())
    F = lambda c, *fs: [c.field(k.b(f), [c.this]) for f in fs]
    alive = ("rs_", "rs_present_", "qty_")

    # ---- queries
    for nm, g in (("capacity", lambda b: b.cap), ("quantity", lambda b: b.qty), ("space", lambda b: b.space)):
        add(nm, 0, exact=True, ensures=(lambda g, nm: lambda c: [("C05:" + nm, c.ret == g(O(c)))])(g, nm))
    add("count", 0, exact=True, requires=lambda c: [("order", O(c).lo <= O(c).hi)], ensures=lambda c: [("C05:count", c.ret == O(c).n)])
    add("empty", 0, exact=True, requires=lambda c: [("order", O(c).lo <= O(c).hi)], ensures=lambda c: [("C05:empty", c.ret == (O(c).n == 0))])
    add("keep_packaging", 0, exact=True, ensures=lambda c: [("C05:keep", c.ret == O(c).keep)])
    add("keep_packaging", 1, exact=True, modifies=lambda c: F(c, "keep_packaging_"), ensures=lambda c: [("C05:set", N(c).keep == c.arg(0))],
        throws=lambda c: [Throws("cyclus::ValueError", z3.And(O(c).bulk, c.arg(0)), label="bulk-cannot-keep")])
    add("Peek", 0, exact=True, requires=inv0, ensures=lambda c: [("C05:oldest", c.ret == O(c).at(O(c).lo))],
        throws=lambda c: [Throws("cyclus::ValueError", O(c).n == 0, label="empty")])
    add("capacity", 1, exact=True, modifies=lambda c: F(c, "cap_"), ensures=lambda c: [("C05:set", N(c).cap == c.arg(0))],
        throws=lambda c: [Throws("cyclus::ValueError", z3.Or(c.arg(0) < 0, O(c).qty - c.arg(0) > EPS(c.old)), label="negative-or-below-contents")])
    add("UpdateQty", 0, exact=True, requires=lambda c: [x for x in O(c).shape()], modifies=lambda c: F(c, "qty_"),
        ensures=lambda c: [("C05:total-if-small", N(c).qty == z3.If(O(c).n == 0, z3.RealVal(0), z3.If(
            O(c).n == 1, z3.Select(O(c).Q, O(c).at(O(c).lo)), O(c).qty)))])
    add("ResBuf", 2, requires=lambda c: [("tolerance", EPS(c.old) >= 0)], modifies=lambda c: F(c, *alive, "cap_", "is_bulk_", "keep_packaging_"), allocs=True,
        throws=lambda c: [Throws("cyclus::ValueError", z3.And(c.arg(0), c.arg(1)), label="bulk-cannot-keep",
                                 modifies=lambda c: F(c, *alive, "cap_", "is_bulk_", "keep_packaging_"))],
        ensures=lambda c: inv1(c) + [("C05:empty", z3.And(N(c).n == 0, N(c).qty == 0)), ("C05:options", z3.And(N(c).bulk == c.arg(0), N(c).keep == c.arg(1))),
                                     ("C05:unlimited", N(c).cap == INF)])

    # ---- removing whole resources
    empty = lambda c: [Throws("cyclus::ValueError", O(c).n == 0, label="empty")]

    def tails(c, o):
        c.fact(o.sum(o.lo + 1, o.hi) == o.sum(o.lo + 1, o.hi), o.sum(o.lo, o.hi - 1) == o.sum(o.lo, o.hi - 1))

    def pop_ens(c, back=False):
        o, n = O(c), N(c)
        lo, hi = (o.lo, o.hi - 1) if back else (o.lo + 1, o.hi)
        return [("C05:newest" if back else "C05:oldest", c.ret == o.at(o.hi - 1 if back else o.lo)), 
                ("C05:rest", z3.And(n.lo == lo, n.hi == hi, same_from(o, n, lo, hi))),
                ("C05:removed", n.qty == o.qty - z3.Select(o.Q, c.ret))] + inv1(c)

    add("Pop", 0, requires=inv0, modifies=lambda c: F(c, *alive), throws=empty, ensures=pop_ens)
    add("PopBack", 0, requires=inv0, modifies=lambda c: F(c, *alive), throws=empty, ensures=lambda c: pop_ens(c, True))

    def popn_ens(c):
        o, n = O(c), N(c)
        return [("C05:oldest-first", seq_is(o, c.ret, o.lo, o.lo + c.arg(0))), 
                ("C05:rest", z3.And(n.lo == o.lo + c.arg(0), n.hi == o.hi, same_from(o, n, n.lo, n.hi))),
                ("C05:quantities", qsum(c, c.v.named(c, SEQ.arr(c.ret)), n.Q, SEQ.lo(c.ret), SEQ.hi(c.ret)) == o.sum(o.lo, o.lo + c.arg(0))),
                ("C05:removed", n.qty == o.qty - o.sum(o.lo, o.lo + c.arg(0)))] + inv1(c)

    def popn_inv(L):
        i = L.pos("i")
        rs = L.acc(SEQ, "rs")
        o, s = Buf(L, L.c.old, L.c.this, k), Buf(L, L.S, L.c.this, k)
        return [("range", z3.And(0 <= i, z3.Implies(L.c.arg(0) >= 0, i <= L.c.arg(0)))), ("front", z3.And(s.lo == o.lo + i, s.hi == o.hi, same_from(o, s, s.lo, s.hi))),
                ("popped", z3.And(SEQ.hi(rs) - SEQ.lo(rs) == i, seq_is(o, rs, o.lo, o.lo + i))), ("same-quantities", s.Q == o.Q if not z3.eq(s.Q, o.Q) else z3.BoolVal(True)),
                ("sum", s.qty == s.sum()), ("split", o.sum() == s.sum() + o.sum(o.lo, o.lo + i)),
                ("same-total", qsum(L, L.v.named(L, SEQ.arr(rs)), o.Q, SEQ.lo(rs), SEQ.hi(rs)) == o.sum(o.lo, o.lo + i))] + s.shape()

    add("PopN", 1, requires=inv0, modifies=lambda c: F(c, *alive), ensures=popn_ens, loops={0: popn_inv},
        throws=lambda c: [Throws("cyclus::ValueError", z3.Or(O(c).n < c.arg(0), c.arg(0) < 0), label="bad-count")])

    # ---- removing a quantity
    def pv_parts(c):
        o, n = O(c), N(c)
        x = c.ret
        m = SEQ.hi(x) - SEQ.lo(x)
        return o, n, x, m

    def pv_ens(c):
        o, n, x, m = pv_parts(c)
        A = c.v.named(c, SEQ.arr(x))
        last = z3.Select(A, SEQ.hi(x) - 1)
        src = o.at(o.lo + m - 1)
        whole = z3.And(n.lo == o.lo + m, last == src)
        cut = z3.And(n.lo == o.lo + m - 1, last > c.old.alloc, last <= c.new.alloc, isT(c.new, last, k), z3.Select(n.Q, last) > 0,
                     z3.Select(n.Q, src) == z3.Select(o.Q, src) - z3.Select(n.Q, last), z3.Select(n.Q, src) > 0)
        return [("C05:exact-quantity", qsum(c, A, n.Q, SEQ.lo(x), SEQ.hi(x)) == z3.If(c.arg(0) > 0, c.arg(0), z3.RealVal(0))),
                ("C05:oldest-first", z3.ForAll([J], z3.Implies(z3.And(SEQ.lo(x) <= J, J < SEQ.hi(x) - 1), z3.Select(A, J) == z3.Select(o.arr, J - SEQ.lo(x) + o.lo)),
                                               patterns=[z3.Select(A, J)])),
                ("C05:only-last-split", z3.If(m > 0, z3.Or(whole, cut), n.lo == o.lo)),
                ("C05:rest", z3.And(n.hi == o.hi, n.lo <= n.hi, same_from(o, n, n.lo, n.hi), m >= 0, (m == 0) == (c.arg(0) <= 0))),
                ("distinct-results", z3.And(z3.ForAll([J, K], z3.Implies(z3.And(SEQ.lo(x) <= J, J < SEQ.hi(x), SEQ.lo(x) <= K, K < SEQ.hi(x), J != K), z3.Select(A, J) != z3.Select(A, K)),
                                        patterns=[z3.MultiPattern(z3.Select(A, J), z3.Select(A, K))]),
                          z3.ForAll([J], z3.Implies(z3.And(SEQ.lo(x) <= J, J < SEQ.hi(x)), z3.And(z3.Select(A, J) > 0, z3.Select(A, J) <= c.new.alloc, isT(c.new, z3.Select(A, J), k),
                                    z3.Select(n.Q, z3.Select(A, J)) >= 0)), patterns=[z3.Select(A, J)]))),
                ("C05:others-untouched", z3.ForAll([J], z3.Implies(z3.And(c.v.old_ref(J, c.old.alloc), z3.Or(m == 0, J != src)),
                                                                   z3.Select(n.Q, J) == z3.Select(o.Q, J)), patterns=[z3.Select(n.Q, J)])),
                ("C05:removed", n.qty == o.qty - z3.If(c.arg(0) > 0, c.arg(0), z3.RealVal(0)))] + inv1(c)

    def pv_inv(L):
        left = L.acc(R, "left")
        x = L.acc(SEQ, "rs")
        q = L.c.arg(0)
        o, s = Buf(L, L.c.old, L.c.this, k), Buf(L, L.S, L.c.this, k)
        A = L.v.named(L, SEQ.arr(x))
        m = SEQ.hi(x) - SEQ.lo(x)
        last = z3.Select(A, SEQ.hi(x) - 1)
        src = o.at(o.lo + m - 1)
        pos = z3.If(q > 0, q, z3.RealVal(0))
        tot = qsum(L, A, s.Q, SEQ.lo(x), SEQ.hi(x))
        tail = s.sum(s.lo + 1, s.hi)
        L.fact(tail == tail, o.sum(s.lo + 1, o.hi) == o.sum(s.lo + 1, o.hi))
        al = L.c.st_pre.alloc
        whole = left >= 0
        Alloc = L.st.alloc
        return [("ends", z3.And(s.hi == o.hi, m >= 0, s.lo <= s.hi, same_from(o, s, s.lo, s.hi), Alloc >= al)),
                ("whole", z3.Implies(z3.And(whole, q >= 0), z3.And(s.lo == o.lo + m, tot == q - left, o.sum() == s.sum() + tot,
                                               z3.ForAll([J], z3.Implies(L.v.old_ref(J, al), z3.Select(s.Q, J) == z3.Select(o.Q, J)), patterns=[z3.Select(s.Q, J)])))),
                ("unstarted", z3.And(z3.Implies(m == 0, left == q), z3.Implies(q <= 0, z3.And(m == 0, s.lo == o.lo, left == q)))),
                ("cut", z3.Implies(z3.And(z3.Not(whole), q >= 0), z3.And(m > 0, s.lo == o.lo + m - 1, s.lo < s.hi, tot == q, last > al, last <= Alloc, isT(L.S, last, k),
                                                 z3.Select(s.Q, last) > 0, z3.Select(s.Q, src) > 0,
                                                 z3.Select(s.Q, src) == z3.Select(o.Q, src) - z3.Select(s.Q, last), o.sum() == s.sum() + q))),
                ("untouched", z3.ForAll([J], z3.Implies(z3.And(L.v.old_ref(J, al), z3.Or(m == 0, J != src)), z3.Select(s.Q, J) == z3.Select(o.Q, J)), patterns=[z3.Select(s.Q, J)])),
                ("popped", z3.ForAll([J], z3.Implies(z3.And(SEQ.lo(x) <= J, J < SEQ.hi(x) - z3.If(whole, 0, 1)), z3.Select(A, J) == z3.Select(o.arr, J - SEQ.lo(x) + o.lo)),
                                     patterns=[z3.Select(A, J)])),
                ("sum", s.qty == s.sum())] + s.shape()

    def pv_mods(c): return F(c, *alive) + [c.field(k.q), c.field(k.pkg, [])]
    too_big = lambda c: [Throws("cyclus::ValueError", c.arg(0) > O(c).qty, label="more-than-held")]
    add("PopVector", 1, requires=inv0, modifies=pv_mods, allocs=True, ensures=pv_ens, loops={0: pv_inv}, throws=too_big)

    # ---- adding
    def fits(c, q): return q - O(c).space <= EPS(c.old)

    def push_ens(c):
        o, n, r = O(c), N(c), c.arg(0)
        stored = z3.Or(z3.Not(o.bulk), o.n == 0)
        return [("C05:stored-last", z3.Implies(stored, z3.And(n.lo == o.lo, n.hi == o.hi + 1, same_from(o, n, o.lo, o.hi), n.at(o.hi) == r,
                                                             z3.Select(n.Q, r) == z3.Select(o.Q, r)))),
                ("C05:merged", z3.Implies(z3.Not(stored), z3.And(n.lo == o.lo, n.hi == o.hi, n.at(n.lo) == o.at(o.lo),
                    z3.Select(n.Q, n.at(n.lo)) == z3.Select(o.Q, o.at(o.lo)) + z3.Select(o.Q, r), z3.Select(n.Q, r) == 0))),
                ("C05:package-stripped", z3.Implies(z3.And(stored, z3.Not(o.keep), c.old.f(k.m + "ctx_", r) != 0), c.new.f(k.pkg, r) == strlit(UNPKG))),
                ("C05:package-kept", z3.Implies(o.keep, c.new.f(k.pkg, r) == c.old.f(k.pkg, r))),
                ("C05:added", n.qty == o.qty + z3.Select(o.Q, r)),
                ("C05:within-capacity", fits(c, z3.Select(o.Q, r)))] + inv1(c)

    def push_mods(c): return F(c, *alive) + [c.field(k.q, [c.arg(0), O(c).at(O(c).lo)]), c.field(k.pkg, [c.arg(0)])]

    def push_throws(c):
        o, r = O(c), c.arg(0)
        t = z3.And(r != 0, isT(c.old, r, k))
        dup = z3.And(t, fits(c, z3.Select(o.Q, r)), z3.Select(o.D, r))
        return [Throws("cyclus::CastError", z3.Not(t), label="wrong-type"),
                Throws("cyclus::ValueError", z3.And(t, z3.Not(fits(c, z3.Select(o.Q, r)))), label="over-capacity"),
                Throws("cyclus::KeyError", dup, label="duplicate"),
                Throws("cyclus::ValueError", z3.And(t, o.bulk, o.n > 0), must=False, label="other-quality")]

    add("Push", 1, sig="(boost::shared_ptr<cyclus::Resource>)", requires=lambda c: inv0(c) + [
        ("pushed", z3.Implies(z3.And(c.arg(0) != 0, isT(c.old, c.arg(0), k)), ok(c.old, c.arg(0), k))), ("ref", c.arg(0) >= 0),
        ("not-hidden", z3.Implies(z3.Select(SET.dom(O(c).present), c.arg(0)), O(c).n > 0))],
        modifies=push_mods, ensures=push_ens, throws=push_throws)
    # ---- adding several
    class Vec:
        """a vector of resources, by position from 0"""
        def __init__(self, c, x):
            self.A = c.v.named(c, SEQ.arr(x))
            self.lo, self.hi = SEQ.lo(x), SEQ.hi(x)
            self.n = self.hi - self.lo

        def at(self, i): return z3.Select(self.A, i)
        def rng(self, i): return z3.And(self.lo <= i, i < self.hi)

    def good(view, x, upto=None): return z3.ForAll([J], z3.Implies(z3.And(x.lo <= J, J < (x.hi if upto is None else x.lo + upto)), z3.And(
        x.at(J) != 0, isT(view, x.at(J), k))), patterns=[x.at(J)])

    def vsum(c, x, Q, i=None): return qsum(c, x.A, Q, x.lo, x.hi if i is None else x.lo + i)
    def vfits(c, o, x): return vsum(c, x, o.Q) - o.space <= EPS(c.old)
    def dup(o, x, i=None):
        hi = x.hi if i is None else x.lo + i
        return z3.Or(z3.Exists([J], z3.And(x.lo <= J, J < hi, z3.Select(o.D, x.at(J)))),
                     z3.Exists([J, K], z3.And(x.lo <= J, J < K, K < hi, x.at(J) == x.at(K))))

    def apart(o, x, hi):
        """no element below hi is held or repeated"""
        return z3.And(z3.ForAll([J], z3.Implies(z3.And(x.lo <= J, J < hi), z3.Not(z3.Select(o.D, x.at(J)))), patterns=[x.at(J)]),
                      z3.ForAll([J, K], z3.Implies(z3.And(x.lo <= J, J < K, K < hi), x.at(J) != x.at(K)), patterns=[z3.MultiPattern(x.at(J), x.at(K))]))

    def pvec_ens(c):
        o, n, x = O(c), N(c), Vec(c, c.arg(0))
        return [("C05:appended-in-order", z3.Implies(z3.Not(o.bulk), z3.And(n.lo == o.lo, n.hi == o.hi + x.n, same_from(o, n, o.lo, o.hi),
                    z3.ForAll([J], z3.Implies(z3.And(o.hi <= J, J < n.hi), n.at(J) == z3.Select(x.A, J - o.hi + x.lo)), patterns=[n.at(J)])))),
                ("C05:package-stripped", z3.Implies(z3.And(z3.Not(o.bulk), z3.Not(o.keep)), z3.ForAll([J], z3.Implies(z3.And(x.rng(J), c.old.f(k.m + "ctx_", x.at(J)) != 0),
                    c.new.f(k.pkg, x.at(J)) == strlit(UNPKG)), patterns=[x.at(J)]))),
                ("C05:merged", z3.Implies(o.bulk, z3.And(n.lo == o.lo, n.n == z3.If(z3.Or(o.n > 0, x.n > 0), 1, 0), z3.Implies(o.n > 0, n.at(n.lo) == o.at(o.lo))))),
                ("C05:added", n.qty == o.qty + vsum(c, x, o.Q)), ("C05:within-capacity", vfits(c, o, x))] + inv1(c)

    def pvec_throws(c):
        o, x = O(c), Vec(c, c.arg(0))
        g = good(c.old, x)
        mods = lambda c: pvec_mods(c)
        return [Throws("cyclus::CastError", z3.Not(g), label="wrong-type"),
                Throws("cyclus::ValueError", z3.And(g, z3.Not(vfits(c, o, x))), label="over-capacity"),
                Throws("cyclus::KeyError", z3.And(g, vfits(c, o, x), dup(o, x)), label="duplicate"),
                # mixed qualities pushed at once onto a bulk buffer: known finding, nothing promised
                Throws("cyclus::ValueError", z3.And(g, vfits(c, o, x), z3.Not(dup(o, x)), o.bulk), must=False, modifies=mods, label="other-quality")]

    def pvec_mods(c): return F(c, *alive) + [c.field(k.q), c.field(k.pkg)]

    def pv0(L):   # casting
        i = L.pos("i")
        x, y = Vec(L, L.c.arg(0)), L.acc(SEQ, "rss")
        A = L.v.named(L, SEQ.arr(y))
        return [("range", z3.And(0 <= i, i <= x.n)), ("cast", z3.And(SEQ.hi(y) - SEQ.lo(y) == i, good(L.c.old, x, i), z3.ForAll([J], z3.Implies(
            z3.And(SEQ.lo(y) <= J, J < SEQ.hi(y)), z3.Select(A, J) == z3.Select(x.A, J - SEQ.lo(y) + x.lo)), patterns=[z3.Select(A, J)])))]

    def pv1(L):   # total
        i = L.pos("i")
        x = Vec(L, L.c.arg(0))
        o = Buf(L, L.c.old, L.c.this, k)
        return [("range", z3.And(0 <= i, i <= x.n)), ("total", L.acc(R, "tot_qty") == vsum(L, x, o.Q, i))]

    def pv2(L):   # duplicates
        i = L.pos("i")
        x = Vec(L, L.c.arg(0))
        o = Buf(L, L.c.old, L.c.this, k)
        u = L.acc(SET, "unique")
        D = L.v.named(L, SET.dom(u))
        return [("range", z3.And(0 <= i, i <= x.n)), ("apart", apart(o, x, x.lo + i)),
                ("seen", z3.ForAll([J], z3.Implies(z3.And(x.lo <= J, J < x.lo + i), z3.Select(D, x.at(J))), patterns=[x.at(J)])),
                ("only-seen", z3.ForAll([J], z3.Implies(z3.Select(D, J), z3.Exists([K], z3.And(x.lo <= K, K < x.lo + i, x.at(K) == J))), patterns=[z3.Select(D, J)]))]

    def pv3(L):   # storing
        i = L.pos("i")
        x = Vec(L, L.c.arg(0))
        o, s = Buf(L, L.c.old, L.c.this, k), Buf(L, L.S, L.c.this, k)
        G = L.v.named(L, L.S.arr(k.pkg))
        L.fact(z3.Or(s.sum() == s.sum(), s.lo < 0))
        return [("range", z3.And(0 <= i, i <= x.n)),
                ("appended", z3.Implies(z3.Not(o.bulk), z3.And(s.lo == o.lo, s.hi == o.hi + i, same_from(o, s, o.lo, o.hi),
                    z3.ForAll([J], z3.Implies(z3.And(o.hi <= J, J < s.hi), s.at(J) == z3.Select(x.A, J - o.hi + x.lo)), patterns=[s.at(J)]),
                    z3.ForAll([J], z3.Select(s.Q, J) == z3.Select(o.Q, J), patterns=[z3.Select(s.Q, J)])))),
                ("stripped", z3.Implies(z3.And(z3.Not(o.bulk), z3.Not(o.keep)), z3.ForAll([J], z3.Implies(z3.And(x.lo <= J, J < x.lo + i, L.S.f(k.m + "ctx_", x.at(J)) != 0),
                    z3.Select(G, x.at(J)) == strlit(UNPKG)), patterns=[x.at(J)]))),
                ("merged", z3.Implies(o.bulk, z3.And(s.lo == o.lo, s.n == z3.If(z3.Or(o.n > 0, i > 0), 1, 0), z3.Implies(s.n > 0, s.at(s.lo) == z3.If(o.n > 0, o.at(o.lo), x.at(x.lo))),
                    z3.ForAll([J], z3.Implies(z3.And(x.lo + i <= J, J < x.hi), z3.Select(s.Q, x.at(J)) == z3.Select(o.Q, x.at(J))), patterns=[x.at(J)])))),
                ("total", s.sum() == o.sum() + vsum(L, x, o.Q, i)), ("unchanged", z3.And(s.qty == o.qty, s.bulk == o.bulk, s.keep == o.keep, s.cap == o.cap))] + s.shape() + [
                ("others", z3.ForAll([J], z3.Implies(z3.Select(s.D, J), z3.Or(z3.Select(o.D, J), z3.Exists(
                    [K], z3.And(x.lo <= K, K < x.lo + i, x.at(K) == J)))), patterns=[z3.Select(s.D, J)]))]

    def pvec_req(c):
        o, x = O(c), Vec(c, c.arg(0))
        return inv0(c) + [("vector", z3.And(x.lo <= x.hi, z3.ForAll([J], z3.Implies(x.rng(J), z3.And(x.at(J) >= 0, x.at(J) <= c.old.alloc,
            z3.Implies(x.at(J) != 0, z3.Select(o.Q, x.at(J)) >= 0))), patterns=[x.at(J)])))]

    add("Push", 1, sig="std::vector", requires=pvec_req, modifies=pvec_mods, ensures=pvec_ens, throws=pvec_throws, loops={0: pv0, 1: pv1, 2: pv2, 3: pv3}, budget=120)

    # ---- squashing and popping as one object
    def sq_req(c):
        x = Vec(c, c.arg(0))
        Q = c.v.named(c, c.old.arr(k.q))
        return [("vector", z3.And(x.lo <= x.hi, z3.ForAll([J], z3.Implies(x.rng(J), z3.And(x.at(J) > 0, x.at(J) <= c.old.alloc, z3.Select(Q, x.at(J)) >= 0)), patterns=[x.at(J)]))),
                ("distinct", z3.ForAll([J, K], z3.Implies(z3.And(x.rng(J), x.rng(K), J != K), x.at(J) != x.at(K)), patterns=[z3.MultiPattern(x.at(J), x.at(K))]))]

    def sq_ens(c):
        x = Vec(c, c.arg(0))
        Q, Q1 = c.v.named(c, c.old.arr(k.q)), c.v.named(c, c.new.arr(k.q))
        return [("C05:first", c.ret == x.at(x.lo)), ("C05:total", z3.Select(Q1, c.ret) == vsum(c, x, Q)),
                ("C05:others-empty", z3.ForAll([J], z3.Implies(z3.And(x.lo < J, J < x.hi), z3.Select(Q1, x.at(J)) == 0), patterns=[x.at(J)])),
                ("C05:rest-untouched", untouched(c, x, Q, Q1))]

    def untouched(c, x, Q, Q1):
        return z3.ForAll([J], z3.Implies(z3.And(c.v.old_ref(J, c.v.top_ctx.st_pre.alloc if hasattr(c, "entry") else c.old.alloc),
                                                z3.ForAll([K], z3.Implies(x.rng(K), x.at(K) != J), patterns=[x.at(K)])), z3.Select(Q1, J) == z3.Select(Q, J)), patterns=[z3.Select(Q1, J)])

    def sq_inv(L):
        i = L.pos("i")
        x = Vec(L, L.c.arg(0))
        Q, Q1 = L.v.named(L, L.c.old.arr(k.q)), L.v.named(L, L.S.arr(k.q))
        return [("range", z3.And(1 <= i, i <= x.n)), ("total", z3.Select(Q1, x.at(x.lo)) == vsum(L, x, Q, i)),
                ("done", z3.ForAll([J], z3.Implies(z3.And(x.lo < J, J < x.hi), z3.Select(Q1, x.at(J)) == z3.If(J < x.lo + i, z3.RealVal(0), z3.Select(Q, x.at(J)))), patterns=[x.at(J)])),
                ("untouched", untouched(L, x, Q, Q1))]

    fail = Throws("cyclus::ValueError", z3.BoolVal(True), must=False, modifies=lambda c: [c.field(k.q)], label="other-quality")
    out.append(Contract("cyclus::toolkit::Squash", 1, sig="shared_ptr<%s>" % k.t, prop=["C05"], requires=sq_req, ensures=sq_ens, loops={0: sq_inv},
                        modifies=lambda c: [c.field(k.q), c.field(k.pkg)],
                        throws=lambda c: [Throws("cyclus::Error", Vec(c, c.arg(0)).n == 0, label="nothing-to-squash"), fail]))

    def pop1_ens(c):
        o, n = O(c), N(c)
        return [("C05:exact-quantity", c.new.f(k.q, c.ret) == c.arg(0)), ("C05:removed", n.qty == o.qty - c.arg(0))] + inv1(c)

    def kept(c):
        o, n = O(c), N(c)
        return [("C05:unchanged", z3.And(n.lo == o.lo, n.hi == o.hi, same_from(o, n, n.lo, n.hi), n.qty == o.qty))] + inv1(c)

    def nothing(when): return Throws("cyclus::Error", when, label="nothing-to-pop", modifies=lambda c: F(c, *alive), ensures=kept)

    lost = Throws("cyclus::ValueError", z3.BoolVal(True), must=False, modifies=lambda c: pv_mods(c) + [c.field(k.pkg)], label="other-quality")
    add("Pop", 1, requires=inv0, modifies=lambda c: pv_mods(c) + [c.field(k.pkg)], allocs=True, ensures=pop1_ens,
        throws=lambda c: [Throws("cyclus::ValueError", c.arg(0) > O(c).qty, label="more-than-held"),
                          nothing(z3.And(c.arg(0) <= 0, c.arg(0) <= O(c).qty)), lost])

    def pop2_ens(c):
        o, n = O(c), N(c)
        all_ = c.arg(0) >= o.qty
        return [("C05:quantity", c.new.f(k.q, c.ret) == z3.If(all_, o.qty, c.arg(0))), ("C05:within-tolerance", c.arg(0) <= o.qty + c.arg(1)),
                ("C05:removed", n.qty == o.qty - c.new.f(k.q, c.ret))] + inv1(c)
    add("Pop", 2, requires=inv0, modifies=lambda c: pv_mods(c) + [c.field(k.pkg)], allocs=True, ensures=pop2_ens,
        throws=lambda c: [Throws("cyclus::ValueError", c.arg(0) > O(c).qty + c.arg(1), label="more-than-held"),
                          nothing(z3.And(c.arg(0) <= O(c).qty + c.arg(1), z3.If(c.arg(0) >= O(c).qty, O(c).n == 0, c.arg(0) <= 0))), lost])
    return out


def build():
    out = slim()
    for k in KINDS: out += buffer(k)
    return out
