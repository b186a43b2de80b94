"""Contracts on compmath, CycArithmetic and Composition (C03, used by C02)."""
import z3
from engine import *
from lib import *

CM = "cyclus::compmath::"
CP = "cyclus::Composition::"
CA = "cyclus::CycArithmetic::"
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
CompMap = MapSort(I, R)
SRCS = ["comp_math.cc", "composition.cc", "cyc_arithmetic.cc"]


def isnuc(v): return v.ufun("isnuclide", I, B)
def amass(v): return v.ufun("atomic_mass", I, R)


def dom(m, k): return z3.Select(CompMap.dom(m), k)
def val(m, k): return z3.Select(CompMap.val(m), k)
def get(m, k): return z3.If(dom(m, k), val(m, k), z3.RealVal(0))
def size(m): return CompMap.size(m)
def total(v, m):
    def ax():
        D, V = z3.Const("D!m0", z3.ArraySort(I, B)), z3.Const("V!m0", z3.ArraySort(I, R))
        return z3.ForAll([D, V], z3.Implies(D == z3.K(I, z3.BoolVal(False)), v.msum(D, V) == 0), patterns=[v.msum(D, V)])
    v.axiom("msum-empty", ax)
    return v.msum(z3.simplify(CompMap.dom(m)), z3.simplify(CompMap.val(m)))
def empty(m): return size(m) == 0


def allk(f, pats=None):
    k = z3.Int("k!c")
    return z3.ForAll([k], f(k), patterns=pats(k)) if pats else z3.ForAll([k], f(k))


def mabs(x): return z3.If(x >= 0, x, -x)


def map_eq(a, b):
    """same nuclides, same values"""
    return allk(lambda k: z3.And(dom(a, k) == dom(b, k), z3.Implies(dom(a, k), val(a, k) == val(b, k))))


def close(x, y, thr):
    d = mabs(x - y)
    return z3.If(z3.Or(x == 0, y == 0), d <= d * thr, z3.And(d <= mabs(x) * thr, d <= mabs(y) * thr))


def externals():
    def am(c):
        r = amass(c.v)(c.arg(0))
        c.fact(r > 0)
        return r
    return [pure("pyne::nucname::isnuclide", 1, lambda c: isnuc(c.v)(c.arg(0)), sig="(int)"),
            pure("pyne::atomic_mass", 1, am, sig="(int)")]


def mview(view, c):
    """(nuclides, mass of nuclide k) of composition c, whichever form is stored"""
    m, a = view.f(CP + "mass_", c), view.f(CP + "atom_", c)
    am = amass(view.v)
    has = size(m) != 0
    return (lambda k: z3.If(has, dom(m, k), dom(a, k)),
            lambda k: z3.If(has, val(m, k), val(a, k) * am(k)))


def aview(view, c):
    m, a = view.f(CP + "mass_", c), view.f(CP + "atom_", c)
    am = amass(view.v)
    has = size(a) != 0
    return (lambda k: z3.If(has, dom(a, k), dom(m, k)),
            lambda k: z3.If(has, val(a, k), val(m, k) / am(k)))


def comp_inv(view, c):
    """representation invariant of a composition: the two forms agree"""
    m, a = view.f(CP + "mass_", c), view.f(CP + "atom_", c)
    am = amass(view.v)
    v = view.v
    f = v.ufun("comp_ok", CompMap, CompMap, B)
    cv = conv(v)

    def ax():
        x, y = z3.Const("m!ok", CompMap), z3.Const("a!ok", CompMap)
        return z3.ForAll([x, y], f(x, y) == z3.And(wfm(x), wfm(y), z3.Implies(z3.And(size(x) != 0, size(y) != 0), cv(x, y))), patterns=[f(x, y)])
    v.axiom("comp_ok", ax)
    return f(m, a)


def conv(v):
    """conv(m, a): mass form m and atom form a describe the same composition
    (kept opaque; its definition is the axiom below)"""
    f = v.ufun("conv", CompMap, CompMap, B)
    am = amass(v)

    def ax():
        m, a, k = z3.Const("m!cv", CompMap), z3.Const("a!cv", CompMap), z3.Int("k!cv")
        return z3.ForAll([m, a], f(m, a) == z3.And(wfm(m), wfm(a), (size(m) == 0) == (size(a) == 0), z3.ForAll([k], z3.And(
            dom(m, k) == dom(a, k), z3.Implies(dom(m, k), z3.And(am(k) > 0, val(m, k) == val(a, k) * am(k)))))), patterns=[f(m, a)])
    v.axiom("conv", ax)
    v.axiom("amass", lambda: z3.ForAll([z3.Int("k!am")], am(z3.Int("k!am")) > 0, patterns=[am(z3.Int("k!am"))]))
    return f


def scaled(v, x, q, t):
    """x * q / t (x itself when the total t is zero): what Normalize makes of one
    entry.  Opaque to callers, defined where Normalize itself is verified."""
    f = v.ufun("scaled", R, R, R, R)
    a, b, d = z3.Reals("x!sc q!sc t!sc")
    v.axiom("scaled0", lambda: z3.ForAll([b, d], f(z3.RealVal(0), b, d) == 0, patterns=[f(z3.RealVal(0), b, d)]))
    if v.contract.qn == CM + "Normalize":
        v.axiom("scaled", lambda: z3.ForAll([a, b, d], f(a, b, d) == z3.If(d == 0, a, a * (b / d)), patterns=[f(a, b, d)]))
    return f(x, q, t)


def wfm(m):
    return z3.And(size(m) >= 0, (size(m) == 0) == (CompMap.dom(m) == z3.K(I, z3.BoolVal(False))))


def same_view(a, b, ca, cb):
    return allk(lambda k: z3.And(a[0](k) == b[0](k), z3.Implies(a[0](k), a[1](k) == b[1](k))))


def build(prop="C03"):
    P = [prop]
    out = externals()
    add = lambda *a, **k: out.append(Contract(*a, **k))

    # ---- CycArithmetic
    def ks_inv(L):
        vec = L.c.args[0]
        i = L.pos("i")
        inp = L.var("input")
        s = L.acc(R, "sum")
        c = L.var("c")
        sq = inp.sort()
        return [("range", z3.And(0 <= i, i <= sq.hi(inp))), ("compensation-zero", c == 0),
                ("partial-sum", s == L.v.ssum(L.st, z3.simplify(sq.arr(inp)), sq.lo(inp), i))]

    add(CA + "KahanSum", 1, prop=P, loops={0: ks_inv}, exact=True,
        ensures=lambda c: [("is-the-sum", c.ret == c.v.ssum_of(c.st_post, c.arg(0)))])

    # ---- compmath
    def sum_inv(L):
        m = L.c.arg(0)
        it = L.it
        i = L.pos()
        vec = L.acc(SeqSort(R), "vec")
        s = vec.sort()
        keyAt, _ = L.v.enum_fn(it.D)
        return [("len", z3.And(s.lo(vec) == 0, s.hi(vec) == i)),
                ("sum", L.v.ssum(L.st, z3.simplify(s.arr(vec)), z3.IntVal(0), i) ==
                 L.v.psum(L.st, it.D, z3.simplify(CompMap.val(m)), i))]

    add(CM + "Sum", 1, prop=P, loops={0: sum_inv}, exact=True,
        ensures=lambda c: [("is-the-total", c.ret == total(c.v, c.arg(0)))])

    def addsub(sign):
        def inv(L):
            a, b = L.c.arg(0), L.c.arg(1)
            it = L.it
            i = L.pos()
            o = L.acc(CompMap, "out")
            _, idx = L.v.enum_fn(it.D)
            done = lambda k: z3.And(dom(b, k), idx(it.D, k) < i)
            return [("range", z3.And(0 <= i, i <= it.n)), ("wf", wfm(o)),
                    ("entries", allk(lambda k: z3.And(
                        dom(o, k) == z3.Or(dom(a, k), done(k)),
                        z3.Implies(dom(o, k), val(o, k) == get(a, k) + sign * z3.If(done(k), val(b, k), z3.RealVal(0)))))),
                    ("total", total(L.v, o) == total(L.v, a) + sign * L.v.psum(L.st, it.D, z3.simplify(CompMap.val(b)), i))]

        def ens(c):
            a, b = c.arg(0), c.arg(1)
            r = c.ret
            return [("nuclides", allk(lambda k: dom(r, k) == z3.Or(dom(a, k), dom(b, k)))),
                    ("values", allk(lambda k: z3.Implies(dom(r, k), val(r, k) == get(a, k) + sign * get(b, k)))),
                    ("wf", wfm(r)),
                    ("total", total(c.v, r) == total(c.v, a) + sign * total(c.v, b))]
        return inv, ens

    for nm, sg in (("Add", 1), ("Sub", -1)):
        inv, ens = addsub(sg)
        add(CM + nm, 2, prop=P, loops={0: inv}, ensures=ens, exact=True)

    def norm_inv(L):
        it = L.it
        i = L.pos()
        m0, m = L.c.arg(0), L.S.load(L.c.lv(0))
        mult = L.var0("mult") if True else None
        _, idx = L.v.enum_fn(it.D)
        V0 = z3.simplify(CompMap.val(m0))
        return [("range", z3.And(0 <= i, i <= it.n)), ("nuclides", CompMap.dom(m) == CompMap.dom(m0)),
                ("size", size(m) == size(m0)),
                ("scaled-so-far", allk(lambda k: z3.Implies(dom(m0, k), val(m, k) == z3.If(
                    idx(it.D, k) < i, val(m0, k) * mult, val(m0, k))))),
                ("total", total(L.v, m) == total(L.v, m0) + (mult - 1) * L.v.psum(L.st, it.D, V0, i))]

    def norm_ens(c):
        m0, m, x = c.arg(0), c.arg_new(0), c.arg(1)
        t = total(c.v, m0)
        return [("nuclides", z3.And(CompMap.dom(m) == CompMap.dom(m0), size(m) == size(m0))),
                ("ratios", z3.If(t == 0, allk(lambda k: z3.Implies(dom(m0, k), val(m, k) == val(m0, k))),
                                 allk(lambda k: z3.Implies(dom(m0, k), val(m, k) == val(m0, k) * (x / t))))),
                ("scaled", allk(lambda k: z3.Implies(dom(m0, k), val(m, k) == scaled(c.v, val(m0, k), x, t)), lambda k: [val(m, k)])),
                ("total", total(c.v, m) == z3.If(t == 0, z3.RealVal(0), x))]

    add(CM + "Normalize", 2, prop=P, loops={0: norm_inv}, ensures=norm_ens, modifies=lambda c: [c.mod_arg(0)], exact=True)

    def thr_inv(L):
        it = L.it
        i = L.pos()
        m0, m = L.c.arg(0), L.S.load(L.c.lv(0))
        thr = L.c.arg(1)
        _, idx = L.v.enum_fn(it.D)
        return [("range", z3.And(0 <= i, i <= it.n)), ("wf", wfm(m)),
                ("values", CompMap.val(m) == CompMap.val(m0)),
                ("kept", allk(lambda k: dom(m, k) == z3.And(dom(m0, k), z3.Or(idx(it.D, k) >= i, mabs(val(m0, k)) > thr))))]

    def thr_ens(c):
        m0, m, thr = c.arg(0), c.arg_new(0), c.arg(1)
        return [("exactly-the-small-removed", allk(lambda k: dom(m, k) == z3.And(dom(m0, k), mabs(val(m0, k)) > thr))),
                ("values-kept", allk(lambda k: z3.Implies(dom(m, k), val(m, k) == val(m0, k)))), ("wf", wfm(m))]

    add(CM + "ApplyThreshold", 2, prop=P, loops={0: thr_inv}, ensures=thr_ens, modifies=lambda c: [c.mod_arg(0)], exact=True,
        throws=lambda c: [Throws("cyclus::ValueError", c.arg(1) < 0, label="negative-threshold")])

    def all_pred(p):
        def inv(L):
            it = L.it
            i = L.pos()
            m = L.c.arg(0)
            _, idx = L.v.enum_fn(it.D)
            return [("range", z3.And(0 <= i, i <= it.n)),
                    ("so-far", allk(lambda k: z3.Implies(z3.And(dom(m, k), idx(it.D, k) < i), p(L.v, m, k))))]

        def ens(c):
            m = c.arg(0)
            return [("iff-all", c.ret == allk(lambda k: z3.Implies(dom(m, k), p(c.v, m, k))))]
        return inv, ens

    for nm, p in (("ValidNucs", lambda v, m, k: isnuc(v)(k)), ("AllPositive", lambda v, m, k: val(m, k) >= 0)):
        inv, ens = all_pred(p)
        add(CM + nm, 1, prop=P, loops={0: inv}, ensures=ens, exact=True)

    def ae_inv(L):
        it = L.it
        i = L.pos()
        a, b, thr = L.c.arg(0), L.c.arg(1), L.c.arg(2)
        _, idx = L.v.enum_fn(it.D)
        out = [("range", z3.And(0 <= i, i <= it.n)),
               ("so-far", allk(lambda k: z3.Implies(z3.And(dom(a, k), idx(it.D, k) < i),
                                                    z3.And(dom(b, k), close(val(a, k), val(b, k), thr)))))]
        for nm, m in (("n1", a), ("n2", b)):
            try: out.append((nm + "-copy", map_eq(L.var(nm), m)))
            except RoleMissing: pass
        return out

    def ae_ens(c):
        a, b, thr = c.arg(0), c.arg(1), c.arg(2)
        return [("iff-close", c.ret == z3.And(size(a) == size(b), allk(lambda k: z3.Implies(
            dom(a, k), z3.And(dom(b, k), close(val(a, k), val(b, k), thr))))))]

    add(CM + "AlmostEq", 3, prop=P, loops={0: ae_inv}, ensures=ae_ens, exact=True,
        throws=lambda c: [Throws("cyclus::ValueError", c.arg(2) < 0, label="negative-threshold")])

    # ---- Composition
    add(CP + "Composition", 0, allocs=True, modifies=lambda c: [c.field(CP + f, [c.this]) for f in (
        "id_", "prev_decay_", "recorded_", "decay_line_", "mass_", "atom_")] + [c.glob(CP + "next_id_", I),
        c.field("cell<std::map<int, boost::shared_ptr<cyclus::Composition>>>", only_fresh=True)],
        ensures=lambda c: [("id", c.new.f(CP + "id_", c.this) == c.old.g(CP + "next_id_", I)),
                           ("next", c.new.g(CP + "next_id_", I) == c.old.g(CP + "next_id_", I) + 1),
                           ("empty", z3.And(empty(c.new.f(CP + "mass_", c.this)), empty(c.new.f(CP + "atom_", c.this)),
                                            wfm(c.new.f(CP + "mass_", c.this)), wfm(c.new.f(CP + "atom_", c.this)))),
                           ("unrecorded", z3.Not(c.new.f(CP + "recorded_", c.this)))]) if False else None

    def create(fld, other):
        def ens(c):
            m = c.arg(0)
            r = c.ret
            x, y = c.new.f(CP + fld, r), c.new.f(CP + other, r)
            return [("fresh", z3.And(r > c.old.alloc, r <= c.new.alloc)),
                    ("holds-it", x == m), ("other-form-empty", z3.And(empty(y), wfm(y))),
                    ("id-unused", z3.And(c.new.f(CP + "id_", r) == c.old.g(CP + "next_id_", I),
                                         c.new.g(CP + "next_id_", I) == c.old.g(CP + "next_id_", I) + 1)),
                    ("unrecorded", z3.Not(c.new.f(CP + "recorded_", r)))]

        def throws(c):
            m = c.arg(0)
            return [Throws("cyclus::ValueError", z3.Not(z3.And(allk(lambda k: z3.Implies(dom(m, k), isnuc(c.v)(k))),
                                                               allk(lambda k: z3.Implies(dom(m, k), val(m, k) >= 0)))),
                           label="invalid-or-negative")]
        return ens, throws

    for nm, f1, f2 in (("CreateFromMass", "mass_", "atom_"), ("CreateFromAtom", "atom_", "mass_")):
        ens, thr = create(f1, f2)
        add(CP + nm, 1, prop=P, ensures=ens, throws=thr, allocs=True, exact=True,
            modifies=lambda c: [c.field(CP + f, only_fresh=True) for f in (
                "id_", "prev_decay_", "recorded_", "decay_line_", "mass_", "atom_")] + [c.glob(CP + "next_id_", I)])

    def form(fld, other, cnv):
        def inv(L):
            it = L.it
            i = L.pos()
            this = L.c.this
            src = L.E.f(CP + other, this)
            m = L.S.f(CP + fld, this)
            _, idx = L.v.enum_fn(it.D)
            am = amass(L.v)
            done = lambda k: z3.And(dom(src, k), idx(it.D, k) < i)
            r = z3.Int("r!oth")
            return [("range", z3.And(0 <= i, i <= it.n)), ("wf", wfm(m)),
                    ("converted", allk(lambda k: z3.And(dom(m, k) == done(k), z3.Implies(dom(m, k), val(m, k) == cnv(val(src, k), am(k)))))),
                    ("others", z3.ForAll([r], z3.Implies(r != this, L.S.f(CP + fld, r) == L.E.f(CP + fld, r))))]

        def ens(c):
            this = c.this
            a = (mview if fld == "mass_" else aview)(c.old, this)
            r = c.new.f(CP + fld, this)
            o = (lambda x: c.new.f(CP + x, this))
            return [("kept-if-present", z3.Implies(size(c.old.f(CP + fld, this)) != 0, r == c.old.f(CP + fld, this))),
                    ("forms-agree", z3.Implies(
                        size(c.old.f(CP + fld, this)) == 0, conv(c.v)(o("mass_"), o("atom_")))),
                    ("form", allk(lambda k: z3.And(dom(r, k) == a[0](k), z3.Implies(dom(r, k), val(r, k) == a[1](k))))),
                    ("returned", c.ret == r), ("wf", wfm(r)),
                    ("other-form-kept", c.new.f(CP + other, this) == c.old.f(CP + other, this)),
                    ("consistent", comp_inv(c.new, this))]
        return inv, ens

    for nm, f1, f2, cv in (("mass", "mass_", "atom_", lambda x, a: x * a), ("atom", "atom_", "mass_", lambda x, a: x / a)):
        inv, ens = form(f1, f2, cv)
        add(CP + nm, 0, prop=P, loops={0: inv}, ensures=ens, exact=True, requires=lambda c: [("repr", comp_inv(c.old, c.this))],
            modifies=(lambda f: lambda c: [c.field(CP + f, [c.this])])(f1))
    return out
