"""Contracts on Package and TransportUnit (C06)."""
import z3
from engine import *
from lib import *

PK, TU = "cyclus::Package::", "cyclus::TransportUnit::"
SRCS = ["package.cc"]
J = z3.Int("j!pk")
SEQR = SeqSort(R)
DD = "cyclus::DoubleDistribution"


def CFG():
    c = Config()
    c.ieee_div = True
    return c


def dlo(v): return v.ufun("dist_lo", I, R)
def dhi(v): return v.ufun("dist_hi", I, R)


def one_of(s, *names): return z3.Or(*[s == strlit(n) for n in names])


def dist_ok(view, p):
    v, d = view.v, view.f(PK + "dist_", p)
    st, mn, mx = view.f(PK + "strategy_", p), view.f(PK + "fill_min_", p), view.f(PK + "fill_max_", p)
    return z3.Implies(one_of(st, "uniform", "normal"), z3.And(d != 0, dlo(v)(d) == mn, dhi(v)(d) == mx))


def pk_inv(view, p):
    mn, mx = view.f(PK + "fill_min_", p), view.f(PK + "fill_max_", p)
    return [("limits", z3.And(0 <= mn, mn <= mx)), ("strategy", one_of(view.f(PK + "strategy_", p), "first", "equal", "uniform", "normal")),
            ("distribution", dist_ok(view, p))]


def tu_inv(view, p):
    mn, mx = view.f(TU + "fill_min_", p), view.f(TU + "fill_max_", p)
    return [("limits", z3.And(0 <= mn, mn <= mx)), ("strategy", one_of(view.f(TU + "strategy_", p), "first", "equal", "hybrid"))]


def P6(xs): return [("C06:" + n, g) for n, g in xs]


def build():
    out = []
    add = lambda *a, **kw: out.append(Contract(*a, **{"prop": ["C06"], **kw}))
    asm = lambda *a, **kw: out.append(Contract(*a, assumed=True, exact=True, **kw))
    # random draws: bounds are proved for C15
    asm(DD + "::sample", 0, requires=lambda c: [("distribution", c.this != 0)],
        ensures=lambda c: [("bounds", z3.And(dlo(c.v)(c.this) <= c.ret, c.ret <= dhi(c.v)(c.this)))])
    asm("cyclus::UniformDoubleDist::UniformDoubleDist", 2, ensures=lambda c: [("bounds", z3.And(dlo(c.v)(c.this) == c.arg(0), dhi(c.v)(c.this) == c.arg(1)))],
        throws=lambda c: [Throws("cyclus::ValueError", c.arg(0) >= c.arg(1), label="inverted")])
    asm("cyclus::FixedDoubleDist::FixedDoubleDist", 1, ensures=lambda c: [("bounds", z3.And(dlo(c.v)(c.this) == c.arg(0), dhi(c.v)(c.this) == c.arg(0)))])
    asm("cyclus::NormalDoubleDist::NormalDoubleDist", 4, ensures=lambda c: [("bounds", z3.And(dlo(c.v)(c.this) == c.arg(2), dhi(c.v)(c.this) == c.arg(3)))],
        throws=lambda c: [Throws("cyclus::ValueError", c.arg(2) >= c.arg(3), label="inverted")])

    # ---- package types
    F = lambda c, *fs: [c.field(PK + f, [c.this]) for f in fs]
    add(PK + "IsValidStrategy", 1, exact=True, ensures=lambda c: [("C06:known", c.ret == one_of(c.arg(0), "first", "equal", "uniform", "normal"))])
    add(PK + "SetDistribution", 0, allocs=True, modifies=lambda c: F(c, "dist_"),
        requires=lambda c: [("limits", c.old.f(PK + "fill_min_", c.this) <= c.old.f(PK + "fill_max_", c.this))],
        ensures=lambda c: P6([("draws-within-limits", dist_ok(c.new, c.this))]),
        throws=lambda c: [Throws("cyclus::ValueError", z3.And(c.old.f(PK + "strategy_", c.this) == strlit("normal"),
                                                             c.old.f(PK + "fill_min_", c.this) == c.old.f(PK + "fill_max_", c.this)), label="normal-needs-a-range")])
    FS = ("name_", "fill_min_", "fill_max_", "strategy_")
    UNP = "cyclus::Package::unpackaged_"

    def kept(c, cls, p, o=0):
        g = lambda f: c.new.f(cls + f, p)
        return [("as-given", z3.And(g("name_") == c.arg(o), g("fill_min_") == c.arg(o + 1), g("fill_max_") == c.arg(o + 2), g("strategy_") == c.arg(o + 3)))]

    def bad_pk(c): return z3.Or(z3.And(c.arg(0) == strlit("unpackaged"), c.old.g(UNP, I) != 0), z3.Not(one_of(c.arg(3), "first", "equal", "uniform", "normal")),
                                z3.And(c.arg(3) == strlit("normal"), c.arg(1) == c.arg(2)))
    add(PK + "Package", 4, allocs=True, modifies=lambda c: F(c, *FS, "dist_"),
        requires=lambda c: [("limits", z3.And(0 <= c.arg(1), c.arg(1) <= c.arg(2)))],
        ensures=lambda c: P6(pk_inv(c.new, c.this) + kept(c, PK, c.this)),
        throws=lambda c: [Throws("cyclus::ValueError", bad_pk(c), label="refused", modifies=lambda c: F(c, *FS, "dist_"))])
    add(PK + "Create", 4, allocs=True, ensures=lambda c: P6([("new", c.ret > c.old.alloc)] + pk_inv(c.new, c.ret) + kept(c, PK, c.ret)),
        modifies=lambda c: [c.field(PK + f, only_fresh=True) for f in FS + ("dist_",)],
        throws=lambda c: [Throws("cyclus::ValueError", z3.Or(c.arg(1) < 0, c.arg(2) < 0, c.arg(1) > c.arg(2), bad_pk(c)), label="refused",
                                 modifies=lambda c: [c.field(PK + f, only_fresh=True) for f in FS + ("dist_",)])])
    add(PK + "ExceedsSplitLimits", 2, exact=True, throws=lambda c: [Throws("cyclus::ValueError", z3.Or(
        c.arg(0) > 214748364, z3.ToReal(c.arg(0)) < z3.RealVal("-1932735283.2")), label="too-many")])

    def fm_ens(c):
        c.v.const_sums = True
        x = c.ret
        A = c.v.named(c, SEQR.arr(x))
        lo, hi = SEQR.lo(x), SEQR.hi(x)
        at = lambda j: z3.Select(A, j)
        mn, mx, st = c.old.f(PK + "fill_min_", c.this), c.old.f(PK + "fill_max_", c.this), c.old.f(PK + "strategy_", c.this)
        q, eps = c.arg(0), EPS(c.old)
        tot = c.sum(at, lo, hi)
        c.fact(z3.Or(c.sum(at, lo, hi - 1) == 0, lo <= hi, lo > hi))
        mm = z3.If(mn > eps, mn, eps)
        K, lv = c.v.fresh("fewest", I), c.v.fresh("level", R)
        N = z3.ToReal(K)
        c.fact(K == -z3.ToInt(-(q / mx)), lv == q / N)
        # facts of real arithmetic, discharged as lemmas below
        c.fact(z3.Implies(z3.And(q > 0, mx > 0), N >= 1), z3.Implies(z3.And(q > 0, N >= 1), z3.And(q / lv == N, N * lv == q, lv <= q, lv > 0)),
               z3.Implies(z3.And(N >= 1, mx > 0), lv <= mx), z3.Implies(z3.And(mn > 0, N * mn <= q), z3.ToReal(z3.ToInt(q / mn)) >= N),
               z3.Implies(z3.And(N >= 1, N * mn <= q), lv >= mn))
        c.fact(z3.Implies(z3.And(z3.ToReal(hi - lo) == N, z3.ForAll([J], z3.Implies(z3.And(lo <= J, J < hi), at(J) == lv), patterns=[at(J)])), tot == N * lv))
        level = z3.And(st == strlit("equal"), q > 0, mx > 0, q >= mn, N * mn <= q)
        return P6([("order", lo <= hi),
                   ("fill-within-limits", z3.ForAll([J], z3.Implies(z3.And(lo <= J, J < hi), z3.And(at(J) >= mn - eps, at(J) <= mx)), patterns=[at(J)])),
                   ("no-more-than-available", tot <= z3.If(q > 0, q, z3.RealVal(0))),
                   ("nothing-below-minimum", z3.Implies(z3.Or(q <= 0, q < mn - eps), lo == hi)),
                   ("rest-too-small", z3.Implies(q > 0, q - tot < mm)),
                   ("first-fills-up", z3.Implies(st == strlit("first"), z3.ForAll([J], z3.Implies(z3.And(lo <= J, J < hi - 1), at(J) == mx), patterns=[at(J)]))),
                   ("equal-ships-all", z3.Implies(level, tot == q)), ("equal-fewest", z3.Implies(level, z3.ToReal(hi - lo) == N)),
                   ("equal-fills", z3.Implies(level, z3.ForAll([J], z3.Implies(z3.And(lo <= J, J < hi), at(J) == lv), patterns=[at(J)])))])

    def fm_loop(L):
        c = L.c
        pk = [x for x in (L.acc(SEQR),)][0]
        A = c.v.named(L, SEQR.arr(pk))
        lo, hi = SEQR.lo(pk), SEQR.hi(pk)
        at = lambda j: z3.Select(A, j)
        mn, mx = c.old.f(PK + "fill_min_", c.this), c.old.f(PK + "fill_max_", c.this)
        q = L.var("qty")
        L.fact(z3.Or(c.sum(at, lo, hi - 1) == 0, lo <= hi, lo > hi))
        return [("order", lo <= hi), ("left", z3.And(q >= 0, c.sum(at, lo, hi) == c.arg(0) - q)),
                ("within", z3.ForAll([J], z3.Implies(z3.And(lo <= J, J < hi), z3.And(at(J) >= mn, at(J) <= mx)), patterns=[at(J)]))]

    add(PK + "GetFillMass", 1, requires=lambda c: pk_inv(c.old, c.this) + [
            ("tolerance", EPS(c.old) > 0), ("some-maximum", c.old.f(PK + "fill_max_", c.this) > 0)], ensures=fm_ens, loops={0: fm_loop},
        throws=lambda c: [Throws("cyclus::ValueError", c.arg(0) > 0, must=False, label="too-many")])

    # ---- transport units
    T = lambda c, f: c.old.f(TU + f, c.this)
    UNR = "cyclus::TransportUnit::unrestricted_"
    G = lambda c, *fs: [c.field(TU + f, [c.this]) for f in fs]

    def bad_tu(c): return z3.Or(z3.And(c.arg(0) == strlit("unrestricted"), c.old.g(UNR, I) != 0), z3.Not(one_of(c.arg(3), "first", "equal", "hybrid")))
    add(TU + "TransportUnit", 4, modifies=lambda c: G(c, *FS, "id_"), requires=lambda c: [("limits", z3.And(0 <= c.arg(1), c.arg(1) <= c.arg(2)))],
        ensures=lambda c: P6(tu_inv(c.new, c.this) + kept(c, TU, c.this)),
        throws=lambda c: [Throws("cyclus::ValueError", bad_tu(c), label="refused", modifies=lambda c: G(c, *FS, "id_"))])
    mods = lambda c: [c.field(TU + f, only_fresh=True) for f in FS + ("id_",)]
    add(TU + "Create", 4, allocs=True, ensures=lambda c: P6([("new", c.ret > c.old.alloc)] + tu_inv(c.new, c.ret) + kept(c, TU, c.ret)), modifies=mods,
        throws=lambda c: [Throws("cyclus::ValueError", z3.Or(c.arg(1) < 0, c.arg(2) < 0, c.arg(1) > c.arg(2), bad_tu(c)), label="refused", modifies=mods)])

    def fill_ens(c):
        mn, mx, st, n = T(c, "fill_min_"), T(c, "fill_max_"), T(c, "strategy_"), c.arg(0)
        none = z3.Or(n <= 0, n < mn, mx == 0)
        k = n / mx + z3.If(n % mx == 0, 0, 1)   # fewest units that can take all
        fits = k * mn <= n
        return P6([("nothing-below-minimum", z3.Implies(none, c.ret == 0)),
                   ("fill-within-limits", z3.Implies(z3.Not(none), z3.And(c.ret >= mn, c.ret >= 1, c.ret <= mx))),
                   ("first-fills-up", z3.Implies(z3.And(z3.Not(none), st == strlit("first")), c.ret == mx)),
                   ("no-more-than-available", z3.Implies(z3.And(z3.Not(none), st != strlit("first")), c.ret <= n)),
                   ("spread-evenly", z3.Implies(z3.And(z3.Not(none), st != strlit("first"), fits), c.ret == n / k)),
                   ("else-full", z3.Implies(z3.And(z3.Not(none), st != strlit("first"), z3.Not(fits)), c.ret == mx))])
    add(TU + "GetTransportUnitFill", 1, requires=lambda c: tu_inv(c.old, c.this), ensures=fill_ens)

    def few(c, n): return n / T(c, "fill_max_") + z3.If(n % T(c, "fill_max_") == 0, 0, 1)

    def theory(c):
        """arranged(n): n packages are some number of units within the limits
        fits(n): the fewest units that hold n packages all reach the minimum
        (the facts are closed lemmas, discharged below)"""
        mn, mx = T(c, "fill_min_"), T(c, "fill_max_")
        a, f = c.v.ufun("arranged", I, I, I, B), c.v.ufun("fits", I, I, I, B)
        A, Fi = (lambda n: a(mn, mx, n)), (lambda n: f(mn, mx, n))
        n, m = z3.Ints("n!tu m!tu")
        c.fact(A(z3.IntVal(0)),
               z3.ForAll([n, m], z3.Implies(z3.And(A(n), mn <= m - n, m - n <= mx), A(m)), patterns=[z3.MultiPattern(A(n), A(m))]))
        for u in (mx, c.arg(0) / few(c, c.arg(0))):     # units filled alike: k*u for every k
            c.fact(z3.Implies(z3.And(u > 0, mn <= u, u <= mx, c.arg(0) >= 0), A((c.arg(0) / u) * u)))
        c.fact(z3.Implies(mx > 0, z3.ForAll([n], z3.Implies(n > 0, Fi(n) == (few(c, n) * mn <= n)), patterns=[Fi(n)])),
               z3.Implies(mx > 0, z3.ForAll([n, m], z3.Implies(z3.And(n > 0, Fi(n), m == n - n / few(c, n), m > 0), Fi(m)), patterns=[z3.MultiPattern(Fi(n), Fi(m))])))
        return A, Fi

    def ship_ens(c):
        A, Fi = theory(c)
        mn, mx, st, n = T(c, "fill_min_"), T(c, "fill_max_"), T(c, "strategy_"), c.arg(0)
        free = T(c, "name_") == strlit("unrestricted")
        return P6([("never-negative", c.ret >= 0), ("no-more-than-available", z3.Implies(n >= 0, c.ret <= n)),
                   ("nothing-below-minimum", z3.Implies(z3.Or(n <= 0, n < mn), c.ret == 0)),
                   ("unrestricted", z3.Implies(z3.And(free, n >= mn, n >= 0), c.ret == n)),
                   ("units-within-limits", z3.Implies(z3.Not(free), A(c.ret))),
                   ("hybrid-ships-all-that-fits", z3.Implies(z3.And(z3.Not(free), st == strlit("hybrid"), n > 0, mx > 0, Fi(n)), c.ret == n))])

    def ship_loop(L):
        A, Fi = theory(L.c)
        L.fact(*L.c._facts)
        left, done, n = L.var("pkgs"), L.var("shippable"), L.c.arg(0)
        return [("left", z3.And(left >= 0, done >= 0, done + left == n)), ("arranged", A(done)),
                ("rest-fits", z3.Implies(z3.And(T(L.c, "fill_max_") > 0, Fi(n), left > 0), Fi(left)))]
    add(TU + "MaxShippablePackages", 1, requires=lambda c: tu_inv(c.old, c.this), ensures=ship_ens, loops={0: ship_loop})
    return out


def lemmas():
    """closed facts about units used above, each discharged on its own"""
    mn, mx, n, k, f, n2, k2, u, m = z3.Ints("mn mx n k f n2 k2 u m")
    pre = [mx >= 1, 0 <= mn, mn <= mx, n >= 1, (k - 1) * mx < n, n <= k * mx, k * mn <= n, k >= 1, k * f <= n, n < k * f + k, n2 == n - f]
    fm, full, top = f <= mx, z3.Or(f < mx, n == k * mx), n2 <= (k - 1) * mx
    q, N, M = z3.Reals("q N M")
    return [
        ("level: at least one package", [q > 0, M > 0, N == -z3.ToReal(z3.ToInt(-(q / M)))], N >= 1),
        ("level: the packages hold all", [q > 0, N >= 1], z3.And(q / (q / N) == N, N * (q / N) == q, q / N <= q, q / N > 0)),
        ("level: enough for the minimum", [N == z3.ToReal(n), M > 0, N * M <= q], z3.ToReal(z3.ToInt(q / M)) >= N),
        ("level: at least the minimum", [N >= 1, N * M <= q], q / N >= M),
        ("level: at most the maximum", [q / M <= N, N >= 1, M > 0], q / N <= M),
        ("arranged: nothing needs no unit", [], z3.And(0 * mn <= 0, 0 <= 0 * mx)),
        ("arranged: one more unit", [k >= 0, k * mn <= n, n <= k * mx, mn <= u, u <= mx], z3.And((k + 1) * mn <= n + u, n + u <= (k + 1) * mx)),
        ("arranged: units filled alike", [k >= 0, mn <= u, u <= mx], z3.And(k * mn <= k * u, k * u <= k * mx)),
        ("fits: a level fill is at most the maximum", pre, fm),
        ("fits: it is the maximum only if all units are full", pre + [fm], full),
        ("fits: the rest fits one unit less", pre + [fm, full], top),
        ("fits: the rest still reaches the minimum", pre, n2 >= (k - 1) * mn),
        ("fits: the fewest units are no more", [mx >= 1, n2 >= 1, (k2 - 1) * mx < n2, top], k2 <= k - 1),
        ("fits: fewer units need no more", [mn >= 0, k2 <= k - 1, n2 >= (k - 1) * mn], k2 * mn <= n2),
        ("fewest: rounding up", [mx >= 1, n >= 1, k == n / mx + z3.If(n % mx == 0, 0, 1)], z3.And((k - 1) * mx < n, n <= k * mx)),
    ]
