"""Contracts on the symbolic functions and the commodity supply bookkeeping (C14)."""
import z3
from engine import *
from lib import *

T = "cyclus::toolkit::"
SRCS = ["toolkit/symbolic_functions.cc", "toolkit/symbolic_function_factories.cc", "toolkit/commodity_producer.cc",
        "toolkit/commodity_producer_manager.cc", "toolkit/supply_demand_manager.cc", "toolkit/commodity.cc"]
LF, EF, PF, FF = T + "LinearFunction::", T + "ExponentialFunction::", T + "PiecewiseFunction::", T + "PiecewiseFunctionFactory::"
PI = PF + "PiecewiseFunctionInfo"
CPR, CPM, SDM, CI, CO = T + "CommodityProducer::", T + "CommodityProducerManager::", T + "SupplyDemandManager::", T + "CommodInfo", T + "Commodity"
COMMOD = StructSort(CO, [("name_", I)])
INFO = StructSort(CI, [("capacity", R), ("cost", R)])
PIECE = StructSort(PI, [("function", I), ("xoffset", R), ("yoffset", R)])
PIECES = SeqSort(PIECE)
CMAP = MapSort(COMMOD, INFO)
DMAP = MapSort(COMMOD, I)
J = z3.Int("j!sf")


def CFG():
    c = Config()
    c.value_classes = {CO, CI, PI}
    return c


def P14(xs): return [("C14:" + n, g) for n, g in xs]


def build():
    out = []
    add = lambda *a, **kw: out.append(Contract(*a, **{"prop": ["C14"], **kw}))
    F = lambda v: v.ufun("fvalue", I, R, R)
    # a function's value at x: which class computes it is not known here (each class has its own contract)
    out.append(pure(T + "SymFunction::value", 1, lambda c: F(c.v)(c.this, c.arg(0))))
    f = lambda c, n: c.old.f(n, c.this)
    add(LF + "LinearFunction", 2, modifies=lambda c: [c.field(LF + x, [c.this]) for x in ("slope_", "intercept_")],
        ensures=lambda c: P14([("kept", z3.And(c.new.f(LF + "slope_", c.this) == c.arg(0), c.new.f(LF + "intercept_", c.this) == c.arg(1)))]))
    add(LF + "value", 1, exact=True, ensures=lambda c: P14([("linear", c.ret == f(c, LF + "slope_") * c.arg(0) + f(c, LF + "intercept_"))]))
    EXP = lambda c, x: c.v.ufun("fn_exp", R, R)(x)
    add(EF + "ExponentialFunction", 3, modifies=lambda c: [c.field(EF + x, [c.this]) for x in ("constant_", "exponent_", "intercept_")],
        ensures=lambda c: P14([("kept", z3.And(c.new.f(EF + "constant_", c.this) == c.arg(0), c.new.f(EF + "exponent_", c.this) == c.arg(1), c.new.f(EF + "intercept_", c.this) == c.arg(2)))]))
    add(EF + "value", 1, exact=True, ensures=lambda c: P14([("exponential", c.ret == f(c, EF + "constant_") * EXP(c, f(c, EF + "exponent_") * c.arg(0)) + f(c, EF + "intercept_"))]))

    # ---- piecewise functions
    def g(n): return getattr(PIECE, "f_" + n)

    def pieces(view, p):
        s = view.f(PF + "functions_", p)
        A = PIECES.arr(s)
        return s, PIECES.lo(s), PIECES.hi(s), lambda n, j: g(n)(z3.Select(A, j))

    def rising(view, p):
        s, lo, hi, at = pieces(view, p)
        A = PIECES.arr(s)
        i, j = z3.Ints("i!pw j!pw")
        return [("ordered", z3.And(lo <= hi, z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), at("xoffset", i) < at("xoffset", j)),
                                                       patterns=[z3.MultiPattern(z3.Select(A, i), z3.Select(A, j))]))),
                ("pieces", z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), at("function", i) > 0), patterns=[z3.Select(A, i)]))]

    def pw(view, p, x, ret):
        s, lo, hi, at = pieces(view, p)
        A = PIECES.arr(s)
        k = z3.Int("k!pw")
        F_ = F(view.v)
        return [("zero-before-the-first", z3.Implies(z3.Or(lo == hi, x < at("xoffset", lo)), ret == 0)),
                ("the-last-piece-started", z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi, at("xoffset", k) <= x, z3.Or(k == hi - 1, x < at("xoffset", k + 1))),
                                                                     ret == F_(at("function", k), x - at("xoffset", k)) + at("yoffset", k)), patterns=[z3.Select(A, k)]))]

    def pw_loop(L):
        s, lo, hi, at = pieces(L.c.old, L.c.this)
        A = PIECES.arr(s)
        i = L.pos("f") + lo
        k = z3.Int("k!pw")
        return [("range", z3.And(lo <= i, i <= hi)), ("passed", z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < i), at("xoffset", k) <= L.c.arg(0)), patterns=[z3.Select(A, k)]))]
    add(PF + "value", 1, exact=True, requires=lambda c: rising(c.old, c.this), ensures=lambda c: P14(pw(c.old, c.this, c.arg(0), c.ret)), loops={0: pw_loop})

    def af_ens(c):
        p = c.old.f(FF + "function_", c.this)
        s0, lo, hi, at0 = pieces(c.old, p)
        s1, lo1, hi1, at1 = pieces(c.new, p)
        A1 = PIECES.arr(s1)
        F_ = F(c.v)
        x = c.arg(1)
        n = z3.Select(A1, hi)
        k = z3.Int("k!pw")
        jump = lambda y: z3.Implies(c.arg(2), z3.And(*[gg for _, gg in pw(c.old, p, x, y)]))
        return [(nm, gg) for nm, gg in rising(c.new, p)] + P14([
            ("appended", z3.And(lo1 == lo, hi1 == hi + 1)),
            ("earlier-pieces-kept", z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), z3.Select(A1, k) == z3.Select(PIECES.arr(s0), k)), patterns=[z3.Select(A1, k)])),
            ("piece", z3.And(g("function")(n) == c.arg(0), g("xoffset")(n) == x)),
            ("offset-zero-unless-continuous", z3.Implies(z3.Not(c.arg(2)), g("yoffset")(n) == 0)),
            ("joins-without-a-jump", jump(F_(c.arg(0), z3.RealVal(0)) + g("yoffset")(n)))])
    add(FF + "AddFunction", 3, requires=lambda c: [("factory", c.old.f(FF + "function_", c.this) > 0), ("given", c.arg(0) > 0)] + rising(c.old, c.old.f(FF + "function_", c.this)),
        modifies=lambda c: [c.field(PF + "functions_", [c.old.f(FF + "function_", c.this)])], ensures=af_ens,
        throws=lambda c: [Throws("cyclus::Error", z3.And(pieces(c.old, c.old.f(FF + "function_", c.this))[1] < pieces(c.old, c.old.f(FF + "function_", c.this))[2],
                                                        c.arg(1) <= pieces(c.old, c.old.f(FF + "function_", c.this))[3]("xoffset", pieces(c.old, c.old.f(FF + "function_", c.this))[2] - 1)), label="not-increasing")])

    # ---- producers
    K = lambda name: COMMOD.mk(name)
    cm = lambda view, p: view.f(CPR + "commodities_", p)
    has = lambda m, k: z3.Select(CMAP.dom(m), k)
    get = lambda m, k: z3.Select(CMAP.val(m), k)
    cap, cost = getattr(INFO, "f_capacity"), getattr(INFO, "f_cost")
    LIM = lambda v: z3.RealVal("10000000000")
    k_ = z3.Const("k!co", COMMOD)

    def others(c, key):
        o, n = cm(c.old, c.this), cm(c.new, c.this)
        return ("others-kept", z3.ForAll([k_], z3.Implies(k_ != key, z3.And(has(n, k_) == has(o, k_), z3.Implies(has(o, k_), get(n, k_) == get(o, k_))))))
    mods = lambda c: [c.field(CPR + "commodities_", [c.this])]
    add(CPR + "Produces", 1, exact=True, ensures=lambda c: P14([("registered", c.ret == has(cm(c.old, c.this), c.arg(0)))]))
    for nm, sel in (("Capacity", cap), ("Cost", cost)):
        add(CPR + nm, 1, modifies=mods, ensures=lambda c, sel=sel: P14([
            ("as-set", z3.Implies(has(cm(c.old, c.this), c.arg(0)), z3.And(c.ret == sel(get(cm(c.old, c.this), c.arg(0))), cm(c.new, c.this) == cm(c.old, c.this)))), others(c, c.arg(0))]))
        oth = cost if sel is cap else cap
        add(CPR + "Set" + nm, 2, modifies=mods, ensures=lambda c, sel=sel, oth=oth: P14([
            ("set", z3.And(has(cm(c.new, c.this), c.arg(0)), sel(get(cm(c.new, c.this), c.arg(0))) == c.arg(1))),
            ("rest-kept", z3.Implies(has(cm(c.old, c.this), c.arg(0)), oth(get(cm(c.new, c.this), c.arg(0))) == oth(get(cm(c.old, c.this), c.arg(0))))), others(c, c.arg(0))]))
    add(CPR + "Add", 2, modifies=mods, ensures=lambda c: P14([
        ("added-once", z3.And(has(cm(c.new, c.this), c.arg(0)), get(cm(c.new, c.this), c.arg(0)) == z3.If(has(cm(c.old, c.this), c.arg(0)), get(cm(c.old, c.this), c.arg(0)), c.arg(1)))), others(c, c.arg(0))]))
    add(CPR + "Add", 1, modifies=mods, ensures=lambda c: P14([
        ("added-once", z3.And(has(cm(c.new, c.this), c.arg(0)), get(cm(c.new, c.this), c.arg(0)) == z3.If(
            has(cm(c.old, c.this), c.arg(0)), get(cm(c.old, c.this), c.arg(0)), INFO.mk(c.old.f(CPR + "default_capacity_", c.this), c.old.f(CPR + "default_cost_", c.this))))), others(c, c.arg(0))]))
    add(CPR + "Rm", 1, modifies=mods, ensures=lambda c: P14([("removed", z3.Not(has(cm(c.new, c.this), c.arg(0)))), others(c, c.arg(0))]))

    # ---- managers
    SETI = SetSort(I)

    def reg(cls, fld, ins, rm):
        s = lambda view, p: view.f(cls + fld, p)
        inn = lambda x, k: z3.Select(SETI.dom(x), k)
        q = z3.Int("q!mg")
        for nm, on in ((ins, True), (rm, False)):
            add(cls + nm, 1, modifies=lambda c: [c.field(cls + fld, [c.this])], ensures=lambda c, on=on: P14([
                ("only-it", z3.ForAll([q], inn(s(c.new, c.this), q) == z3.If(q == c.arg(0), z3.BoolVal(on), inn(s(c.old, c.this), q)))),
                ("count", SETI.size(s(c.new, c.this)) == SETI.size(s(c.old, c.this)) + z3.If(inn(s(c.old, c.this), c.arg(0)) == z3.BoolVal(on), 0, 1 if on else -1))]))
        return s, inn
    ps, pin = reg(CPM, "producers_", "Register", "Unregister")
    ms, min_ = reg(SDM, "managers_", "RegisterProducerManager", "UnregisterProducerManager")

    def nonnull(view, x, inn):
        q = z3.Int("q!mg")
        return ("non-null", z3.ForAll([q], z3.Implies(inn(x, q), z3.And(q > 0, q <= view.alloc)), patterns=[inn(x, q)]))

    def share(view, key):
        return lambda p: z3.If(has(cm(view, p), key), cap(get(cm(view, p), key)), z3.RealVal(0))

    def contribution(c, view, key, D, upto):
        """capacities of the first `upto` producers of set D"""
        kat, _ = c.v.enum_fn(D)
        return c.sum(lambda j: share(view, key)(kat(D, j)), z3.IntVal(0), upto)

    def tc_loop(L):
        c = L.c
        D = SETI.dom(ps(c.old, c.this))
        i = L.pos()
        n = SETI.size(ps(c.old, c.this))
        return [("range", z3.And(0 <= i, i <= n)), ("so-far", L.acc(R, "total") == contribution(c, c.old, c.arg(0), D, i)),
                ("producers-kept", L.S.arr(CPR + "commodities_", CMAP) == L.E.arr(CPR + "commodities_", CMAP))]

    def named(c, view, m, key):
        """the total of manager m as one term; its definition is the sum"""
        fn = c.v.ufun("manager_total", z3.ArraySort(I, CMAP), SETI, COMMOD, R)
        return fn(view.arr(CPR + "commodities_", CMAP), ps(view, m), key)

    def tc_ens(c):
        s = ps(c.old, c.this)
        total = contribution(c, c.old, c.arg(0), SETI.dom(s), SETI.size(s))
        c.fact(named(c, c.old, c.this, c.arg(0)) == total)
        return P14([("sum-of-capacities", c.ret == total)]) + [("named", c.ret == named(c, c.old, c.this, c.arg(0)))]
    add(CPM + "TotalCapacity", 1, requires=lambda c: [nonnull(c.old, ps(c.old, c.this), pin)], ensures=tc_ens, loops={0: tc_loop})

    def managers_total(c, D, upto):
        kat, _ = c.v.enum_fn(D)
        return c.sum(lambda j: named(c, c.old, kat(D, j), c.arg(0)), z3.IntVal(0), upto)

    def su_loop(L):
        c = L.c
        s = ms(c.old, c.this)
        i = L.pos()
        return [("range", z3.And(0 <= i, i <= SETI.size(s))), ("so-far", L.acc(R, "value") == managers_total(c, SETI.dom(s), i))]

    def su_req(c):
        q, r = z3.Ints("q!mg r!mg")
        s = ms(c.old, c.this)
        return [nonnull(c.old, s, min_), ("producers-non-null", z3.ForAll([q, r], z3.Implies(z3.And(min_(s, q), pin(ps(c.old, q), r)), z3.And(r > 0, r <= c.old.alloc)),
                                                                         patterns=[z3.MultiPattern(min_(s, q), pin(ps(c.old, q), r))]))]
    add(SDM + "Supply", 1, requires=su_req, loops={0: su_loop},
        ensures=lambda c: P14([("sum-over-managers", c.ret == managers_total(c, SETI.dom(ms(c.old, c.this)), SETI.size(ms(c.old, c.this))))]))

    # ---- demand
    dm = lambda view, p: view.f(SDM + "demand_functions_", p)
    dh = lambda m, k: z3.Select(DMAP.dom(m), k)
    dg = lambda m, k: z3.Select(DMAP.val(m), k)
    add(SDM + "ManagesCommodity", 1, exact=True, ensures=lambda c: P14([("registered", c.ret == dh(dm(c.old, c.this), c.arg(0)))]))
    add(SDM + "RegisterCommodity", 2, modifies=lambda c: [c.field(SDM + "demand_functions_", [c.this])], ensures=lambda c: P14([
        ("registered", z3.And(dh(dm(c.new, c.this), c.arg(0)), dg(dm(c.new, c.this), c.arg(0)) == z3.If(dh(dm(c.old, c.this), c.arg(0)), dg(dm(c.old, c.this), c.arg(0)), c.arg(1)))),
        ("others-kept", z3.ForAll([k_], z3.Implies(k_ != c.arg(0), z3.And(dh(dm(c.new, c.this), k_) == dh(dm(c.old, c.this), k_), z3.Implies(
            dh(dm(c.old, c.this), k_), dg(dm(c.new, c.this), k_) == dg(dm(c.old, c.this), k_))))))]))
    for nm, n in (("Demand", 2), ("DemandFunction", 1)):
        add(SDM + nm, n, requires=lambda c: [("managed", z3.And(dh(dm(c.old, c.this), c.arg(0)), dg(dm(c.old, c.this), c.arg(0)) > 0))], modifies=lambda c: [],
            ensures=lambda c, n=n: P14([("demand", c.ret == (F(c.v)(dg(dm(c.old, c.this), c.arg(0)), z3.ToReal(c.arg(1))) if n == 2 else dg(dm(c.old, c.this), c.arg(0))))]))
    return out
