"""Contracts on the enrichment arithmetic and the material queries it uses (C13)."""
import z3
from engine import *
from lib import *
import compmath
from compmath import comp_inv, mview, aview, CompMap, dom, val, get, total, size, wfm

T = "cyclus::toolkit::"
AS, MQ, CP, M = T + "Assays::", T + "MatQuery::", "cyclus::Composition::", "cyclus::Material::"
SRCS = ["toolkit/enrichment.cc", "toolkit/mat_query.cc", "material.cc", "composition.cc", "comp_math.cc", "cyc_arithmetic.cc"]
U5, U8 = 922350000, 922380000


def CFG():
    c = Config()
    c.ieee_div = True
    return c


def P13(xs): return [("C13:" + n, g) for n, g in xs]


def build():
    out = [c for c in compmath.build() if c]
    for c in out: c.prop = [p for p in (c.prop or []) if p != "C03"] or None
    # the compmath contracts keep their own check (C03); here they are relied on and re-verified as support
    for c in out:
        if not c.assumed: c.prop = []
    add = lambda *a, **kw: out.append(Contract(*a, **{"prop": ["C13"], **kw}))

    add(AS + "Assays", 3, modifies=lambda c: [c.field(AS + f, [c.this]) for f in ("feed_", "product_", "tails_")],
        ensures=lambda c: P13([("kept", z3.And(*[c.new.f(AS + f, c.this) == c.arg(i) for i, f in enumerate(("feed_", "product_", "tails_"))]))]))
    for f in ("Feed", "Product", "Tails"):
        add(AS + f, 0, exact=True, ensures=lambda c, f=f: P13([("reported", c.ret == c.old.f(AS + f.lower() + "_", c.this))]))

    def xs(c):
        a = c.arg(1)
        return [c.old.f(AS + f, a) for f in ("feed_", "product_", "tails_")]

    def feed(c):
        f, p, t = xs(c)
        return c.arg(0) * ((p - t) / (f - t))

    def tails(c):
        f, p, t = xs(c)
        return c.arg(0) * ((p - f) / (f - t))

    def order(c):
        f, p, t = xs(c)
        return [("assays", t < f)]
    add(T + "FeedQty", 2, exact=True, requires=order, ensures=lambda c: P13([("feed", c.ret == feed(c))]))
    add(T + "TailsQty", 2, exact=True, requires=order, ensures=lambda c: P13([("tails", c.ret == tails(c))]))
    LOG = lambda v: v.ufun("fn_log", R, R)
    INFV = z3.Real("INFINITY")

    def value(v, x): return (1 - 2 * x) * LOG(v)(1 / x - 1)
    add(T + "ValueFunc", 1, exact=True, ensures=lambda c: P13([("value", z3.Implies(c.arg(0) > 0, c.ret == value(c.v, c.arg(0))))]),
        throws=lambda c: [Throws("cyclus::ValueError", z3.Or(c.arg(0) < 0, c.arg(0) >= 1), label="outside-[0,1)")])

    def swu(c):
        f, p, t = xs(c)
        return [("separative-work", c.ret == c.arg(0) * value(c.v, p) + tails(c) * value(c.v, t) - feed(c) * value(c.v, f))]

    add(T + "SwuRequired", 2, exact=True, requires=lambda c: order(c) + [("no-zero-assay", z3.And(*[z3.Or(x < 0, x > 0) for x in xs(c)]))],
        ensures=lambda c: P13(swu(c)), throws=lambda c: [Throws("cyclus::ValueError", z3.Or(*[z3.Or(x < 0, x >= 1) for x in xs(c)]), label="outside-[0,1)")])

    # ---- what a material holds (materials outside a lazily decaying context)
    def frac(v, m, k):
        t = total(v, m)
        return z3.If(dom(m, k), z3.If(t == 0, val(m, k), val(m, k) * (1 / t)), z3.RealVal(0))

    def ok(c, m):
        p = c.old.f(M + "comp_", m)
        return [("material", z3.And(m > 0, m <= c.old.alloc, c.old.f(M + "ctx_", m) == 0)), ("composition", z3.And(p > 0, p <= c.old.alloc, comp_inv(c.old, p)))]

    def mods(c, m):
        p = c.old.f(M + "comp_", m)
        return [c.field(CP + f, [p]) for f in ("mass_", "atom_")]

    def kept(c, m):
        p = c.old.f(M + "comp_", m)
        keep = lambda f: z3.Implies(size(c.old.f(CP + f, p)) != 0, c.new.f(CP + f, p) == c.old.f(CP + f, p))
        return [("composition-kept", z3.And(comp_inv(c.new, p), keep("mass_"), keep("atom_")))]

    def form(c, m, fld): return c.new.f(CP + fld, c.old.f(M + "comp_", m))

    def filled(c, m, fld):
        """the form is the stored one, or the converted other one"""
        p = c.old.f(M + "comp_", m)
        a = (mview if fld == "mass_" else aview)(c.old, p)
        r = c.new.f(CP + fld, p)
        return [("form", compmath.allk(lambda k: z3.And(dom(r, k) == a[0](k), z3.Implies(dom(r, k), val(r, k) == a[1](k)))))]
    QM = lambda c: c.old.f(MQ + "m_", c.this)
    add(MQ + "MatQuery", 1, sig="(boost", modifies=lambda c: [c.field(MQ + "m_", [c.this])], ensures=lambda c: P13([("of", c.new.f(MQ + "m_", c.this) == c.arg(0))]))
    add(MQ + "qty", 0, exact=True, requires=lambda c: [("material", QM(c) > 0)], ensures=lambda c: P13([("quantity", c.ret == c.old.f(M + "qty_", QM(c)))]))
    for nm, fld, oth in (("mass_frac", "mass_", "atom_"), ("atom_frac", "atom_", "mass_")):
        def keepo(c, oth=oth):
            p = c.old.f(M + "comp_", QM(c))
            return [("other-kept", c.new.f(CP + oth, p) == c.old.f(CP + oth, p))]
        add(MQ + nm, 1, sig="(int)", requires=lambda c: ok(c, QM(c)), modifies=lambda c, fld=fld: [c.field(CP + fld, [c.old.f(M + "comp_", QM(c))])],
            ensures=lambda c, fld=fld: kept(c, QM(c)) + P13(filled(c, QM(c), fld) + [("fraction", c.ret == frac(c.v, form(c, QM(c), fld), c.arg(0)))]))
    add(MQ + "mass", 1, sig="(int)", requires=lambda c: ok(c, QM(c)), modifies=lambda c: [c.field(CP + "mass_", [c.old.f(M + "comp_", QM(c))])],
        ensures=lambda c: kept(c, QM(c)) + P13(filled(c, QM(c), "mass_") + [("mass", c.ret == frac(c.v, form(c, QM(c), "mass_"), c.arg(0)) * c.old.f(M + "qty_", QM(c)))]))
    for nm, fld in (("UraniumAssayMass", "mass_"), ("UraniumAssayAtom", "atom_"), ("UraniumAssay", "atom_")):
        def ens(c, fld=fld):
            m = form(c, c.arg(0), fld)
            a, b = frac(c.v, m, z3.IntVal(U5)), frac(c.v, m, z3.IntVal(U8))
            return kept(c, c.arg(0)) + P13(filled(c, c.arg(0), fld) + [("assay", c.ret == z3.If(a + b > 0, a / (a + b), z3.RealVal(0)))])
        add(T + nm, 1, allocs=True, requires=lambda c: ok(c, c.arg(0)), modifies=lambda c, fld=fld: [c.field(CP + fld, [c.old.f(M + "comp_", c.arg(0))]), c.field(MQ + "m_", only_fresh=True)], ensures=ens)

    def uq(c):
        m = form(c, c.arg(0), "mass_")
        return kept(c, c.arg(0)) + P13(filled(c, c.arg(0), "mass_") + [("mass-of-both", c.ret == (
            frac(c.v, m, z3.IntVal(U5)) + frac(c.v, m, z3.IntVal(U8))) * c.old.f(M + "qty_", c.arg(0)))])
    add(T + "UraniumQty", 1, allocs=True, requires=lambda c: ok(c, c.arg(0)), modifies=lambda c: [c.field(CP + "mass_", [c.old.f(M + "comp_", c.arg(0))]), c.field(MQ + "m_", only_fresh=True)], ensures=uq)
    return out


def lemmas():
    """the balances follow from the contracts of FeedQty and TailsQty"""
    q, f, p, t, a, b, s, k = z3.Reals("q f p t a b s k")
    F, W = q * ((p - t) / (f - t)), q * ((p - f) / (f - t))
    F2, W2 = (k * q) * ((p - t) / (f - t)), (k * q) * ((p - f) / (f - t))
    pre = [t < f]
    x, y = z3.Reals("x y")
    return [("mass balance: feed = product + tails", pre, F == q + W),
            ("fissile balance", pre, F * f == q * p + W * t),
            ("feed and tails are linear in the product", pre, z3.And(F2 == k * F, W2 == k * W)),
            ("feed and tails are not negative", pre + [f <= p, q >= 0], z3.And(F >= 0, W >= 0)),
            ("an assay is the ratio of the unnormalised amounts", [s > 0, a >= 0, b >= 0, a + b > 0, x == a * (1 / s), y == b * (1 / s)],
             z3.And(x + y > 0, x / (x + y) == a / (a + b))),
            ("no uranium, no assay", [s > 0, a == 0, b == 0], z3.Not(a * (1 / s) + b * (1 / s) > 0))]
