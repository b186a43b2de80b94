"""Contracts on the random number generator and the distributions (C15).

boost's distributions are assumed (cyvc/stdmodel.py): a uniform distribution
draws within the bounds it was given, a normal distribution draws any number;
every draw is a function of the generator's state and the distribution alone
and advances the state, and seeding sets the state from the seed alone."""
import z3
from engine import *
from lib import *

C = "cyclus::"
SRCS = ["drivers/rng.cc"]
G = C + "RandomNumberGenerator::"
STATE = "GHOST::gen"


def P(xs): return [("C15:" + n, g) for n, g in xs]


def build():
    out = []
    add = lambda *a, **kw: out.append(Contract(*a, **{"prop": ["C15"], **kw}))
    mk = lambda c: c.v.ufun("rand_dist", I, R, R, I)
    fa = lambda c: c.v.ufun("rand_a", I, R)
    fb = lambda c: c.v.ufun("rand_b", I, R)
    fk = lambda c: c.v.ufun("rand_kind", I, I)
    draw = lambda c: c.v.ufun("rand_draw", I, I, R)
    nxt = lambda c: c.v.ufun("rand_next", I, I, I)
    seed = lambda c: c.v.ufun("rand_seed", I, I)
    st = lambda view: view.g(STATE, I)
    gm = lambda c: [c.glob(STATE, I)]
    rl = lambda x: z3.ToReal(x) if x.sort() == I else x
    inverted = lambda f, m=None: (lambda c: [Throws("cyclus::ValueError", f(c), label="inverted-bounds", modifies=m or (lambda c: []))])
    between = lambda c, lo, hi: P([("within-bounds", z3.And(lo <= c.ret, c.ret <= hi))])

    def one_draw(c, kind, a, b, integer=False):
        """the next draw of that distribution, and nothing else, decides the result"""
        d = mk(c)(strlit(kind), rl(a), rl(b))
        x = draw(c)(st(c.old), d)
        return P([("reproducible", z3.And(c.ret == (z3.ToInt(x) if integer else x), st(c.new) == nxt(c)(st(c.old), d)))])

    add(G + "Initialize", 1, exact=True, modifies=gm, ensures=lambda c: P([("state-from-the-seed-alone", st(c.new) == seed(c)(c.old.f(C + "SimInfo::seed", c.arg(0))))]))
    add(G + "random", 0, exact=True, modifies=gm, ensures=lambda c: P([("reproducible", z3.And(c.ret == z3.ToInt(draw(c)(st(c.old), 0)), st(c.new) == nxt(c)(st(c.old), 0)))]))
    add(G + "random_01", 0, modifies=gm, ensures=lambda c: P([("within-bounds", z3.And(0 <= c.ret, c.ret < 1))]) + one_draw(c, "uniform_01", z3.RealVal(0), z3.RealVal(1)))
    add(G + "random_uniform_int", 2, modifies=gm, throws=inverted(lambda c: c.arg(0) > c.arg(1)),
        ensures=lambda c: between(c, c.arg(0), c.arg(1)) + one_draw(c, "uniform_int_distribution", c.arg(0), c.arg(1), True))
    add(G + "random_uniform_real", 2, modifies=gm, throws=inverted(lambda c: c.arg(0) >= c.arg(1)),
        ensures=lambda c: between(c, c.arg(0), c.arg(1)) + one_draw(c, "uniform_real_distribution", c.arg(0), c.arg(1)))

    # which draw is accepted is decided by the entry state, the distribution and the bounds alone
    def accepted(v, s, d, lo, hi): return v.ufun("accepted_draw", I, I, R, R, R)(s, d, lo, hi), v.ufun("state_after", I, I, R, R, I)(s, d, lo, hi)

    def unfold(c, ctx, s, d, lo, hi):
        x, n = draw(c)(s, d), nxt(c)(s, d)
        (v0, s0), (v1, s1) = accepted(c.v, s, d, lo, hi), accepted(c.v, n, d, lo, hi)
        ctx.fact(z3.If(z3.And(lo <= x, x <= hi), z3.And(v0 == x, s0 == n), z3.And(v0 == v1, s0 == s1)))

    def redraw(dist, lo, hi, integer):
        def ens(c):
            d, l, h = dist(c), rl(lo(c)), rl(hi(c))
            unfold(c, c, st(c.old), d, l, h)
            val, s1 = accepted(c.v, st(c.old), d, l, h)
            res = z3.And(c.ret == val) if not integer else z3.And(2 * z3.ToReal(c.ret) - 1 <= 2 * val, 2 * val <= 2 * z3.ToReal(c.ret) + 1)
            return between(c, lo(c), hi(c)) + P([("reproducible", z3.And(res, st(c.new) == s1))])

        def loop(L):
            c = L.c
            d, l, h = dist(c), rl(lo(c)), rl(hi(c))
            x = L.acc(R, "val")
            s, e = st(L.S), st(c.old)
            unfold(c, L, e, d, l, h)
            unfold(c, L, s, d, l, h)
            (v0, s0), (v1, s1) = accepted(c.v, e, d, l, h), accepted(c.v, s, d, l, h)
            return [("drawn-so-far", z3.If(z3.And(l <= x, x <= h), z3.And(v0 == x, s0 == s), z3.And(v0 == v1, s0 == s1)))]
        return dict(ensures=ens, loops={0: loop}, modifies=gm)

    a = lambda i: (lambda c: c.arg(i))
    norm = lambda c: mk(c)(strlit("normal_distribution"), c.arg(0), c.arg(1))
    for f, integer in (("random_normal_real", False), ("random_normal_int", True)):
        add(G + f, 4, throws=inverted(lambda c: c.arg(2) > c.arg(3)), **redraw(norm, a(2), a(3), integer))
    for cls, integer in (("NormalDoubleDist", False), ("NormalIntDist", True)):
        q = C + cls + "::"
        fld = lambda f, q=q: (lambda c: c.old.f(q + f, c.this))
        add(q + "sample", 0, **redraw(fld("dist"), fld("min_"), fld("max_"), integer))
        add(q + "max", 0, exact=True, ensures=lambda c, q=q: P([("reports-its-bound", c.ret == c.old.f(q + "max_", c.this))]))
        add(q + cls, 4, throws=inverted(lambda c: c.arg(2) >= c.arg(3), lambda c, q=q: [c.field(q + f, [c.this]) for f in ("dist", "min_", "max_")]), modifies=lambda c, q=q: [c.field(q + f, [c.this]) for f in ("dist", "min_", "max_")],
            ensures=lambda c, q=q: P([("keeps-its-parameters", z3.And(c.new.f(q + "min_", c.this) == c.arg(2), c.new.f(q + "max_", c.this) == c.arg(3), c.new.f(q + "dist", c.this) == norm(c)))]))

    def D(q, view, c): return view.f(q + "dist", c.this)
    for cls, kind, integer in (("UniformDoubleDist", "uniform_real_distribution", False), ("UniformIntDist", "uniform_int_distribution", True)):
        q = C + cls + "::"
        wf = lambda c, q=q, kind=kind, integer=integer: [("constructed", z3.And(fk(c)(D(q, c.old, c)) == strlit(kind), fa(c)(D(q, c.old, c)) <= fb(c)(D(q, c.old, c)),
                *([fa(c)(D(q, c.old, c)) < fb(c)(D(q, c.old, c))] if not integer else [z3.ToReal(z3.ToInt(f(c)(D(q, c.old, c)))) == f(c)(D(q, c.old, c)) for f in (fa, fb)])))]
        add(q + cls, 2, throws=inverted((lambda c: c.arg(0) > c.arg(1)) if integer else (lambda c: c.arg(0) >= c.arg(1)), lambda c, q=q: [c.field(q + "dist", [c.this])]), modifies=lambda c, q=q: [c.field(q + "dist", [c.this])],
            ensures=lambda c, q=q, kind=kind: P([("keeps-its-parameters", z3.And(fa(c)(D(q, c.new, c)) == rl(c.arg(0)), fb(c)(D(q, c.new, c)) == rl(c.arg(1))))]))
        add(q + "sample", 0, requires=wf, modifies=gm, ensures=lambda c, q=q, integer=integer: P([
            ("within-bounds", z3.And(fa(c)(D(q, c.old, c)) <= rl(c.ret), rl(c.ret) <= fb(c)(D(q, c.old, c)))),
            ("reproducible", z3.And(c.ret == (z3.ToInt(draw(c)(st(c.old), D(q, c.old, c))) if integer else draw(c)(st(c.old), D(q, c.old, c))), st(c.new) == nxt(c)(st(c.old), D(q, c.old, c))))]))
        add(q + "max", 0, requires=wf, ensures=lambda c, q=q: P([("reports-its-bound", rl(c.ret) == fb(c)(D(q, c.old, c)))]))

    for cls in ("FixedDoubleDist", "FixedIntDist"):
        q = C + cls + "::"
        add(q + cls, 1, sig="(double)" if "Double" in cls else "(int)", exact=True, modifies=lambda c, q=q: [c.field(q + "value", [c.this])], ensures=lambda c, q=q: P([("keeps-its-value", c.new.f(q + "value", c.this) == c.arg(0))]))
        add(q + "sample", 0, exact=True, ensures=lambda c, q=q: P([("fixed", c.ret == c.old.f(q + "value", c.this))]))
    add(C + "FixedDoubleDist::max", 0, exact=True, ensures=lambda c: P([("fixed", c.ret == c.old.f(C + "FixedDoubleDist::value", c.this))]))

    bad = lambda f, lab, m: (lambda c: [Throws("cyclus::ValueError", f(c), label=lab, modifies=m)])
    for cls, n, when, flds, sig in (
            ("BinomialIntDist", 2, lambda c: z3.Or(c.arg(0) < 1, c.arg(1) > 1, c.arg(1) < 0), ("trials_", "p_success_"), "(int,double)"),
            ("NegativeBinomialIntDist", 2, lambda c: z3.Or(c.arg(0) < 1, c.arg(1) > 1, c.arg(1) < 0), ("successes_", "p_success_"), "(int,double)"),
            ("PoissonIntDist", 1, lambda c: c.arg(0) < 0, ("mean_",), "(double)"), ("ExponentialIntDist", 1, lambda c: c.arg(0) < 0, ("lambda_",), "(double)"),
            ("BinaryIntDist", 3, lambda c: c.arg(0) < 0, ("p_success_", "choice_a_", "choice_b_"), "(double,int,int)")):
        q = C + cls + "::"
        add(q + cls, n, sig=sig, throws=bad(when, "invalid-parameters", lambda c, q=q, flds=flds: [c.field(q + f, [c.this]) for f in flds + ("dist",)]), modifies=lambda c, q=q, flds=flds: [c.field(q + f, [c.this]) for f in flds + ("dist",)],
            ensures=lambda c, q=q, flds=flds: P([("keeps-its-parameters", z3.And(*[c.new.f(q + f, c.this) == c.arg(i) for i, f in enumerate(flds)]))]))
    for cls, m, f in (("BinomialIntDist", "trials", "trials_"), ("BinomialIntDist", "p", "p_success_"), ("NegativeBinomialIntDist", "successes", "successes_"), ("NegativeBinomialIntDist", "p", "p_success_"),
                      ("ExponentialIntDist", "lambda", "lambda_"), ("BinaryIntDist", "p", "p_success_")):
        q = C + cls + "::"
        add(q + m, 0, exact=True, ensures=lambda c, q=q, f=f: P([("reports-its-parameter", c.ret == c.old.f(q + f, c.this))]))
    q = C + "BinaryIntDist::"
    add(q + "sample", 0, modifies=gm, ensures=lambda c: P([("one-of-the-choices", z3.Or(c.ret == c.old.f(C + "BinaryIntDist::choice_a_", c.this), c.ret == c.old.f(C + "BinaryIntDist::choice_b_", c.this)))]))
    q2 = C + "BinomialIntDist::"
    add(q2 + "sample", 0, modifies=gm, requires=lambda c: [("constructed", fa(c)(D(q2, c.old, c)) == z3.ToReal(c.old.f(q2 + "trials_", c.this)))],
        ensures=lambda c: P([("within-bounds", z3.And(0 <= c.ret, c.ret <= c.old.f(q2 + "trials_", c.this)))]))
    return out
