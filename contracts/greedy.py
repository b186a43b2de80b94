"""Contracts on the exchange graph and the greedy solver (C10).

What the matches made so far take from nodes, groups and capacities is ghost
state, updated where a match is added (AddMatch); the solver's own accounts
(n_qty_, grp_caps_) are proved to agree with it and to stay within limits."""
import z3
from engine import *
from engine import DBLMAX
from lib import *

C = "cyclus::"
N, NG, RG, EG, GS, ES, A = C + "ExchangeNode::", C + "ExchangeNodeGroup::", C + "RequestGroup::", C + "ExchangeGraph::", C + "GreedySolver::", C + "ExchangeSolver::", C + "Arc"
SRCS = ["greedy_solver.cc", "exchange_graph.cc", "greedy_preconditioner.cc"]
ARC = StructSort(A, [("unode_", I), ("vnode_", I), ("exclusive_", B), ("excl_val_", R), ("pref_", R)])
KEY = PairSort(I, I)
SR, SN, SA = SeqSort(R), SeqSort(I), SeqSort(ARC)
UC, PREFS = MapSort(KEY, SR), MapSort(KEY, R)
NQ, GC, NAM = MapSort(I, R), MapSort(I, SR), MapSort(I, SA)
MATCH = PairSort(ARC, R)
MS = SeqSort(MATCH)
J, K, X = z3.Int("j!gr"), z3.Int("k!gr"), z3.Int("x!gr")
UN, UG, UCAP = "GHOST::used_node", "GHOST::used_group", "GHOST::used_cap"
NR, NRR = z3.ArraySort(I, R), z3.ArraySort(I, z3.ArraySort(I, R))


def CEPS(view): return view.g("cyclus::cy_eps", z3.RealSort())
def akey(a): return KEY.mk(ARC.f_unode_(a), ARC.f_vnode_(a))
def un(a): return ARC.f_unode_(a)
def vn(a): return ARC.f_vnode_(a)


def CFG():
    c = Config()
    c.value_classes = {A}
    c.branch_timeout = 150
    c.total_maps = {N + "unit_capacities": EMPTY, N + "prefs": z3.RealVal(0), GS + "n_qty_": z3.RealVal(0)}
    c.safety = c.safety - {"fdiv"}  # a zero coefficient is divided by before it is tested; the quotient is not used
    c.keyfn = {A: (lambda v, t: KEY, lambda v, t, x: x if x.sort() == KEY else akey(x))}
    return c


EMPTY = SR.mk(z3.IntVal(0), z3.IntVal(0), empty_arr(z3.ArraySort(I, R)))


def uc_at(m, k): return z3.Select(UC.val(m), k)
def slen(s): return SR.hi(s) - SR.lo(s)
AT = z3.Function("AT!gr", SR, I, R)  # the element, opaque to callers
def opaque(c): return c.calling or c.con.nparams in (1, 3) and "UpdateC" not in c.con.qn
def SAT(c, s, i): return AT(s, i) if opaque(c) else z3.Select(SR.arr(s), SR.lo(s) + i)


def ucaps(view, n, a): return uc_at(view.f(N + "unit_capacities", n), akey(a) if a.sort() == ARC else a)
def gcaps(view, s, g): return z3.Select(GC.val(view.f(GS + "grp_caps_", s)), g)
def in_gc(view, s, g): return z3.Select(GC.dom(view.f(GS + "grp_caps_", s)), g)


def same_uc(c): return same_uc2(c, c.old, c.new)
def nqv(m, x): return z3.Select(NQ.val(m), x)


def same_uc2(ctx, old, new):
    """no unit capacity changed (absent entries may have become empty ones)"""
    o, w = old.arr(N + "unit_capacities"), new.arr(N + "unit_capacities")
    w = new.v.named(ctx, w)
    return z3.ForAll([X], UC.val(z3.Select(w, X)) == UC.val(z3.Select(o, X)), patterns=[z3.Select(w, X)])


MUL = z3.Function("MUL!gr", R, R, R)  # the product, opaque to callers


def mul(c, x, y): return MUL(x, y) if opaque(c) else x * y


def mul_facts():
    x, y, u = z3.Reals("x!mul y!mul u!mul")
    return [z3.ForAll([x, y, u], z3.Implies(z3.And(x <= y, u >= 0), MUL(x, u) <= MUL(y, u)), patterns=[z3.MultiPattern(MUL(x, u), MUL(y, u))]),
            z3.ForAll([x, u], z3.And(z3.Implies(z3.And(x >= 0, u >= 0), MUL(x, u) >= 0), z3.Implies(u == 0, MUL(x, u) == 0)), patterns=[MUL(x, u)])]


def P(xs): return [("C10:" + n, g) for n, g in xs]
def mn(a, b): return z3.If(a <= b, a, b)


def expected_excl(u_ex, v_ex, uq, vq):
    return z3.If(z3.And(u_ex, v_ex), z3.If(uq == vq, uq, 0), z3.If(u_ex, z3.If(uq <= vq, uq, 0), z3.If(v_ex, z3.If(vq <= uq, vq, 0), z3.RealVal(0))))


def build():
    out = []
    add = lambda *a, **kw: out.append(Contract(*a, **{"prop": ["C10"], **kw}))
    nq = lambda view, n: view.f(N + "qty", n)
    ex = lambda view, n: view.f(N + "exclusive", n)

    # ---- arcs and the graph
    def this_arc(c): return ARC.mk(*[c.new.f(A + "::" + f, c.this) for f in ("unode_", "vnode_", "exclusive_", "excl_val_", "pref_")])

    arcmod = lambda c: [c.field(A + "::" + f, [c.this]) for f in ("unode_", "vnode_", "exclusive_", "excl_val_", "pref_")]

    def arc_ens(c):
        a = this_arc(c)
        u, v = c.arg(0), c.arg(1)
        return P([("ends", z3.And(un(a) == u, vn(a) == v)), ("exclusive", ARC.f_exclusive_(a) == z3.Or(ex(c.old, u), ex(c.old, v))),
                  ("exclusive-amount", ARC.f_excl_val_(a) == expected_excl(ex(c.old, u), ex(c.old, v), nq(c.old, u), nq(c.old, v)))])
    add(A + "::Arc", 2, exact=True, only_verify=True, modifies=arcmod, requires=lambda c: [("nodes", z3.And(c.arg(0) > 0, c.arg(1) > 0))], ensures=arc_ens)
    add(A + "::Arc", 1, exact=True, only_verify=True, modifies=arcmod, ensures=lambda c: P([("copy", this_arc(c) == c.arg(0))]))
    add(A + "::operator=", 1, exact=True, only_verify=True, modifies=arcmod, ensures=lambda c: P([("copy", this_arc(c) == c.arg(0))]))

    def ms(view, g): return view.f(EG + "matches_", g)

    def appended(o, n, x):
        j = z3.Int("j!ms")
        return z3.And(MS.lo(n) == MS.lo(o), MS.hi(n) == MS.hi(o) + 1, MS.arr(n) == z3.Store(MS.arr(o), MS.hi(o), x))

    add(EG + "AddMatch", 2, exact=True, only_verify=True, modifies=lambda c: [c.field(EG + "matches_", [c.this])],
        ensures=lambda c: P([("recorded", appended(ms(c.old, c.this), ms(c.new, c.this), MATCH.mk(c.arg(0), c.arg(1))))]))

    def used(view): return view.g(UN, NR), view.g(UG, NR), view.g(UCAP, NRR)

    def addm(c):
        a, q = c.arg(0), c.arg(1)
        n0, g0, c0 = used(c.old)
        n1, g1, c1 = used(c.new)
        u, v = un(a), vn(a)
        gu, gv = c.old.f(N + "group", u), c.old.f(N + "group", v)
        ua, va = ucaps(c.old, u, a), ucaps(c.old, v, a)
        return [("recorded", appended(ms(c.old, c.this), ms(c.new, c.this), MATCH.mk(a, q))),
                ("nodes", n1 == z3.Store(z3.Store(n0, u, z3.Select(n0, u) + q), v, z3.Select(n0, v) + q)),
                ("groups", g1 == z3.Store(g0, gu, z3.Select(g0, gu) + q)),
                ("caps", z3.ForAll([X, J], z3.Select(z3.Select(c1, X), J) == z3.Select(z3.Select(c0, X), J) + z3.If(
                    z3.And(X == gu, 0 <= J, J < slen(ua)), MUL(q, AT(ua, J)), z3.If(z3.And(X == gv, 0 <= J, J < slen(va)), MUL(q, AT(va, J)), z3.RealVal(0))),
                    patterns=[z3.Select(z3.Select(c1, X), J)]))]
    out.append(Contract(EG + "AddMatch", 2, assumed=True, exact=True, ensures=addm, modifies=lambda c: [c.field(EG + "matches_", [c.this]), c.glob(UN, NR), c.glob(UG, NR), c.glob(UCAP, NRR)]))

    # ---- capacities
    lim = lambda c, G, U, i: z3.Or(SAT(c, G, i) == DBLMAX, SAT(c, U, i) == 0)

    def cap_req(c):
        n, a = c.arg(0), c.arg(1)
        U, G = ucaps(c.old, n, a), gcaps(c.old, c.this, c.old.f(N + "group", n))
        return [("node", n > 0), ("accounts", z3.Implies(c.old.f(N + "group", n) != 0, z3.And(in_gc(c.old, c.this, c.old.f(N + "group", n)), slen(G) >= slen(U), slen(U) >= 0))),
                ("coefficients", z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < slen(U)), SAT(c, U, J) >= 0)))]

    def cap_ens(c):
        n, a, mc, cur = c.arg(0), c.arg(1), c.arg(2), c.arg(3)
        U, G = ucaps(c.old, n, a), gcaps(c.old, c.this, c.old.f(N + "group", n))
        rest = nq(c.old, n) - cur
        return P([("node-quantity", c.ret <= rest), ("unconstrained", z3.Implies(slen(U) == 0, c.ret == rest)),
                  ("every-capacity", z3.Implies(mc, z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < slen(U), z3.Not(lim(c, G, U, J))), mul(c, c.ret, SAT(c, U, J)) <= SAT(c, G, J))))),
                  ("constrained-only-by-these", z3.Or(c.ret == rest, z3.Exists([J], z3.And(0 <= J, J < slen(U), z3.Or(z3.And(lim(c, G, U, J), c.ret == DBLMAX), z3.And(z3.Not(lim(c, G, U, J)), mul(c, c.ret, SAT(c, U, J)) == SAT(c, G, J))))))),
                  ("largest-for-requests", z3.Implies(z3.Not(mc), z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < slen(U)), z3.Or(c.ret == rest, z3.If(
                      lim(c, G, U, J), c.ret >= DBLMAX, mul(c, c.ret, SAT(c, U, J)) >= SAT(c, G, J))))))),
                  ("unit-capacities-kept", same_uc(c)), ("accounts-kept", z3.Implies(in_gc(c.old, c.this, c.old.f(N + "group", n)), c.new.f(GS + "grp_caps_", c.this) == c.old.f(GS + "grp_caps_", c.this)))])

    def cap_loop(L):
        c = L.c
        n, a = c.arg(0), c.arg(1)
        U, G = ucaps(c.old, n, a), gcaps(c.old, c.this, c.old.f(N + "group", n))
        i = L.acc(I, "i")
        caps = L.acc(SR, "caps")
        Ar = L.v.named(L, SR.arr(caps))
        return [("range", z3.And(0 <= i, i <= slen(U), SR.lo(caps) == 0, SR.hi(caps) == i)),
                ("quotients", z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < i), z3.If(lim(c, G, U, J), z3.Select(Ar, J) == DBLMAX, z3.Select(Ar, J) * SAT(c, U, J) == SAT(c, G, J))), patterns=[z3.Select(Ar, J)]))]

    nogroup = lambda c: [Throws("cyclus::StateError", c.old.f(N + "group", c.arg(0)) == 0, label="no-group")]
    add(GS + "Capacity", 4, requires=cap_req, throws=nogroup, ensures=cap_ens, loops={0: cap_loop},
        modifies=lambda c: [c.field(N + "unit_capacities", [c.arg(0)])])

    def cap3_ens(c):
        if not c.calling: c.fact(*mul_facts())
        a = c.arg(0)
        U, G = ucaps(c.old, vn(a), a), gcaps(c.old, c.this, c.old.f(N + "group", vn(a)))
        return P([("request-quantity", c.ret <= nq(c.old, un(a)) - c.arg(1)), ("bid-quantity", c.ret <= nq(c.old, vn(a)) - c.arg(2)),
                  ("every-supply-capacity", z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < slen(U), z3.Not(lim(c, G, U, J))), MUL(c.ret, SAT(c, U, J)) <= SAT(c, G, J)))),
                  ("unit-capacities-kept", same_uc(c))])

    def end_ok(c, n, a):
        U, g = ucaps(c.old, n, a), c.old.f(N + "group", n)
        G = gcaps(c.old, c.this, g)
        return z3.And(n > 0, g != 0, in_gc(c.old, c.this, g), slen(G) == slen(U), slen(U) >= 0,
                      z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < slen(U)), SAT(c, U, J) >= 0)))
    add(GS + "Capacity", 3, sig="Capacity(const cyclus::Arc &,double,double)", requires=lambda c: [("request-node", end_ok(c, un(c.arg(0)), c.arg(0))), ("bid-node", end_ok(c, vn(c.arg(0)), c.arg(0)))], ensures=cap3_ens,
        modifies=lambda c: [c.field(N + "unit_capacities", [un(c.arg(0)), vn(c.arg(0))])])

    def after(c, G0, U, q, G1):
        return z3.And(slen(G1) == slen(G0), z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < slen(G0)),
                      SAT(c, G1, J) == z3.If(SAT(c, G0, J) == DBLMAX, DBLMAX, SAT(c, G0, J) - mul(c, q, SAT(c, U, J)))), patterns=[SAT(c, G1, J)]))

    def up_ens(c):
        n, a, q = c.arg(0), c.arg(1), c.arg(2)
        g = c.old.f(N + "group", n)
        m0, m1 = c.old.f(GS + "grp_caps_", c.this), c.new.f(GS + "grp_caps_", c.this)
        W1 = c.v.named(c, GC.val(m1))
        return P([("capacities", after(c, gcaps(c.old, c.this, g), ucaps(c.old, n, a), q, gcaps(c.new, c.this, g))),
                  ("other-groups", z3.And(GC.dom(m1) == GC.dom(m0), z3.ForAll([X], z3.Implies(X != g, z3.Select(W1, X) == z3.Select(GC.val(m0), X)), patterns=[z3.Select(W1, X)]))),
                  ("unit-capacities-kept", same_uc(c))])

    upmod = lambda c: [c.field(N + "unit_capacities", [c.arg(0)]), c.field(GS + "grp_caps_", [c.this])]

    def up_loop(L):
        c = L.c
        n, a, q = c.arg(0), c.arg(1), c.arg(2)
        g = c.old.f(N + "group", n)
        G0, U = gcaps(c.old, c.this, g), ucaps(c.old, n, a)
        G1 = gcaps(L.S, c.this, g)
        m0, m1 = L.E.f(GS + "grp_caps_", c.this), L.S.f(GS + "grp_caps_", c.this)
        i = L.pos("i")
        A1 = L.v.named(L, SR.arr(G1))
        return [("range", z3.And(0 <= i, i <= slen(G0), SR.lo(G1) == SR.lo(G0), SR.hi(G1) == SR.hi(G0))),
                ("done", z3.ForAll([J], z3.Implies(z3.And(SR.lo(G0) <= J, J < SR.hi(G0)), z3.Select(A1, J) == z3.If(z3.And(J - SR.lo(G0) < i, z3.Select(SR.arr(G0), J) != DBLMAX),
                    z3.Select(SR.arr(G0), J) - q * SAT(c, U, J - SR.lo(G0)), z3.Select(SR.arr(G0), J))), patterns=[z3.Select(A1, J)])),
                ("others", z3.ForAll([X], z3.And(z3.Select(GC.dom(m1), X) == z3.Select(GC.dom(m0), X), z3.Implies(X != g, z3.Select(GC.val(m1), X) == z3.Select(GC.val(m0), X)))))]
    add(GS + "UpdateCapacity", 3, requires=lambda c: [("node", end_ok(c, c.arg(0), c.arg(1)))], ensures=up_ens, loops={0: up_loop},
        throws=lambda c: [Throws("cyclus::ValueError", nq(c.old, c.arg(0)) - c.arg(2) < -CEPS(c.old), label="more-than-offered", modifies=upmod)], modifies=upmod)

    # ---- the order in which arcs are tried
    def pref(view, a):
        m = view.f(N + "prefs", un(a))
        return z3.Select(PREFS.val(m), akey(a))

    def req_comp(c):
        l, r = c.arg(0), c.arg(1)
        pl, pr = pref(c.old, l), pref(c.old, r)
        return P([("preferred-first", z3.Implies(pl > pr, c.ret)), ("less-preferred-later", z3.Implies(pl < pr, z3.Not(c.ret)))])
    add(C + "ReqPrefComp", 2, requires=lambda c: [("arcs", z3.And(*[f(x) > 0 for f in (un, vn) for x in (c.arg(0), c.arg(1))]))], ensures=req_comp,
        modifies=lambda c: [c.field(N + "prefs", [un(c.arg(0)), un(c.arg(1))])])

    # ---- the accounts at the start
    def nodes(view, g): return view.f(NG + "nodes_", g)

    def getcaps(c):
        g = c.arg(0)
        ns = nodes(c.old, g)
        q0, q1 = c.old.f(GS + "n_qty_", c.this), c.new.f(GS + "n_qty_", c.this)
        m0, m1 = c.old.f(GS + "grp_caps_", c.this), c.new.f(GS + "grp_caps_", c.this)
        return P([("nothing-used-yet", z3.ForAll([J], z3.Implies(z3.And(SN.lo(ns) <= J, J < SN.hi(ns)), nqv(q1, z3.Select(SN.arr(ns), J)) == 0))),
                  ("other-nodes", z3.ForAll([X], z3.Or(nqv(q1, X) == nqv(q0, X), nqv(q1, X) == 0))),
                  ("capacities", z3.And(z3.Select(GC.dom(m1), g), z3.Select(GC.val(m1), g) == c.old.f(NG + "capacities_", g))),
                  ("other-groups", z3.ForAll([X], z3.Implies(X != g, z3.And(z3.Select(GC.dom(m1), X) == z3.Select(GC.dom(m0), X), z3.Select(GC.val(m1), X) == z3.Select(GC.val(m0), X)))))])

    def gc_loop(L):
        c = L.c
        ns = nodes(c.old, c.arg(0))
        q0, q1 = c.old.f(GS + "n_qty_", c.this), L.S.f(GS + "n_qty_", c.this)
        i = L.pos("i")
        L.fact(SN.lo(ns) <= SN.hi(ns))
        return [("range", z3.And(0 <= i, i <= SN.hi(ns) - SN.lo(ns))),
                ("zeroed", z3.ForAll([J], z3.Implies(z3.And(SN.lo(ns) <= J, J < SN.lo(ns) + i), nqv(q1, z3.Select(SN.arr(ns), J)) == 0))),
                ("others", z3.ForAll([X], z3.Or(nqv(q1, X) == nqv(q0, X), nqv(q1, X) == 0)))]
    add(GS + "GetCaps", 1, requires=lambda c: [("group", c.arg(0) > 0)], ensures=getcaps, loops={0: gc_loop},
        modifies=lambda c: [c.field(GS + "n_qty_", [c.this]), c.field(GS + "grp_caps_", [c.this])])

    # ---- one request group
    isarc = z3.Function("isarc!gr", ARC, B)
    a_ = z3.Const("a!gr", ARC)

    def wf_arc(c, a):
        gu, gv = c.old.f(N + "group", un(a)), c.old.f(N + "group", vn(a))
        return z3.And(end_ok(c, un(a), a), end_ok(c, vn(a), a), un(a) != vn(a), gu == c.arg(0), gu != gv)

    def set_req(c):
        if not c.calling: c.fact(*mul_facts())
        g, gr = c.arg(0), c.old.f(ES + "graph_", c.this)
        ns = nodes(c.old, g)
        nam = c.old.f(EG + "node_arc_map_", gr)
        arcs = lambda x: z3.Select(NAM.val(nam), x)
        gc = c.old.f(GS + "grp_caps_", c.this)
        q = c.old.f(GS + "n_qty_", c.this)
        return [("tolerance", CEPS(c.old) >= 0), ("group", z3.And(g > 0, gr > 0, c.old.f(RG + "qty_", g) >= 0, c.old.f(RG + "qty_", g) <= DBLMAX)),
                ("nodes", z3.ForAll([J], z3.Implies(z3.And(SN.lo(ns) <= J, J < SN.hi(ns)), z3.Select(SN.arr(ns), J) > 0))),
                ("arcs", z3.ForAll([J, K], z3.Implies(z3.And(SN.lo(ns) <= J, J < SN.hi(ns), z3.Select(NAM.dom(nam), z3.Select(SN.arr(ns), J)),
                    SA.lo(arcs(z3.Select(SN.arr(ns), J))) <= K, K < SA.hi(arcs(z3.Select(SN.arr(ns), J)))), isarc(z3.Select(SA.arr(arcs(z3.Select(SN.arr(ns), J))), K))))),
                ("arcs-well-formed", z3.ForAll([a_], z3.Implies(isarc(a_), wf_arc(c, a_)), patterns=[isarc(a_)])),
                ("accounts", z3.ForAll([X], nqv(q, X) >= 0)),
                ("capacities", z3.ForAll([X, J], z3.Implies(z3.And(z3.Select(GC.dom(gc), X), 0 <= J, J < slen(z3.Select(GC.val(gc), X))), SAT(c, z3.Select(GC.val(gc), X), J) <= DBLMAX)))]

    def progress(c, L, view, match):
        """what holds of the accounts after matching `match` so far"""
        g, gr = c.arg(0), c.old.f(ES + "graph_", c.this)
        nm = lambda x: view.v.named(L, x)
        q0, q1 = NQ.val(c.old.f(GS + "n_qty_", c.this)), nm(NQ.val(view.f(GS + "n_qty_", c.this)))
        m0, m1 = c.old.f(GS + "grp_caps_", c.this), view.f(GS + "grp_caps_", c.this)
        n0, g0, c0 = used(c.old)
        n1, g1, c1 = map(nm, used(view))
        ms0, ms1 = ms(c.old, gr), ms(view, gr)
        W0, W1, D0, D1 = GC.val(m0), nm(GC.val(m1)), GC.dom(m0), nm(GC.dom(m1))
        V0, V1 = lambda x: z3.Select(W0, x), lambda x: z3.Select(W1, x)
        inr = z3.And(z3.Select(D0, X), 0 <= J, J < slen(V0(X)))
        ar = nm(MS.arr(ms1))
        MA = z3.Select(ar, J)
        S = z3.Select
        fa = lambda vs, body, pat: z3.ForAll(vs, body, patterns=[pat])
        mine = z3.And(MS.hi(ms0) <= J, J < MS.hi(ms1))
        return [("account-of-nodes", fa([X], S(q1, X) - S(q0, X) == S(n1, X) - S(n0, X), S(q1, X))),
                ("nodes-within-their-quantity", fa([X], z3.And(S(q1, X) >= S(q0, X), z3.Or(S(q1, X) == S(q0, X), S(q1, X) <= nq(c.old, X))), S(q1, X))),
                ("request-within-its-quantity", z3.And(S(g1, g) - S(g0, g) == match, 0 <= match, match <= c.old.f(RG + "qty_", g))),
                ("other-requests-untouched", fa([X], z3.Implies(X != g, S(g1, X) == S(g0, X)), S(g1, X))),
                ("same-capacities", fa([X], S(D1, X) == S(D0, X), S(D1, X))),
                ("same-number-of-capacities", fa([X], z3.Implies(S(D0, X), slen(V1(X)) == slen(V0(X))), S(W1, X))),
                ("unlimited-stays-unlimited", fa([X, J], z3.Implies(inr, z3.And(SAT(c, V1(X), J) <= SAT(c, V0(X), J), (SAT(c, V1(X), J) == DBLMAX) == (SAT(c, V0(X), J) == DBLMAX))), SAT(c, V1(X), J))),
                ("account-of-capacities", fa([X, J], z3.Implies(z3.And(inr, SAT(c, V0(X), J) != DBLMAX), SAT(c, V1(X), J) == SAT(c, V0(X), J) - (S(S(c1, X), J) - S(S(c0, X), J))), SAT(c, V1(X), J))),
                ("supply-within-its-capacities", fa([X, J], z3.Implies(z3.And(inr, X != g, SAT(c, V0(X), J) >= 0), SAT(c, V1(X), J) >= 0), SAT(c, V1(X), J))),
                ("earlier-matches-kept", z3.And(MS.lo(ms1) == MS.lo(ms0), MS.hi(ms1) >= MS.hi(ms0), fa([J], z3.Implies(z3.And(MS.lo(ms0) <= J, J < MS.hi(ms0)), MA == S(MS.arr(ms0), J)), MA))),
                ("matches-use-arcs-of-the-graph", fa([J], z3.Implies(mine, isarc(MATCH.first(MA))), MA)),
                ("matches-are-positive", fa([J], z3.Implies(mine, MATCH.second(MA) > 0), MA)),
                ("exclusive-matches-are-exact", fa([J], z3.Implies(z3.And(mine, ARC.f_exclusive_(MATCH.first(MA))), MATCH.second(MA) == ARC.f_excl_val_(MATCH.first(MA))), MA)),
                ("unit-capacities-kept", same_uc2(L, c.old, view))]

    def set_ens(c):
        u0, u1 = c.old.f(GS + "unmatched_", c.this), c.new.f(GS + "unmatched_", c.this)
        return P(progress(c, c, c.new, c.old.f(RG + "qty_", c.arg(0)) - (u1 - u0)))

    def set_loop(inner):
        def inv(L):
            c = L.c
            xs = progress(c, L, L.S, L.acc(R, "match"))
            ns0, ns = nodes(c.old, c.arg(0)), nodes(L.S, c.arg(0))
            if inner:
                srt = L.var("sorted")
                xs.append(("to-try", z3.ForAll([J], z3.Implies(z3.And(SA.lo(srt) <= J, J < SA.hi(srt)), isarc(z3.Select(SA.arr(srt), J))))))
                it = L.it
                xs.append(("position", z3.And(SA.lo(srt) <= it.idx, it.idx <= SA.hi(srt))))
            else:
                it = L.var("req_it")
                L.fact(SN.lo(ns) <= SN.hi(ns))
                xs.append(("position", z3.And(SN.lo(ns) <= it.idx, it.idx <= SN.hi(ns))))
            return xs
        return inv
    add(GS + "GreedilySatisfySet", 1, requires=set_req, ensures=set_ens, loops={0: set_loop(False), 1: set_loop(True)}, budget=120, modes=("inv",),
        modifies=lambda c: [c.field(f, None) for f in (N + "unit_capacities", N + "prefs")] + [c.field(NG + "nodes_", [c.arg(0)])]
        + [c.field(GS + f, [c.this]) for f in ("grp_caps_", "n_qty_", "unmatched_", "obj_")] + [c.field(EG + "matches_", [c.old.f(ES + "graph_", c.this)])]
        + [c.glob(UN, NR), c.glob(UG, NR), c.glob(UCAP, NRR)])
    return out
