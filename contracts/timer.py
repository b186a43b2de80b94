"""Contracts on the timer and the context's scheduling calls (C08).

What agents are told (ticks, tocks, decisions, builds, decommissionings) and
which phases a run performs are ghost counters and logs.  Agents are user code:
during a phase they may schedule, kill or ask for a snapshot, but they do not
write the timer's clock and do not change the set of listeners within the
phase that is calling them."""
import z3
from engine import *
from lib import *

C = "cyclus::"
T, TL, AG = C + "Timer::", C + "TimeListener::", C + "Agent::"
SRCS = ["timer.cc", "context.cc"]
ENT = PairSort(I, I)
BQ, DQ, LST = SeqSort(ENT), SeqSort(I), SeqSort(I)
MB, MD, MT = MapSort(I, BQ), MapSort(I, DQ), MapSort(I, I)
X, J, K, U = z3.Int("x!tm"), z3.Int("j!tm"), z3.Int("k!tm"), z3.Int("u!tm")
S = z3.Select
AI = z3.ArraySort(I, I)
TICKS, TOCKS, DECIDED, BUILT, TOLD, GONE, WARNED = ["GHOST::" + x for x in ("ticks", "tocks", "decided", "built", "told_build", "gone", "told_gone")]
LB = SeqSort(ENT)
EVT = PairSort(I, PairSort(I, B))
PH = "GHOST::phases"
LPH = SeqSort(EVT)
ghost("ghost::Agent.proto", I)
ghost("ghost::Agent.shim", B)


SIF = ["handle", "decay", "duration", "y0", "m0", "parent_sim", "parent_type", "branch_time", "dt", "eps", "eps_rsrc", "explicit_inventory", "explicit_inventory_compact", "seed", "stride"]


def SI(c, f): return c.old.f(C + "SimInfo::" + f, c.arg(1))


def P(xs): return [("C08:" + n, g) for n, g in xs]


def CFG():
    c = Config()
    c.total_maps = {T + "build_queue_": BQ.mk(z3.IntVal(0), z3.IntVal(0), empty_arr(z3.ArraySort(I, ENT))),
                    T + "decom_queue_": DQ.mk(z3.IntVal(0), z3.IntVal(0), empty_arr(AI))}
    return c


def app(c, srt, o, n, x):
    n = c.v.named(c, n)
    return z3.And(srt.lo(n) == srt.lo(o), srt.hi(n) == srt.hi(o) + 1, S(srt.arr(n), srt.hi(o)) == x,
                  z3.ForAll([J], z3.Implies(z3.And(srt.lo(o) <= J, J < srt.hi(o)), S(srt.arr(n), J) == S(srt.arr(o), J)), patterns=[S(srt.arr(n), J)]))


def build():
    out = record_contracts()
    add = lambda *a, **kw: out.append(Contract(*a, **{"prop": ["C08"], **kw}))
    asm = lambda *a, **kw: out.append(Contract(*a, **{"assumed": True, "exact": True, **kw}))
    tm = lambda view, r: view.f(T + "time_", r)
    bq, dq = lambda view, r: view.f(T + "build_queue_", r), lambda view, r: view.f(T + "decom_queue_", r)
    lid = lambda view, x: view.v.ufun("listener_id", I, I)(x)
    shim = lambda view, x: view.v.ufun("is_shim", I, B)(x)

    # ---------------------------------------------------------- schedules --
    def sb_ens(c, tmr=None):
        tmr = c.this if tmr is None else tmr
        proto, parent, t = (c.arg(1), c.arg(0), c.arg(2))
        return _sb(c, tmr, proto, parent, t)

    def _sb(c, tmr, proto, parent, t):
        V0, V1 = MB.val(bq(c.old, tmr)), c.v.named(c, MB.val(bq(c.new, tmr)))
        return [("queued-last-at-its-time", app(c, BQ, S(V0, t), S(V1, t), ENT.mk(proto, parent))),
                ("other-times-kept", z3.ForAll([U], z3.Implies(U != t, S(V1, U) == S(V0, U)), patterns=[S(V1, U)]))]
    qwf = lambda c, r: [("queues", z3.And(z3.ForAll([U], BQ.lo(S(MB.val(bq(c.old, r)), U)) <= BQ.hi(S(MB.val(bq(c.old, r)), U)), patterns=[S(MB.val(bq(c.old, r)), U)]),
                                          z3.ForAll([U], DQ.lo(S(MD.val(dq(c.old, r)), U)) <= DQ.hi(S(MD.val(dq(c.old, r)), U)), patterns=[S(MD.val(dq(c.old, r)), U)])))]
    add(T + "SchedBuild", 3, requires=lambda c: qwf(c, c.this), ensures=lambda c: P(sb_ens(c)), modifies=lambda c: [c.field(T + "build_queue_", [c.this])],
        throws=lambda c: [Throws("cyclus::ValueError", c.arg(2) <= tm(c.old, c.this), must=True, label="C08:only-the-future")])

    # where each agent is queued to go: a function of the agent, since it is queued at most once
    at, pl = z3.Function("decomAt", I, I), z3.Function("decomPos", I, I)

    def once(c, r):
        V = MD.val(dq(c.old, r))
        e = S(DQ.arr(S(V, U)), K)
        return qwf(c, r) + [("queued-at-most-once", z3.ForAll([U, K], z3.Implies(z3.And(DQ.lo(S(V, U)) <= K, K < DQ.hi(S(V, U))), z3.And(at(e) == U, pl(e) == K, S(MD.dom(dq(c.old, r)), U))), patterns=[e]))]

    def sd_ens(c, tmr, m, t):
        V0, V1 = MD.val(dq(c.old, tmr)), c.v.named(c, MD.val(dq(c.new, tmr)))
        A, p = at(m), pl(m)
        q = S(V0, A)
        was = z3.And(DQ.lo(q) <= p, p < DQ.hi(q), S(DQ.arr(q), p) == m)
        n = lambda u: DQ.hi(S(V0, u)) - z3.If(z3.And(was, u == A), 1, 0)
        k1 = lambda u: z3.If(z3.And(was, u == A, K >= p), K + 1, K)
        return [("at-its-time-and-nowhere-else", z3.ForAll([U], z3.And(DQ.lo(S(V1, U)) == DQ.lo(S(V0, U)), DQ.hi(S(V1, U)) == n(U) + z3.If(U == t, 1, 0)), patterns=[S(V1, U)])),
                ("queued-last", S(DQ.arr(S(V1, t)), n(t)) == m),
                ("others-kept", z3.ForAll([U, K], z3.Implies(z3.And(DQ.lo(S(V0, U)) <= K, K < n(U)), S(DQ.arr(S(V1, U)), K) == S(DQ.arr(S(V0, U)), k1(U))), patterns=[S(DQ.arr(S(V1, U)), K)]))]

    def sd_outer(L):
        c = L.c
        m = c.arg(0)
        q0 = dq(c.old, c.this)
        D = MD.dom(q0)
        i = L.pos("it")
        idx = L.v.enum_fn(D)[1]
        V = MD.val(q0)
        e = S(DQ.arr(S(V, U)), K)
        return [("range", z3.And(0 <= i, i <= MD.size(q0))), ("nothing-yet", z3.And(dq(L.S, c.this) == q0, z3.Not(L.var("done")))),
                ("not-seen", z3.ForAll([U, K], z3.Implies(z3.And(S(D, U), idx(D, U) < i, DQ.lo(S(V, U)) <= K, K < DQ.hi(S(V, U))), e != m), patterns=[e]))]

    def sd_inner(L):
        c = L.c
        i = L.acc(I, "i")
        ags = L.var("ags")
        return [("range", z3.And(0 <= i, i <= DQ.hi(ags) - DQ.lo(ags), ags == L.var0("ags"), dq(L.S, c.this) == dq(c.old, c.this), z3.Not(L.var("done")))),
                ("not-seen", z3.ForAll([K], z3.Implies(z3.And(DQ.lo(ags) <= K, K < DQ.lo(ags) + i), S(DQ.arr(ags), K) != c.arg(0)), patterns=[S(DQ.arr(ags), K)]))]
    add(T + "SchedDecom", 2, requires=lambda c: once(c, c.this) + [("agent", c.arg(0) > 0)], ensures=lambda c: P(sd_ens(c, c.this, c.arg(0), c.arg(1))), loops={0: sd_outer, 1: sd_inner},
        modifies=lambda c: [c.field(T + "decom_queue_", [c.this])],
        throws=lambda c: [Throws("cyclus::ValueError", c.arg(1) < tm(c.old, c.this), must=True, label="C08:not-in-the-past")])

    # ---------------------------------------------------------- listeners --
    for q in (C + "Ider::id", TL + "id", AG + "id"):
        out.append(pure(q, 0, lambda c: lid(c.old, c.this)))
    out.append(pure(TL + "IsShim", 0, lambda c: shim(c.old, c.this)))
    tk = lambda view, r: view.f(T + "tickers_", r)
    cpp, py = lambda view, r: view.f(T + "cpp_tickers_", r), lambda view, r: view.f(T + "py_tickers_", r)
    lf = lambda c: [c.field(T + f, [c.this]) for f in ("tickers_", "cpp_tickers_", "py_tickers_")]

    def reg_ens(c):
        a = c.arg(0)
        m0, m1 = tk(c.old, c.this), c.v.named(c, tk(c.new, c.this))
        k = lid(c.old, a)
        known = z3.And(S(MT.dom(m0), k), S(MT.val(m0), k) == a)
        xs = [("listens-under-its-id", z3.And(S(MT.dom(m1), k), S(MT.val(m1), k) == a)),
              ("others-kept", z3.ForAll([X], z3.Implies(X != k, z3.And(S(MT.dom(m1), X) == S(MT.dom(m0), X), z3.Implies(S(MT.dom(m0), X), S(MT.val(m1), X) == S(MT.val(m0), X)))), patterns=[S(MT.dom(m1), X)]))]
        for nm, f, cond in (("plain", cpp, z3.Not(shim(c.old, a))), ("shim", py, shim(c.old, a))):
            o, n = f(c.old, c.this), c.v.named(c, f(c.new, c.this))
            xs.append((nm + "-called-once", z3.If(z3.And(z3.Not(known), cond), app(c, LST, o, n, a), n == o)))
        return P(xs)
    add(T + "RegisterTimeListener", 1, requires=lambda c: [("listener", c.arg(0) > 0)], ensures=reg_ens, modifies=lf)

    place = z3.Function("listenerAt", I, I)

    def distinct(c, r):
        xs = []
        for nm, f in (("plain", cpp), ("shim", py)):
            q = f(c.old, r)
            e = S(LST.arr(q), K)
            xs.append((nm + "-distinct", z3.And(LST.lo(q) == 0, LST.hi(q) >= 0, z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < LST.hi(q)),
                z3.And(e > 0, shim(c.old, e) == z3.BoolVal(nm == "shim"), place(e) == K)), patterns=[e]))))
        return xs

    def unreg_ens(c):
        a = c.arg(0)
        m0, m1 = tk(c.old, c.this), c.v.named(c, tk(c.new, c.this))
        k = lid(c.old, a)
        xs = [("gone-under-its-id", z3.Not(S(MT.dom(m1), k))),
              ("others-kept", z3.ForAll([X], z3.Implies(X != k, z3.And(S(MT.dom(m1), X) == S(MT.dom(m0), X), z3.Implies(S(MT.dom(m0), X), S(MT.val(m1), X) == S(MT.val(m0), X)))), patterns=[S(MT.dom(m1), X)]))]
        p = place(a)
        for nm, f in (("plain", cpp), ("shim", py)):
            o, n = f(c.old, c.this), c.v.named(c, f(c.new, c.this))
            was = z3.And(0 <= p, p < LST.hi(o), S(LST.arr(o), p) == a)
            xs.append((nm + "-no-longer-called", z3.And(LST.lo(n) == 0, LST.hi(n) == LST.hi(o) - z3.If(was, 1, 0),
                z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < LST.hi(n)), S(LST.arr(n), K) == S(LST.arr(o), z3.If(z3.And(was, K >= p), K + 1, K))), patterns=[S(LST.arr(n), K)]))))
        return P(xs)
    add(T + "UnregisterTimeListener", 1, requires=lambda c: [("listener", c.arg(0) > 0)] + distinct(c, c.this), ensures=unreg_ens, modifies=lf)

    cnt = lambda view, g: view.g(g, AI)
    user = lambda c: [c.field(T + f) for f in ("build_queue_", "decom_queue_", "want_kill_", "want_snapshot_")]
    for m, g in (("Tick", TICKS), ("Tock", TOCKS)):
        asm(TL + m, 0, ensures=lambda c, g=g: [("counted", cnt(c.new, g) == z3.Store(cnt(c.old, g), c.this, S(cnt(c.old, g), c.this) + 1))], modifies=lambda c, g=g: [c.glob(g, AI)] + user(c))

    def called(c, ctx, view, g, ncpp, npy):
        n1 = view.v.named(ctx, cnt(view, g))
        mem = lambda f, n: z3.And(0 <= place(X), place(X) < n, S(LST.arr(f(c.old, c.this)), place(X)) == X)
        return [("everyone-once", z3.ForAll([X], S(n1, X) == S(cnt(c.old, g), X) + z3.If(z3.Or(mem(cpp, ncpp), mem(py, npy)), 1, 0), patterns=[S(n1, X)]))]
    ncpp, npy = lambda c: LST.hi(cpp(c.old, c.this)), lambda c: LST.hi(py(c.old, c.this))

    def tick_py(g):
        def f(L):
            c = L.c
            i = L.pos()
            return [("range", z3.And(0 <= i, i <= npy(c)))] + called(c, L, L.S, g, z3.IntVal(0), i)
        return f

    def tick_cpp(g):
        def f(L):
            c = L.c
            i = L.acc(I, "i")
            return [("range", z3.And(0 <= i, i <= ncpp(c)))] + called(c, L, L.S, g, i, npy(c))
        return f
    for m, g in (("DoTick", TICKS), ("DoTock", TOCKS)):
        rq = distinct
        if m == "DoTock":
            rq = lambda c, r: distinct(c, r) + [("no-explicit-inventory", z3.Not(z3.Or(c.old.f(C + "SimInfo::explicit_inventory", c.old.sub(T + "si_", r)), c.old.f(C + "SimInfo::explicit_inventory_compact", c.old.sub(T + "si_", r)))))]
        add(T + m, 0, only_verify=True, requires=lambda c, rq=rq: rq(c, c.this), loops={0: tick_py(g), 1: tick_cpp(g)}, modifies=lambda c, g=g: [c.glob(g, AI)] + user(c),
            ensures=lambda c, g=g: P(called(c, c, c.new, g, ncpp(c), npy(c))))

    # decisions, in order of id
    seq = lambda view, g, srt=LST: view.g(g, srt)
    def pushed(c, g, x, srt=LST):
        o, n = seq(c.old, g, srt), seq(c.new, g, srt)
        return n == srt.mk(srt.lo(o), srt.hi(o) + 1, z3.Store(srt.arr(o), srt.hi(o), x))
    asm(TL + "Decision", 0, ensures=lambda c: [("logged", pushed(c, DECIDED, c.this))], modifies=lambda c: [c.glob(DECIDED, LST)] + user(c))

    def decided(c, ctx, view, n):
        m = tk(c.old, c.this)
        kat = view.v.enum_fn(MT.dom(m))[0]
        o, w = seq(c.old, DECIDED), seq(view, DECIDED)
        wa = view.v.named(ctx, LST.arr(w))
        return [("everyone-once-by-id", z3.And(LST.lo(w) == LST.lo(o), LST.hi(w) == LST.hi(o) + n,
                 z3.ForAll([J], S(wa, J) == z3.If(z3.And(LST.hi(o) <= J, J < LST.hi(o) + n), S(MT.val(m), kat(MT.dom(m), J - LST.hi(o))), S(LST.arr(o), J)), patterns=[S(wa, J)])))]

    def dec_loop(L):
        c = L.c
        m = tk(c.old, c.this)
        i = L.pos("agent")
        return [("range", z3.And(0 <= i, i <= MT.size(m)))] + decided(c, L, L.S, i)
    def tk_req(c):
        m = tk(c.old, c.this)
        return [("listeners", z3.ForAll([X], z3.Implies(S(MT.dom(m), X), S(MT.val(m), X) > 0), patterns=[S(MT.val(m), X)]))]
    add(T + "DoDecision", 0, only_verify=True, requires=tk_req, loops={0: dec_loop}, modifies=lambda c: [c.glob(DECIDED, LST)] + user(c), ensures=lambda c: P(decided(c, c, c.new, MT.size(tk(c.old, c.this)))))

    # ------------------------------------------------------ building, going --
    proto = lambda view, a: view.f("ghost::Agent.proto", a)
    asm(C + "Context::CreateAgent", 1, allocs=True, ensures=lambda c: [fresh_ret(c), ("proto", proto(c.new, c.ret) == c.arg(0))], modifies=lambda c: [c.field("ghost::Agent.proto", only_fresh=True)])
    asm(AG + "Build", 1, ensures=lambda c: [("logged", pushed(c, BUILT, ENT.mk(proto(c.old, c.this), c.arg(0)), LB))], modifies=lambda c: [c.glob(BUILT, LB)] + user(c) + lfall(c))
    lfall = lambda c: [c.field(T + f) for f in ("tickers_", "cpp_tickers_", "py_tickers_")]
    asm(AG + "BuildNotify", 1, ensures=lambda c: [("logged", pushed(c, TOLD, ENT.mk(c.this, proto(c.old, c.arg(0))), LB))], modifies=lambda c: [c.glob(TOLD, LB)] + user(c))

    def built(c, ctx, view, n):
        q = S(MB.val(bq(c.old, c.this)), tm(c.old, c.this))
        o, w = seq(c.old, BUILT, LB), seq(view, BUILT, LB)
        wa = view.v.named(ctx, LB.arr(w))
        return [("each-once-in-order", z3.And(LB.lo(w) == LB.lo(o), LB.hi(w) == LB.hi(o) + n,
                 z3.ForAll([J], S(wa, J) == z3.If(z3.And(LB.hi(o) <= J, J < LB.hi(o) + n), S(BQ.arr(q), BQ.lo(q) + J - LB.hi(o)), S(LB.arr(o), J)), patterns=[S(wa, J)])))]

    def b_loop(L):
        c = L.c
        i = L.acc(I, "i")
        q = S(MB.val(bq(c.old, c.this)), tm(c.old, c.this))
        bl = L.var("build_list")
        return [("range", z3.And(0 <= i, i <= BQ.hi(q) - BQ.lo(q), BQ.lo(bl) == BQ.lo(q), BQ.hi(bl) == BQ.hi(q))),
                ("list", z3.ForAll([J], z3.Implies(z3.And(BQ.lo(q) <= J, J < BQ.hi(q)), S(BQ.arr(bl), J) == S(BQ.arr(q), J)), patterns=[S(BQ.arr(bl), J)]))] + built(c, L, L.S, i)
    nq = lambda c, srt, m, f: srt.hi(S(m.val(f(c.old, c.this)), tm(c.old, c.this))) - srt.lo(S(m.val(f(c.old, c.this)), tm(c.old, c.this)))
    add(T + "DoBuild", 0, only_verify=True, allocs=True, requires=lambda c: qwf(c, c.this) + [("context", c.old.f(T + "ctx_", c.this) > 0)], loops={0: b_loop},
        modifies=lambda c: [c.glob(BUILT, LB), c.glob(TOLD, LB), c.field("ghost::Agent.proto", only_fresh=True)] + user(c) + lfall(c), ensures=lambda c: P(built(c, c, c.new, nq(c, BQ, MB, bq))))

    asm(AG + "DecomNotify", 1, ensures=lambda c: [("logged", pushed(c, WARNED, c.arg(0)))], modifies=lambda c: [c.glob(WARNED, LST)] + user(c))
    asm(AG + "Decommission", 0, ensures=lambda c: [("logged", pushed(c, GONE, c.this))], modifies=lambda c: [c.glob(GONE, LST), c.field(AG + "parent_")] + user(c) + lfall(c))

    def gone(c, ctx, view, n):
        q = S(MD.val(dq(c.old, c.this)), tm(c.old, c.this))
        o, w = seq(c.old, GONE), seq(view, GONE)
        wa = view.v.named(ctx, LST.arr(w))
        return [("each-once", z3.And(LST.lo(w) == LST.lo(o), LST.hi(w) == LST.hi(o) + n,
                 z3.ForAll([J], S(wa, J) == z3.If(z3.And(LST.hi(o) <= J, J < LST.hi(o) + n), S(DQ.arr(q), DQ.lo(q) + J - LST.hi(o)), S(LST.arr(o), J)), patterns=[S(wa, J)])))]

    def g_loop(L):
        c = L.c
        i = L.acc(I, "i")
        q = S(MD.val(dq(c.old, c.this)), tm(c.old, c.this))
        dl = L.var("decom_list")
        return [("range", z3.And(0 <= i, i <= DQ.hi(q) - DQ.lo(q), DQ.lo(dl) == DQ.lo(q), DQ.hi(dl) == DQ.hi(q))),
                ("list", z3.ForAll([J], z3.Implies(z3.And(DQ.lo(q) <= J, J < DQ.hi(q)), z3.And(S(DQ.arr(dl), J) == S(DQ.arr(q), J), S(DQ.arr(dl), J) > 0)), patterns=[S(DQ.arr(dl), J)]))] + gone(c, L, L.S, i)
    def g_req(c):
        q = S(MD.val(dq(c.old, c.this)), tm(c.old, c.this))
        return qwf(c, c.this) + [("agents", z3.ForAll([J], z3.Implies(z3.And(DQ.lo(q) <= J, J < DQ.hi(q)), S(DQ.arr(q), J) > 0), patterns=[S(DQ.arr(q), J)]))]
    add(T + "DoDecom", 0, only_verify=True, requires=g_req, loops={0: g_loop}, modifies=lambda c: [c.glob(GONE, LST), c.glob(WARNED, LST), c.field(AG + "parent_")] + user(c) + lfall(c),
        ensures=lambda c: P(gone(c, c, c.new, nq(c, DQ, MD, dq))))

    # ------------------------------------------------------------- the run --
    kill = lambda view, r: view.f(T + "want_kill_", r)
    ph = lambda view: view.g(PH, LPH)
    NAMES = ["DoBuild", "DoTick", "DoResEx", "DoTock", "DoDecision", "DoDecom"]
    for k, m in enumerate(NAMES):
        asm(T + m, 2 if m == "DoResEx" else 0, allocs=True, ensures=lambda c, k=k: [("phase", pushed(c, PH, EVT.mk(z3.IntVal(k), PairSort(I, B).mk(tm(c.old, c.this), kill(c.old, c.this))), LPH)),
                ("kill-stays", z3.Implies(kill(c.old, c.this), kill(c.new, c.this)))], modifies=lambda c: [c.glob(PH, LPH)] + user(c) + lfall(c))
    asm(C + "SimInit::Snapshot", 1, allocs=True, ensures=lambda c: [("own-tables", z3.Select(log_of(c.new), strlit("Finish")) == z3.Select(log_of(c.old), strlit("Finish")))], modifies=log_mods)
    for R_ in ("Material", "Product"):
        q = C + "ExchangeManager<cyclus::%s>" % R_
        asm(q + "::ExchangeManager", 1, ensures=lambda c: [], modifies=lambda c: [])
    asm(C + "EventLoop", 0, ensures=lambda c: [], modifies=lambda c: [])
    dur = lambda view, r: view.f(C + "SimInfo::duration", view.sub(T + "si_", r))

    def phases(c, ctx, view, t1):
        t0 = tm(c.old, c.this)
        o, w = ph(c.old), ph(view)
        wa = view.v.named(ctx, LPH.arr(w))
        at_ = lambda u, k: S(wa, LPH.hi(o) + 6 * (u - t0) + k)
        ev = lambda u, k: z3.And(EVT.first(at_(u, k)) == k, PairSort(I, B).first(EVT.second(at_(u, k))) == u)
        g = z3.Function("step!tm", I, B)
        ctx.fact(z3.ForAll([U], g(U), patterns=[g(U)]))
        return [("one-step-per-time", z3.And(LPH.lo(w) == LPH.lo(o), LPH.hi(w) == LPH.hi(o) + 6 * (t1 - t0))),
                ("phases-in-order", z3.ForAll([J], z3.Implies(z3.And(LPH.hi(o) <= J, J < LPH.hi(w)), z3.And(EVT.first(S(wa, J)) == (J - LPH.hi(o)) % 6, PairSort(I, B).first(EVT.second(S(wa, J))) == t0 + (J - LPH.hi(o)) / 6)), patterns=[S(wa, J)])),
                ("no-step-after-a-kill", z3.ForAll([J], z3.Implies(z3.And(LPH.hi(o) + 6 <= J, J < LPH.hi(w), EVT.first(S(wa, J)) == 0), z3.Not(PairSort(I, B).second(EVT.second(S(wa, J))))), patterns=[S(wa, J)])),
                ("earlier-kept", z3.ForAll([J], z3.Implies(J < LPH.hi(o), S(wa, J) == S(LPH.arr(o), J)), patterns=[S(wa, J)]))]

    def run_loop(L):
        c = L.c
        t0, t1 = tm(c.old, c.this), tm(L.S, c.this)
        return [("range", z3.And(t1 >= t0, z3.Or(t1 == t0, t1 <= dur(c.old, c.this)), dur(L.S, c.this) == dur(c.old, c.this))), ("not-killed", z3.Or(t1 == t0, z3.Not(kill(L.S, c.this)))),
                ("no-finish-yet", rows(L.S, "Finish") == rows(c.old, "Finish"))] + phases(c, L, L.S, t1)

    def run_ens(c):
        t0, t1, d = tm(c.old, c.this), tm(c.new, c.this), dur(c.old, c.this)
        return P(phases(c, c, c.new, t1) + [("ends-at-its-duration-or-killed", z3.If(t0 >= d, t1 == t0, z3.And(t0 < t1, t1 <= d, z3.Or(t1 == d, kill(c.new, c.this))))),
                ("finish-record", log_appended(c, "Finish", [lambda r: row_is(r, {"EarlyTerm": VB(kill(c.new, c.this)), "EndTime": VI(t1 - 1)})]))])
    add(T + "RunSim", 0, allocs=True, requires=lambda c: [("context", c.old.f(T + "ctx_", c.this) > 0)], loops={0: run_loop}, ensures=run_ens,
        modifies=lambda c: [c.glob(PH, LPH), c.field(T + "time_", [c.this])] + user(c) + lfall(c) + log_mods(c))

    # ---------------------------------------------------------- the rest --
    for m, f in (("KillSim", "want_kill_"), ("Snapshot", "want_snapshot_")):
        add(T + m, 0, ensures=lambda c, f=f: P([("asked", c.new.f(T + f, c.this))]), modifies=lambda c, f=f: [c.field(T + f, [c.this])])
    add(T + "time", 0, ensures=lambda c: P([("clock", c.ret == tm(c.old, c.this))]))
    add(T + "dur", 0, ensures=lambda c: P([("duration", c.ret == dur(c.old, c.this))]))
    add(T + "Initialize", 2, ensures=lambda c: P([("starts-at-its-start", tm(c.new, c.this) == z3.If(SI(c, "branch_time") > -1, SI(c, "branch_time"), 0)), ("not-killed", z3.Not(kill(c.new, c.this))),
        ("duration", dur(c.new, c.this) == SI(c, "duration")), ("context", c.new.f(T + "ctx_", c.this) == c.arg(0))]),
        throws=lambda c: [Throws("cyclus::ValueError", z3.Or(SI(c, "m0") < 1, SI(c, "m0") > 12), must=True, label="C08:months")],
        modifies=lambda c: [c.field(T + f, [c.this]) for f in ("time_", "want_kill_", "ctx_")] + [c.field(C + "SimInfo::" + f, [c.new.sub(T + "si_", c.this)]) for f in SIF])
    # scheduling through the context, which also records it
    ti = lambda c: c.old.f(C + "Context::ti_", c.this)
    out.append(pure(C + "Context::time", 0, lambda c: tm(c.old, ti(c))))

    def csb(c):
        t = z3.If(c.arg(2) == -1, tm(c.old, ti(c)) + 1, c.arg(2))
        pid = z3.If(c.arg(0) != 0, lid(c.old, c.arg(0)), -1)
        return P(_sb(c, ti(c), c.arg(1), c.arg(0), t) + [("recorded", log_appended(c, "BuildSchedule", [lambda r: row_is(r, {"ParentId": VI(pid), "Prototype": VS(c.arg(1)), "SchedTime": VI(tm(c.old, ti(c))), "BuildTime": VI(t)})])), ("nothing-else-recorded", log_only(c, "BuildSchedule"))])
    add(C + "Context::SchedBuild", 3, allocs=True, requires=lambda c: qwf(c, ti(c)) + [("timer", ti(c) > 0)], ensures=csb, modifies=lambda c: [c.field(T + "build_queue_", [ti(c)])] + log_mods(c),
        throws=lambda c: [Throws("cyclus::ValueError", z3.And(c.arg(2) != -1, c.arg(2) <= tm(c.old, ti(c))), must=True, label="C08:only-the-future")])

    def csd(c):
        t = z3.If(c.arg(1) == -1, tm(c.old, ti(c)), c.arg(1))
        return P(sd_ens(c, ti(c), c.arg(0), t) + [("recorded", log_appended(c, "DecomSchedule", [lambda r: row_is(r, {"AgentId": VI(lid(c.old, c.arg(0))), "SchedTime": VI(tm(c.old, ti(c))), "DecomTime": VI(t)})])), ("nothing-else-recorded", log_only(c, "DecomSchedule"))])
    add(C + "Context::SchedDecom", 2, allocs=True, requires=lambda c: once(c, ti(c)) + [("timer", ti(c) > 0), ("agent", c.arg(0) > 0)], ensures=csd, modifies=lambda c: [c.field(T + "decom_queue_", [ti(c)])] + log_mods(c),
        throws=lambda c: [Throws("cyclus::ValueError", z3.And(c.arg(1) != -1, c.arg(1) < tm(c.old, ti(c))), must=True, label="C08:not-in-the-past")])
    return out
