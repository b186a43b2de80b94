"""Contracts on the execution of trades (C12).

The responses suppliers will ever give are a prophecy: a fixed stream `resp`
of which each call of PopulateTradeResponses hands out the next stretch.  What
suppliers are asked and what requesters are handed are ghost logs."""
import z3
from engine import *
from lib import *

C = "cyclus::"
SRCS = ["drivers/trades.cc"]
SETI = SetSort(I)
X, Y, J, K = z3.Int("x!td"), z3.Int("y!td"), z3.Int("j!td"), z3.Int("k!td")
S = z3.Select
POS, ASKN, ACCN, NTX = "GHOST::resp_pos", "GHOST::ask_n", "GHOST::acc_n", C + "Context::trans_id_"
AI = z3.ArraySort(I, I)


def P(xs): return [("C12:" + n, g) for n, g in xs]


def ty(T):
    T = C + T
    tr = StructSort(C + "Trade<%s>" % T, [("request", I), ("bid", I), ("amt", R), ("price", R)])
    return tr, SeqSort(tr), PairSort(tr, I), SeqSort(PairSort(tr, I))


def CFG():
    c = Config()
    c.value_classes = {C + "Trade<cyclus::Material>", C + "Trade<cyclus::Product>"}
    c.total_maps = {}
    for T in ("Material", "Product"):
        tr, st, rp, sr = ty(T)
        tc = C + "TradeExecutionContext<cyclus::%s>::" % T
        c.total_maps[tc + "trades_by_supplier"] = st.mk(z3.IntVal(0), z3.IntVal(0), empty_arr(z3.ArraySort(I, tr)))
        e = sr.mk(z3.IntVal(0), z3.IntVal(0), empty_arr(z3.ArraySort(I, rp)))
        c.total_maps[tc + "trades_by_requester"] = e
        c.total_maps[tc + "all_trades"] = e
    return c


def contracts(T):
    out = []
    TN = "cyclus::" + T
    TR, ST, RP, SR = ty(T)
    TC = C + "TradeExecutionContext<%s>::" % TN
    MS, MR = MapSort(I, ST), MapSort(I, SR)
    KEY = PairSort(I, I)
    MA = MapSort(KEY, SR)
    sup, req, tbs, tbr, allt = [TC + x for x in ("suppliers", "requesters", "trades_by_supplier", "trades_by_requester", "all_trades")]
    ASKED, GIVEN = "GHOST::asked_" + T, "GHOST::given_" + T
    AST, ASR = z3.ArraySort(I, ST), z3.ArraySort(I, SR)
    bidder = lambda view, t: view.f(C + "Bid<%s>::bidder_" % TN, TR.f_bid(t))
    requester = lambda view, t: view.f(C + "Request<%s>::requester_" % TN, TR.f_request(t))
    add = lambda *a, **kw: out.append(Contract(*a, **{"prop": ["C12"], "sig": TN, **kw}))

    # ---- counting: cnt(x, i) = how many of the first i trades have bidder x
    def group_count(c, ctx, i):
        f = c.v.ufun("count_" + T, AI, ST, I, I, I)
        bm, trades = c.old.arr(C + "Bid<%s>::bidder_" % TN), c.arg(1)
        n = lambda x, j: f(bm, trades, x, j)
        at = S(ST.arr(trades), ST.lo(trades) + i)
        # the definition, unfolded at the position the loop is at
        ctx.fact(z3.ForAll([X], n(X, z3.IntVal(0)) == 0, patterns=[n(X, z3.IntVal(0))]), z3.ForAll([X], n(X, i) >= 0, patterns=[n(X, i)]),
                 z3.ForAll([X], n(X, i + 1) == n(X, i) + z3.If(S(bm, TR.f_bid(at)) == X, 1, 0), patterns=[n(X, i + 1)]))
        return n

    def grouped(c, view, n):
        """after the first n trades"""
        tc, trades = c.arg(0), c.arg(1)
        L = view._L if hasattr(view, '_L') else c
        cn = group_count(c, L, n)
        nm = lambda x: view.v.named(L, x)
        m0, m1 = c.old.f(tbs, tc), view.f(tbs, tc)
        V0, V1 = MS.val(m0), nm(MS.val(m1))
        at = lambda i: S(ST.arr(trades), ST.lo(trades) + i)
        b = lambda i: bidder(c.old, at(i))
        s0, s1 = SETI.dom(c.old.f(sup, tc)), nm(SETI.dom(view.f(sup, tc)))
        r0, r1 = SETI.dom(c.old.f(req, tc)), nm(SETI.dom(view.f(req, tc)))
        TA = ST.arr(trades)
        Kin = z3.And(ST.lo(trades) <= K, K < ST.lo(trades) + n)
        rq = lambda t: requester(c.old, t)
        return [("every-supplier-gets-as-many", z3.ForAll([X], z3.And(ST.lo(S(V1, X)) == ST.lo(S(V0, X)), ST.hi(S(V1, X)) == ST.hi(S(V0, X)) + cn(X, n)), patterns=[S(V1, X)])),
                ("earlier-kept", z3.ForAll([X, J], z3.Implies(z3.And(ST.lo(S(V0, X)) <= J, J < ST.hi(S(V0, X))), S(ST.arr(S(V1, X)), J) == S(ST.arr(S(V0, X)), J)), patterns=[S(ST.arr(S(V1, X)), J)])),
                ("every-trade-at-its-supplier", z3.ForAll([K], z3.Implies(Kin, z3.And(
                    cn(bidder(c.old, S(TA, K)), K - ST.lo(trades)) < cn(bidder(c.old, S(TA, K)), n),
                    S(ST.arr(S(V1, bidder(c.old, S(TA, K)))), ST.hi(S(V0, bidder(c.old, S(TA, K)))) + cn(bidder(c.old, S(TA, K)), K - ST.lo(trades))) == S(TA, K))), patterns=[S(TA, K)])),
                ("suppliers-known", z3.ForAll([K], z3.Implies(Kin, z3.And(S(s1, bidder(c.old, S(TA, K))), S(MS.dom(m1), bidder(c.old, S(TA, K))))), patterns=[S(TA, K)])),
                ("requesters-known", z3.ForAll([K], z3.Implies(Kin, S(r1, rq(S(TA, K)))), patterns=[S(TA, K)])),
                ("no-other-supplier", z3.ForAll([X], z3.Implies(S(s0, X), S(s1, X)), patterns=[S(s1, X)])),
                ("suppliers-have-trades", z3.ForAll([X], z3.Implies(z3.And(S(s1, X), z3.Not(S(s0, X))), cn(X, n) > 0), patterns=[S(s1, X)])),
                ("no-other-requester", z3.ForAll([X], z3.Implies(z3.And(S(r1, X), z3.Not(S(r0, X))), z3.Exists([K], z3.And(Kin, rq(S(TA, K)) == X))), patterns=[S(r1, X)]))]

    def g_loop(L):
        L.S._L = L
        c = L.c
        t = c.arg(1)
        i = L.pos("it")
        L.fact(ST.lo(t) <= ST.hi(t))
        return [("range", z3.And(0 <= i, i <= ST.hi(t) - ST.lo(t)))] + grouped(c, L.S, i)

    def wf(c):
        t = c.arg(1)
        m0 = c.old.f(tbs, c.arg(0))
        return [("trades", z3.ForAll([K], z3.Implies(z3.And(ST.lo(t) <= K, K < ST.hi(t)), z3.And(TR.f_bid(S(ST.arr(t), K)) > 0, TR.f_request(S(ST.arr(t), K)) > 0)))),
                ("lists", z3.ForAll([X], ST.lo(S(MS.val(m0), X)) <= ST.hi(S(MS.val(m0), X))))]
    add(C + "GroupTradesBySupplier", 2, requires=wf, loops={0: g_loop}, ensures=lambda c: P(grouped(c, c.new, ST.hi(c.arg(1)) - ST.lo(c.arg(1)))),
        modifies=lambda c: [c.field(f, [c.arg(0)]) for f in (tbs, sup, req)])
    # ---- the traders' side: prophecy of responses, logs of questions and deliveries
    rv = z3.Function("resp!" + T, I, RP)          # the i-th response any supplier will give
    rs = z3.Function("resp_supplier!" + T, I, I)  # by which supplier
    pos = lambda view: view.g(POS + T, I)
    askn, asked = lambda view: view.g(ASKN + T, AI), lambda view: view.g(ASKED, AST)
    accn, given = lambda view: view.g(ACCN + T, AI), lambda view: view.g(GIVEN, ASR)

    def pop_ens(c):
        t, trades, r1 = c.arg(0), c.arg(1), c.arg_new(2)
        p0, p1 = pos(c.old), pos(c.new)
        return [("stretch", z3.And(p1 >= p0, SR.lo(r1) == 0, SR.hi(r1) == p1 - p0)),
                ("responses", z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < p1 - p0), z3.And(S(SR.arr(r1), J) == rv(p0 + J), TR.f_request(RP.first(rv(p0 + J))) > 0)), patterns=[S(SR.arr(r1), J)])),
                ("theirs", z3.ForAll([J], z3.Implies(z3.And(p0 <= J, J < p1), rs(J) == t), patterns=[rs(J)])),
                ("asked", z3.And(askn(c.new) == z3.Store(askn(c.old), t, S(askn(c.old), t) + 1), asked(c.new) == z3.Store(asked(c.old), t, trades)))]
    out.append(Contract(C + "PopulateTradeResponses", 3, sig=TN, assumed=True, ensures=pop_ens, requires=lambda c: [("C12:no-responses-yet", SR.hi(c.arg(2)) == SR.lo(c.arg(2)))],
                        modifies=lambda c: [c.mod_arg(2), c.glob(POS + T, I), c.glob(ASKN + T, AI), c.glob(ASKED, AST)]))
    out.append(Contract(C + "AcceptTrades", 2, sig=TN, assumed=True, exact=True, ensures=lambda c: [("given", z3.And(accn(c.new) == z3.Store(accn(c.old), c.arg(0), S(accn(c.old), c.arg(0)) + 1),
                        given(c.new) == z3.Store(given(c.old), c.arg(0), c.arg(1))))], modifies=lambda c: [c.glob(ACCN + T, AI), c.glob(GIVEN, ASR)]))

    def sent(c, view, L, upto):
        m, D = c.old.f(tbr, c.arg(0)), SETI.dom(c.old.f(req, c.arg(0)))
        idx = view.v.enum_fn(D)[1]
        n1, g1 = view.v.named(L, accn(view)), view.v.named(L, given(view))
        done = z3.And(S(D, X), idx(D, X) < upto) if upto is not None else S(D, X)
        return [("delivered-once", z3.ForAll([X], S(n1, X) == S(accn(c.old), X) + z3.If(done, 1, 0), patterns=[S(n1, X)])),
                ("delivered-its-responses", z3.ForAll([X], S(g1, X) == z3.If(done, S(MR.val(m), X), S(given(c.old), X)), patterns=[S(g1, X)]))]

    def send_loop(L):
        c = L.c
        i = L.pos("it")
        return [("range", z3.And(0 <= i, i <= SETI.size(c.old.f(req, c.arg(0)))))] + sent(c, L.S, L, i) + [
            ("responses-kept", z3.And(MR.val(L.S.f(tbr, c.arg(0))) == MR.val(c.old.f(tbr, c.arg(0)))))]
    add(C + "SendTradeResources", 1, ensures=lambda c: P(sent(c, c.new, c, None)), loops={0: send_loop},
        modifies=lambda c: [c.field(tbr, [c.arg(0)]), c.glob(ACCN + T, AI), c.glob(GIVEN, ASR)])

    # ---- collecting the responses
    def rcount(c, ctx, i):
        """cr(r, i): responses among the first i for requester r; ca(s, r, i): by supplier s for r"""
        rq = c.old.arr(C + "Request<%s>::requester_" % TN)
        f, g = c.v.ufun("for_" + T, AI, I, I, I), c.v.ufun("between_" + T, AI, KEY, I, I)
        cr, ca = lambda r, j: f(rq, r, j), lambda k, j: g(rq, k, j)
        kk = z3.Const("kk!td", KEY)
        r_i = S(rq, TR.f_request(RP.first(rv(i))))
        ctx.fact(z3.ForAll([X], cr(X, i + 1) == cr(X, i) + z3.If(r_i == X, 1, 0), patterns=[cr(X, i + 1)]),
                 z3.ForAll([kk], ca(kk, i + 1) == ca(kk, i) + z3.If(kk == KEY.mk(rs(i), r_i), 1, 0), patterns=[ca(kk, i + 1)]))
        return cr, ca, lambda j: S(rq, TR.f_request(RP.first(rv(j))))

    def collected(c, view, L, p):
        """after the responses up to (not including) p have been sorted"""
        tc = c.arg(0)
        cr, ca, rqof = rcount(c, L, p)
        nm = lambda x: view.v.named(L, x)
        p0 = pos(c.old)
        kk = z3.Const("kk!td", KEY)
        V0, V1 = MR.val(c.old.f(tbr, tc)), nm(MR.val(view.f(tbr, tc)))
        A0, A1, D1 = MA.val(c.old.f(allt, tc)), nm(MA.val(view.f(allt, tc))), nm(MA.dom(view.f(allt, tc)))
        ks = lambda j: KEY.mk(rs(j), rqof(j))
        inr = z3.And(p0 <= J, J < p)
        return [("one-per-requester", z3.ForAll([X], z3.And(SR.lo(S(V1, X)) == SR.lo(S(V0, X)), SR.hi(S(V1, X)) == SR.hi(S(V0, X)) + cr(X, p) - cr(X, p0)), patterns=[S(V1, X)])),
                ("earlier-kept", z3.ForAll([X, J], z3.Implies(z3.And(SR.lo(S(V0, X)) <= J, J < SR.hi(S(V0, X))), S(SR.arr(S(V1, X)), J) == S(SR.arr(S(V0, X)), J)), patterns=[S(SR.arr(S(V1, X)), J)])),
                ("every-response-at-its-requester", z3.ForAll([J], z3.Implies(inr, z3.And(cr(rqof(J), p0) <= cr(rqof(J), J), cr(rqof(J), J) < cr(rqof(J), p),
                    S(SR.arr(S(V1, rqof(J))), SR.hi(S(V0, rqof(J))) + cr(rqof(J), J) - cr(rqof(J), p0)) == rv(J))), patterns=[rv(J)])),
                ("counts-grow", z3.And(z3.ForAll([X], cr(X, p) >= cr(X, p0), patterns=[cr(X, p)]), z3.ForAll([kk], ca(kk, p) >= ca(kk, p0), patterns=[ca(kk, p)]))),
                ("one-per-pair", z3.ForAll([kk], z3.And(SR.lo(S(A1, kk)) == SR.lo(S(A0, kk)), SR.hi(S(A1, kk)) == SR.hi(S(A0, kk)) + ca(kk, p) - ca(kk, p0)), patterns=[S(A1, kk)])),
                ("earlier-pairs-kept", z3.ForAll([kk, J], z3.Implies(z3.And(SR.lo(S(A0, kk)) <= J, J < SR.hi(S(A0, kk))), S(SR.arr(S(A1, kk)), J) == S(SR.arr(S(A0, kk)), J)), patterns=[S(SR.arr(S(A1, kk)), J)])),
                ("every-response-at-its-pair", z3.ForAll([J], z3.Implies(inr, z3.And(S(D1, ks(J)), ca(ks(J), p0) <= ca(ks(J), J), ca(ks(J), J) < ca(ks(J), p),
                    S(SR.arr(S(A1, ks(J))), SR.hi(S(A0, ks(J))) + ca(ks(J), J) - ca(ks(J), p0)) == rv(J))), patterns=[rv(J)]))]

    def questions(c, view, L, upto):
        D = SETI.dom(c.old.f(sup, c.arg(0)))
        idx = view.v.enum_fn(D)[1]
        n1, a1 = view.v.named(L, askn(view)), view.v.named(L, asked(view))
        done = z3.And(S(D, X), idx(D, X) < upto) if upto is not None else S(D, X)
        return [("asked-once", z3.ForAll([X], S(n1, X) == S(askn(c.old), X) + z3.If(done, 1, 0), patterns=[S(n1, X)])),
                ("asked-for-its-trades", z3.ForAll([X], S(a1, X) == z3.If(done, S(MS.val(c.old.f(tbs, c.arg(0))), X), S(asked(c.old), X)), patterns=[S(a1, X)]))]

    def get_loop(inner):
        def inv(L):
            c = L.c
            tc = c.arg(0)
            D = c.old.f(sup, tc)
            keep = [("trades-kept", MS.val(L.S.f(tbs, tc)) == MS.val(c.old.f(tbs, tc)))]
            if not inner:
                i = L.pos("it")
                return [("range", z3.And(0 <= i, i <= SETI.size(D), pos(L.S) >= pos(c.old)))] + keep + questions(c, L.S, L, i) + collected(c, L.S, L, pos(L.S))
            k = L.pos("r_it")
            rsp, r0 = L.var("responses"), L.var0("responses")
            p1 = pos(L.S)
            s = L.var("supplier")
            n = SR.hi(rsp) - SR.lo(rsp)
            p = p1 - n + k
            ra = L.v.named(L, SR.arr(rsp))
            return [("range", z3.And(0 <= k, k <= n, p1 - n >= pos(c.old), SR.lo(rsp) == 0, rsp == r0)),
                    ("stretch", z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < n), z3.And(S(ra, J) == rv(p1 - n + J), TR.f_request(RP.first(rv(p1 - n + J))) > 0)), patterns=[S(ra, J)])),
                    ("theirs", z3.ForAll([J], z3.Implies(z3.And(p1 - n <= J, J < p1), rs(J) == s), patterns=[rs(J)]))] + collected(c, L.S, L, p)
        return inv

    def get_req(c):
        V0, A0 = MR.val(c.old.f(tbr, c.arg(0))), MA.val(c.old.f(allt, c.arg(0)))
        kk = z3.Const("kk!td", KEY)
        return [("lists", z3.And(z3.ForAll([X], SR.lo(S(V0, X)) <= SR.hi(S(V0, X)), patterns=[S(V0, X)]), z3.ForAll([kk], SR.lo(S(A0, kk)) <= SR.hi(S(A0, kk)), patterns=[S(A0, kk)])))]
    add(C + "GetTradeResponses", 1, requires=get_req, ensures=lambda c: P(questions(c, c.new, c, None) + collected(c, c.new, c, pos(c.new))), loops={0: get_loop(False), 1: get_loop(True)},
        modifies=lambda c: [c.field(f, [c.arg(0)]) for f in (tbs, tbr, allt)] + [c.glob(POS + T, I), c.glob(ASKN + T, AI), c.glob(ASKED, AST)])
    # ---- the transaction rows
    TE = C + "TradeExecutor<%s>::" % TN
    def rec_rows(c, view, L, k, j, m):
        """rows recorded before entry j of the k-th pair, and what they say"""
        D = MA.dom(m)
        kat = view.v.enum_fn(D)[0]
        qf = c.old.arr(TN + "::" + ("qty_" if T == "Material" else "quantity_"))
        n = c.v.ufun("rows_" + T, MA, z3.ArraySort(I, R), R, I, I, I)
        N = lambda a, b: n(m, qf, EPS(c.old), a, b)
        lst = lambda a: S(MA.val(m), kat(D, a))
        ent = lambda a, b: S(SR.arr(lst(a)), SR.lo(lst(a)) + b)
        counts = lambda a, b: S(qf, RP.second(ent(a, b))) > EPS(c.old)
        L.fact(N(0, 0) == 0, N(k, j + 1) == N(k, j) + z3.If(counts(k, j), 1, 0), N(k + 1, 0) == N(k, SR.hi(lst(k)) - SR.lo(lst(k))), N(k, j) >= 0)
        t0, t1 = rows(c.old, "Transactions"), rows(view, "Transactions")
        ra = view.v.named(L, Rows.arr(t1))
        ctx = c.arg(0)
        id0, id1 = c.old.f(NTX, ctx), view.f(NTX, ctx)
        man = lambda x: S(c.old.arr(C + "Trader::manager_"), x)
        aid = lambda x: S(c.old.arr(C + "Agent::id_"), x)
        here = z3.And(0 <= X, 0 <= J, J < SR.hi(lst(X)) - SR.lo(lst(X)), z3.Or(X < k, z3.And(X == k, J < j)), counts(X, J))
        rw = S(ra, Rows.hi(t0) + N(X, J))
        pr = kat(D, X)
        tr = RP.first(ent(X, J))
        return [("as-many-rows", z3.And(Rows.lo(t1) == Rows.lo(t0), Rows.hi(t1) == Rows.hi(t0) + N(k, j), id1 == id0 + N(k, j))),
                ("earlier-rows-kept", z3.ForAll([J], z3.Implies(J < Rows.hi(t0), S(ra, J) == row_at(t0, J)), patterns=[S(ra, J)])),
                ("every-response-has-its-row", z3.ForAll([X, J], z3.Implies(here, z3.And(0 <= N(X, J), N(X, J) < N(k, j), row_is(rw, {
                    "TransactionId": VI(id0 + N(X, J)), "SenderId": VI(aid(man(KEY.first(pr)))), "ReceiverId": VI(aid(man(KEY.second(pr)))),
                    "ResourceId": VI(c.old.f(C + "Resource::state_id_", RP.second(ent(X, J)))), "Commodity": VS(c.old.f(C + "Request<%s>::commodity_" % TN, TR.f_request(tr))),
                    "Time": VI(c.v.ufun("time!td", I, I)(ctx))}))), patterns=[ent(X, J)]))]

    def cur(c): return c.old.f(allt, c.old.sub(TE + "trade_ctx_", c.this))
    size = lambda m: MA.size(m)

    def rec_loop(inner):
        def inv(L):
            c = L.c
            m = cur(c)
            keep = [("tables-kept", log_others(c, L))]
            if not inner:
                k = L.pos("m_it")
                return [("range", z3.And(0 <= k, k <= size(m)))] + rec_rows(c, L.S, L, k, z3.IntVal(0), m) + keep
            k = L.var("m_it").idx
            lst = S(MA.val(m), L.v.enum_fn(MA.dom(m))[0](MA.dom(m), k))
            j = L.pos("v_it")
            return [("range", z3.And(0 <= k, k < size(m), 0 <= j, j <= SR.hi(lst) - SR.lo(lst)))] + rec_rows(c, L.S, L, k, j, m) + keep
        return inv

    def log_others(c, L):
        t = z3.Int("t!log")
        o, n = log_of(c.old), L.v.named(L, log_of(L.S))
        return z3.ForAll([t], z3.Implies(t != strlit("Transactions"), S(n, t) == S(o, t)), patterns=[S(n, t)])

    def rec_req(c):
        m = cur(c)
        kk = z3.Const("kk!td", KEY)
        D, V = MA.dom(m), MA.val(m)
        e = S(SR.arr(S(V, kk)), J)
        man = c.old.arr(C + "Trader::manager_")
        return [("context", c.arg(0) > 0), ("pairs", z3.ForAll([kk], z3.Implies(S(D, kk), z3.And(SR.lo(S(V, kk)) <= SR.hi(S(V, kk)), KEY.first(kk) > 0, KEY.second(kk) > 0, S(man, KEY.first(kk)) > 0, S(man, KEY.second(kk)) > 0)), patterns=[S(V, kk)])),
                ("responses", z3.ForAll([kk, J], z3.Implies(z3.And(S(D, kk), SR.lo(S(V, kk)) <= J, J < SR.hi(S(V, kk))), z3.And(RP.second(e) > 0, RP.second(e) <= c.old.alloc, TR.f_request(RP.first(e)) > 0)), patterns=[e]))]
    add(TE + "RecordTrades", 1, sig=None, requires=rec_req, ensures=lambda c: P(rec_rows(c, c.new, c, size(cur(c)), z3.IntVal(0), cur(c)) + [("other-tables-kept", log_only(c, "Transactions"))]),
        loops={0: rec_loop(False), 1: rec_loop(True)}, allocs=True, modifies=lambda c: [c.field(NTX, [c.arg(0)])] + log_mods(c))
    return out


def build():
    out = record_contracts() + [pure(C + "Context::time", 0, lambda c: c.v.ufun("time!td", I, I)(c.this)), pure(C + "Trader::manager", 0, lambda c: c.old.f(C + "Trader::manager_", c.this)),
                                pure(C + "Agent::id", 0, lambda c: c.old.f(C + "Agent::id_", c.this)),
                                pure(C + "Material::quantity", 0, lambda c: c.old.f(C + "Material::qty_", c.this)), pure(C + "Product::quantity", 0, lambda c: c.old.f(C + "Product::quantity_", c.this))]
    for T in ("Material", "Product"): out += contracts(T)
    return out
