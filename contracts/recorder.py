"""Contracts on the recorder and its data (C07).

What a backend receives is a ghost log per backend: the contents of every datum
handed to it, in order (the backend's own code is outside this property)."""
import z3
from engine import *
from lib import *

C = "cyclus::"
D, RC, BK = C + "Datum::", C + "Recorder::", C + "RecBackend::"
SRCS = ["recorder.cc", "datum.cc"]
ENT = PairSort(I, Val)
VALS, SHP, FLD, REFS = SeqSort(ENT), SeqSort(SeqSort(I)), SeqSort(I), SeqSort(I)
CONT = PairSort(PairSort(I, FLD), PairSort(VALS, SHP))
STREAM = SeqSort(CONT)
LOGS, NFL = "GHOST::received", "GHOST::flushed"
LS = z3.ArraySort(I, STREAM)
X, J, K, B_ = z3.Int("x!rc"), z3.Int("j!rc"), z3.Int("k!rc"), z3.Int("b!rc")
S = z3.Select
EMPTY = SeqSort(I).mk(z3.IntVal(0), z3.IntVal(0), empty_arr(z3.ArraySort(I, I)))


def P(xs): return [("C07:" + n, g) for n, g in xs]


def content(view, d):
    g = lambda f: S(view.arr(D + f), d)
    return CONT.mk(PairSort(I, FLD).mk(g("title_"), g("fields_")), PairSort(VALS, SHP).mk(g("vals_"), g("shapes_")))


def build():
    out = []
    add = lambda *a, **kw: out.append(Contract(*a, **{"prop": ["C07"], **kw}))
    recv = lambda view: view.g(LOGS, LS)
    data = lambda view, r: view.f(RC + "data_", r)
    backs = lambda view, r: view.f(RC + "backs_", r)
    idx = lambda view, r: view.f(RC + "index_", r)
    inj = lambda view, r: view.f(RC + "inject_sim_id_", r)

    # ---- one datum
    def app(srt, o, n, x):
        return z3.And(srt.lo(n) == srt.lo(o), srt.hi(n) == srt.hi(o) + 1, srt.arr(n) == z3.Store(srt.arr(o), srt.hi(o), x))

    def av_ens(c, fields=True):
        t = c.this
        f = lambda n, view: view.f(D + n, t)
        s0, s1 = f("shapes_", c.old), f("shapes_", c.new)
        sh = S(SHP.arr(s1), SHP.hi(s0))
        p = c.arg(2)
        same = sh == p if z3.is_expr(p) and p.sort() == SeqSort(I) else SeqSort(I).hi(sh) == SeqSort(I).lo(sh)
        xs = [("returns-itself", c.ret == t), ("value", app(VALS, f("vals_", c.old), f("vals_", c.new), ENT.mk(c.arg(0), c.arg(1)))),
              ("shape", z3.And(SHP.lo(s1) == SHP.lo(s0), SHP.hi(s1) == SHP.hi(s0) + 1, SHP.arr(s1) == z3.Store(SHP.arr(s0), SHP.hi(s0), sh),))]
        if fields: xs.append(("field", app(FLD, f("fields_", c.old), f("fields_", c.new), c.arg(0))))
        return P(xs)
    m3 = lambda c: [c.field(D + f, [c.this]) for f in ("vals_", "shapes_")]
    m4 = lambda c: m3(c) + [c.field(D + "fields_", [c.this])]
    add(D + "AddValBase", 3, ensures=lambda c: av_ens(c, False), modifies=m3)
    add(D + "AddVal", 3, sig="AddVal(const char", ensures=av_ens, modifies=m4)
    add(D + "AddVal", 3, sig="AddVal(std::basic_string", ensures=av_ens, modifies=m4)
    for f in ("title", "vals", "shapes", "fields"):
        add(D + f, 0, exact=True, ensures=lambda c, f=f: P([("reads", c.ret == c.old.f(D + f + "_", c.this))]))

    # ---- backends (assumed)
    def notify(c):
        r0, r1, b, dl = recv(c.old), recv(c.new), c.this, c.arg(0)
        o, n = S(r0, b), c.v.named(c, S(r1, b))
        na = c.v.named(c, STREAM.arr(n))
        return [("others", r1 == z3.Store(r0, b, n)), ("more", z3.And(STREAM.lo(n) == STREAM.lo(o), STREAM.hi(n) == STREAM.hi(o) + REFS.hi(dl) - REFS.lo(dl))),
                ("contents", z3.ForAll([J], S(na, J) == z3.If(z3.And(STREAM.hi(o) <= J, J < STREAM.hi(n)), content(c.old, S(REFS.arr(dl), REFS.lo(dl) + J - STREAM.hi(o))), S(STREAM.arr(o), J)), patterns=[S(na, J)]))]
    out.append(Contract(BK + "Notify", 1, assumed=True, exact=True, ensures=notify, modifies=lambda c: [c.glob(LOGS, LS)]))
    out.append(Contract(BK + "Flush", 0, assumed=True, exact=True, ensures=lambda c: []))

    out.append(Contract(C + "Datum::(delete)", 0, assumed=True, exact=True, ensures=lambda c: []))

    # ---- delivery
    def delivered(c, ctx, view, upto, n, src):
        """the first `upto` backends got the first n data of the buffer, once and in order"""
        bs = backs(c.old, c.this)
        dl = data(c.old, c.this)
        r0, r1 = recv(c.old), view.v.named(ctx, recv(view))
        at = z3.Function("backat!rc", I, I)
        isb = lambda b: z3.And(0 <= at(b), at(b) < upto, S(REFS.arr(bs), REFS.lo(bs) + at(b)) == b)
        o, w = S(r0, B_), S(r1, B_)
        return [("each-backend-once", z3.ForAll([B_], z3.If(isb(B_), z3.And(STREAM.lo(w) == STREAM.lo(o), STREAM.hi(w) == STREAM.hi(o) + n), w == o), patterns=[S(r1, B_)])),
                ("in-order-and-intact", z3.ForAll([B_, J], z3.Implies(isb(B_), z3.And(z3.Implies(z3.And(STREAM.hi(o) <= J, J < STREAM.hi(o) + n), S(STREAM.arr(w), J) == content(c.old, S(REFS.arr(dl), REFS.lo(dl) + J - STREAM.hi(o)))),
                    z3.Implies(z3.And(STREAM.lo(o) <= J, J < STREAM.hi(o)), S(STREAM.arr(w), J) == S(STREAM.arr(o), J)))), patterns=[S(STREAM.arr(w), J)]))]

    def inv(c):
        """backends distinct (their positions are given by backat), buffer distinct"""
        bs, dl = backs(c.old, c.this), data(c.old, c.this)
        at = z3.Function("backat!rc", I, I)
        dat = z3.Function("datumat!rc", I, I)
        a = S(REFS.arr(bs), K)
        d = S(REFS.arr(dl), K)
        i = idx(c.old, c.this)
        return [("backends", z3.ForAll([K], z3.Implies(z3.And(REFS.lo(bs) <= K, K < REFS.hi(bs)), z3.And(a > 0, at(a) == K - REFS.lo(bs))), patterns=[a])),
                ("lists", z3.And(REFS.lo(bs) <= REFS.hi(bs), REFS.lo(dl) == 0, REFS.lo(dl) <= REFS.hi(dl), 0 <= i, i <= REFS.hi(dl) - REFS.lo(dl))),
                ("buffer", z3.ForAll([K], z3.Implies(z3.And(REFS.lo(dl) <= K, K < REFS.hi(dl)), z3.And(d > 0, d <= c.old.alloc, dat(d) == K - REFS.lo(dl))), patterns=[d]))]

    nb = lambda c: REFS.hi(backs(c.old, c.this)) - REFS.lo(backs(c.old, c.this))
    nd = lambda c: REFS.hi(data(c.old, c.this)) - REFS.lo(data(c.old, c.this))

    def loop(n):
        def f(L):
            c = L.c
            i = L.pos("it")
            return [("range", z3.And(0 <= i, i <= nb(c)))] + delivered(c, L, L.S, i, n(c), None)
        return f
    gm = lambda c: [c.glob(LOGS, LS), c.field(RC + "index_", [c.this])]
    add(RC + "NotifyBackends", 0, requires=inv, loops={0: loop(nd)}, modifies=gm, ensures=lambda c: P(delivered(c, c, c.new, nb(c), nd(c), None) + [("buffer-free-again", idx(c.new, c.this) == 0)]))
    old_i = lambda c: idx(c.old, c.this)
    add(RC + "Flush", 0, requires=inv, loops={0: loop(old_i)}, modifies=gm, ensures=lambda c: P(delivered(c, c, c.new, nb(c), old_i(c), None) + [("buffer-free-again", idx(c.new, c.this) == 0)]))

    full = lambda c: old_i(c) >= nd(c)
    add(RC + "AddDatum", 1, requires=inv, modifies=gm, ensures=lambda c: P(delivered(c, c, c.new, nb(c), z3.If(full(c), nd(c), z3.IntVal(0)), None) + [("buffer-free-again", idx(c.new, c.this) == z3.If(full(c), 0, old_i(c)))]))
    add(RC + "Close", 0, requires=inv, modifies=lambda c: gm(c) + [c.field(RC + "backs_", [c.this])], ensures=lambda c: P(delivered(c, c, c.new, nb(c), old_i(c), None) + [
        ("nothing-more", REFS.lo(backs(c.new, c.this)) == REFS.hi(backs(c.new, c.this))), ("buffer-free-again", idx(c.new, c.this) == 0)]))
    add(RC + "RegisterBackend", 1, modifies=lambda c: [c.field(RC + "backs_", [c.this])], ensures=lambda c: P([("registered-last", app(REFS, backs(c.old, c.this), backs(c.new, c.this), c.arg(0)))]))

    # ---- a new datum takes the next slot, empty but for the simulation id
    def slot(c): return S(REFS.arr(data(c.old, c.this)), REFS.lo(data(c.old, c.this)) + old_i(c))

    def nd_req(c):
        d = slot(c)
        return inv(c) + [("room", old_i(c) < nd(c)), ("slots", z3.And(*[z3.And(srt.lo(c.old.f(D + f, d)) == 0, srt.hi(c.old.f(D + f, d)) >= z3.If(inj(c.old, c.this), 1, 0)) for f, srt in (("vals_", VALS), ("shapes_", SHP), ("fields_", FLD))]))]

    def nd_ens(c):
        d = slot(c)
        n = z3.If(inj(c.old, c.this), 1, 0)
        xs = [("next-slot", z3.And(c.ret == d, idx(c.new, c.this) == old_i(c) + 1)), ("title", c.new.f(D + "title_", d) == c.arg(0))]
        for f, srt in (("vals_", VALS), ("shapes_", SHP), ("fields_", FLD)):
            o, w = c.old.f(D + f, d), c.new.f(D + f, d)
            xs.append(("no-leftovers:" + f, z3.And(srt.lo(w) == 0, srt.hi(w) == n, z3.Implies(n == 1, S(srt.arr(w), 0) == S(srt.arr(o), 0)))))
        return P(xs)
    add(RC + "NewDatum", 1, requires=nd_req, ensures=nd_ens, modifies=lambda c: [c.field(D + f, [slot(c)]) for f in ("title_", "vals_", "shapes_", "fields_")] + [c.field(RC + "index_", [c.this])])

    # ---- the buffer itself
    SIM = strlit("SimId")

    def slots(view, r, ctx, n, alloc0, top):
        """the first n slots are distinct new data holding the simulation id exactly when injected"""
        dl = data(view, r)
        A = view.v.named(ctx, REFS.arr(dl))
        d = S(A, K)
        f = lambda x: S(view.arr(D + x), d)
        w = z3.If(inj(view, r), 1, 0)
        rng = z3.And(0 <= K, K < n)
        return [("new-data", z3.ForAll([K], z3.Implies(rng, z3.And(d > alloc0, d <= top)), patterns=[d])),
                ("distinct", z3.ForAll([K, J], z3.Implies(z3.And(0 <= K, K < J, J < n), S(A, K) < S(A, J)), patterns=[z3.MultiPattern(S(A, K), S(A, J))])),
                ("simulation-id-first", z3.ForAll([K], z3.Implies(rng, z3.And(*[z3.And(srt.lo(f(x)) == 0, srt.hi(f(x)) == w) for x, srt in (("vals_", VALS), ("shapes_", SHP), ("fields_", FLD))],
                    z3.Implies(w == 1, z3.And(ENT.first(S(VALS.arr(f("vals_")), 0)) == SIM, S(FLD.arr(f("fields_")), 0) == SIM)))), patterns=[d]))]

    def fill(L):
        c = L.c
        i = L.acc(I, "i")
        dl = data(L.S, c.this)
        return [("range", z3.And(0 <= i, i <= c.arg(0), REFS.lo(dl) == 0, REFS.hi(dl) == i, L.S.alloc >= L.E.alloc))] + slots(L.S, c.this, L, i, c.old.alloc, L.S.alloc)

    def wipe(L):
        return [("range", L.acc(I, "i") >= 0)]
    add(RC + "set_dump_count", 1, requires=inv, allocs=True, loops={0: wipe, 1: fill},
        modifies=lambda c: gm(c) + [c.field(RC + f, [c.this]) for f in ("data_", "dump_count_")] + [c.field(D + f, only_fresh=True) for f in ("title_", "vals_", "shapes_", "fields_", "manager_")],
        ensures=lambda c: P(delivered(c, c, c.new, nb(c), old_i(c), None) + [("size", z3.And(REFS.lo(data(c.new, c.this)) == 0, REFS.hi(data(c.new, c.this)) == c.arg(0), c.new.f(RC + "dump_count_", c.this) == c.arg(0))),
            ("buffer-free-again", idx(c.new, c.this) == 0)] + slots(c.new, c.this, c, c.arg(0), c.old.alloc, c.new.alloc)))
    add(D + "Record", 0, requires=lambda c: [("manager", c.old.f(D + "manager_", c.this) > 0)] + inv(On(c)), modifies=lambda c: gm(On(c)),
        ensures=lambda c: P(delivered(On(c), c, c.new, nb(On(c)), z3.If(full(On(c)), nd(On(c)), z3.IntVal(0)), None) + [("slot-count", idx(c.new, On(c).this) == z3.If(full(On(c)), 0, old_i(On(c))))]))
    return out


class On:
    """the contract of a datum's recorder, seen from the datum"""
    def __init__(self, c):
        self._c, self.this = c, c.old.f(D + "manager_", c.this)

    def __getattr__(self, n): return getattr(self._c, n)
