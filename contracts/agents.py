"""Contracts on the agent tree, the lifecycle records and the registries (C09)."""
import z3
from engine import *
from lib import *

C = "cyclus::"
A, X_ = C + "Agent::", C + "Context::"
SRCS = ["agent.cc", "context.cc", "institution.cc", "region.cc", "facility.cc"]
SET = SetSort(I)
X, Y = z3.Int("x!ag"), z3.Int("y!ag")
S = z3.Select
MN = MapSort(I, I)


def P(xs): return [("C09:" + n, g) for n, g in xs]


def CFG():
    c = Config()
    c.total_maps = {X_ + "n_prototypes_": z3.IntVal(0), X_ + "n_specs_": z3.IntVal(0)}
    return c


def build():
    out = record_contracts()
    add = lambda *a, **kw: out.append(Contract(*a, **{"prop": ["C09"], **kw}))
    asm = lambda *a, **kw: out.append(Contract(*a, **{"assumed": True, "exact": True, **kw}))
    g = lambda f: (lambda view, r: view.f(A + f, r))
    parent, pid, kids, aid, enter, life, ctx, proto, spec, kind = [g(f) for f in ("parent_", "parent_id_", "children_", "id_", "enter_time_", "lifetime_", "ctx_", "prototype_", "spec_", "kind_")]
    tnow = lambda view, c_: view.v.ufun("time!ag", I, I)(c_)
    out.append(pure(A + "id", 0, lambda c: aid(c.old, c.this)))
    out.append(pure(X_ + "time", 0, lambda c: tnow(c.old, c.this)))

    # ------------------------------------------------------------ the tree --
    def tree(view, ctx_):
        """an agent's parent and the parent's children agree"""
        p1, k1 = view.v.named(ctx_, view.arr(A + "parent_")), view.v.named(ctx_, view.arr(A + "children_"))
        return [("links-agree-down", z3.ForAll([X, Y], z3.Implies(z3.And(Y > 0, S(SET.dom(S(k1, Y)), X)), S(p1, X) == Y), patterns=[S(SET.dom(S(k1, Y)), X)])),
                ("links-agree-up", z3.ForAll([X], z3.Implies(z3.And(X > 0, S(p1, X) > 0), S(SET.dom(S(k1, S(p1, X))), X)), patterns=[S(p1, X)]))]
    tree_req = lambda c: tree(c.old, c)

    def con_ens(c):
        t, p = c.this, c.arg(0)
        k1 = c.v.named(c, c.new.arr(A + "children_"))
        was = parent(c.old, t)
        return P([("its-parent", z3.If(p != 0, z3.And(parent(c.new, t) == p, pid(c.new, t) == aid(c.old, p)), z3.And(parent(c.new, t) == was, pid(c.new, t) == pid(c.old, t)))),
                  ("among-the-children", z3.Implies(p != 0, S(SET.dom(S(k1, p)), t))),
                  ("other-links-kept", z3.ForAll([X, Y], z3.Implies(z3.And(Y > 0, X != t), S(SET.dom(S(k1, Y)), X) == S(SET.dom(S(c.old.arr(A + "children_"), Y)), X)), patterns=[S(SET.dom(S(k1, Y)), X)]))] + tree(c.new, c))
    conm = lambda c: [c.field(A + "parent_", [c.this]), c.field(A + "parent_id_", [c.this]), c.field(A + "children_", [c.arg(0), parent(c.old, c.this)])]
    own = lambda c: [Throws("cyclus::KeyError", c.arg(0) == c.this, must=True, label="C09:not-its-own-child")]
    add(A + "Connect", 1, requires=tree_req, ensures=con_ens, throws=own, modifies=conm)

    anc = lambda c, x, y: c.v.ufun("ancestor", z3.ArraySort(I, I), I, I, B)(c.old.arr(A + "parent_"), x, y)

    def unfold(c, ctx_, x, y):
        p = S(c.old.arr(A + "parent_"), y)
        ctx_.fact(anc(c, x, y) == z3.And(p != 0, z3.Or(p == x, anc(c, x, p))))

    def anc_loop(L):
        c = L.c
        o = L.var("other")
        unfold(c, L, c.this, c.arg(0))
        unfold(c, L, c.this, o)
        return [("so-far", anc(c, c.this, c.arg(0)) == z3.And(o != 0, z3.Or(o == c.this, anc(c, c.this, o))))]
    add(A + "AncestorOf", 1, requires=lambda c: [("other", c.arg(0) > 0)], ensures=lambda c: P([("follows-the-parents", c.ret == anc(c, c.this, c.arg(0)))]), loops={0: anc_loop})
    KA = None
    dec = lambda c, x, y: c.v.ufun("descendant", z3.ArraySort(I, SET), I, I, B)(c.old.arr(A + "children_"), x, y)

    def dec_def(c, ctx_):
        ch = c.v.named(ctx_, SET.dom(kids(c.old, c.arg(0))))
        w = c.v.ufun("between", z3.ArraySort(I, SET), I, I, I)(c.old.arr(A + "children_"), c.this, c.arg(0))
        ctx_.fact(z3.Implies(dec(c, c.this, c.arg(0)), z3.And(S(ch, w), z3.Or(w == c.this, dec(c, c.this, w)))),
                  z3.ForAll([X], z3.Implies(z3.And(S(ch, X), z3.Or(X == c.this, dec(c, c.this, X))), dec(c, c.this, c.arg(0))), patterns=[S(ch, X)]))
        return ch

    def dec_loop(L):
        c = L.c
        dec_def(c, L)
        s = kids(c.old, c.arg(0))
        D = SET.dom(s)
        i = L.pos("it")
        idx = L.v.enum_fn(D)[1]
        return [("range", z3.And(0 <= i, i <= SET.size(s))), ("not-so-far", z3.ForAll([X], z3.Implies(z3.And(S(D, X), idx(D, X) < i), z3.And(X != c.this, z3.Not(dec(c, c.this, X)))), patterns=[S(D, X)]))]

    def dec_ens(c):
        if not c.calling: dec_def(c, c)
        return P([("follows-the-children", c.ret == dec(c, c.this, c.arg(0)))])
    add(A + "DecendentOf", 1, requires=lambda c: [("other", c.arg(0) > 0), ("children", z3.ForAll([X, Y], z3.Implies(z3.And(Y > 0, S(SET.dom(S(c.old.arr(A + "children_"), Y)), X)), X > 0)))],
        ensures=dec_ens, loops={0: dec_loop})

    # ------------------------------------------- coming and going of agents --
    listed = lambda view, x: view.f(X_ + "agent_list_", x)
    NID = A + "next_id_"
    add(A + "Agent", 1, sig="(ctor)(cyclus::Context *)", only_verify=True, requires=lambda c: [("context", c.arg(0) > 0)],
        ensures=lambda c: P([("next-id", z3.And(aid(c.new, c.this) == c.old.g(NID, I), c.new.g(NID, I) == c.old.g(NID, I) + 1)), ("unconnected", z3.And(parent(c.new, c.this) == 0, pid(c.new, c.this) == -1, SET.size(kids(c.new, c.this)) == 0)),
            ("not-built", z3.And(enter(c.new, c.this) == -1, life(c.new, c.this) == -1)), ("listed", SET.dom(listed(c.new, c.arg(0))) == z3.Store(SET.dom(listed(c.old, c.arg(0))), c.this, True))]),
        modifies=lambda c: [c.glob(NID, I), c.field(X_ + "agent_list_", [c.arg(0)])] + [c.field(A + f, [c.this]) for f in ("ctx_", "id_", "kind_", "parent_id_", "enter_time_", "lifetime_", "parent_", "spec_", "prototype_", "children_")])

    def bye_loop(L):
        c = L.c
        s = kids(c.old, c.this)
        D = SET.dom(s)
        i = L.pos("it")
        idx = L.v.enum_fn(D)[1]
        p1, q1 = L.v.named(L, L.S.arr(A + "parent_")), L.v.named(L, L.S.arr(A + "parent_id_"))
        done = z3.And(S(D, X), idx(D, X) < i)
        return [("range", z3.And(0 <= i, i <= SET.size(s))),
                ("left-alone", z3.ForAll([X], z3.And(S(p1, X) == z3.If(done, 0, S(c.old.arr(A + "parent_"), X)), S(q1, X) == z3.If(done, -1, S(c.old.arr(A + "parent_id_"), X))), patterns=[S(p1, X)]))]

    def bye(c):
        t, p = c.this, parent(c.old, c.this)
        p1, k1 = c.v.named(c, c.new.arr(A + "parent_")), c.v.named(c, c.new.arr(A + "children_"))
        q1 = c.v.named(c, c.new.arr(A + "parent_id_"))
        D = SET.dom(kids(c.old, t))
        return P([("children-left-parentless", z3.ForAll([X], z3.And(S(p1, X) == z3.If(S(D, X), 0, S(c.old.arr(A + "parent_"), X)), S(q1, X) == z3.If(S(D, X), -1, S(c.old.arr(A + "parent_id_"), X))), patterns=[S(p1, X)])),
                  ("no-longer-a-child", z3.ForAll([Y], z3.Implies(z3.And(Y > 0, Y != t), SET.dom(S(k1, Y)) == z3.Store(SET.dom(S(c.old.arr(A + "children_"), Y)), t, False)), patterns=[S(k1, Y)])),
                  ("not-listed-any-more", SET.dom(listed(c.new, ctx(c.old, t))) == z3.Store(SET.dom(listed(c.old, ctx(c.old, t))), t, False))])
    add(A + "~Agent", 0, only_verify=True, budget=40, requires=lambda c: tree_req(c) + [("context", ctx(c.old, c.this) > 0), ("children", z3.ForAll([X], z3.Implies(S(SET.dom(kids(c.old, c.this)), X), z3.And(X > 0, X != c.this))))],
        loops={0: bye_loop}, ensures=bye, modifies=lambda c: [c.field(A + "parent_"), c.field(A + "parent_id_"), c.field(A + "children_", [parent(c.old, c.this)]), c.field(X_ + "agent_list_", [ctx(c.old, c.this)])])

    # ------------------------------------------------------------ lifetime --
    add(A + "lifetime", 1, ensures=lambda c: P([("set", life(c.new, c.this) == c.arg(0))]), modifies=lambda c: [c.field(A + "lifetime_", [c.this])],
        throws=lambda c: [Throws("cyclus::ValueError", enter(c.old, c.this) != -1, must=True, label="C09:built-agents-keep-theirs")])
    def lf(c):
        e, n, now = enter(c.old, c.this), c.arg(0), tnow(c.old, ctx(c.old, c.this))
        return P([("set", life(c.new, c.this) == z3.If(z3.And(e != -1, e + n <= now), now - e + 1, n))])
    add(A + "lifetime_force", 1, requires=lambda c: [("context", ctx(c.old, c.this) > 0)], ensures=lf, modifies=lambda c: [c.field(A + "lifetime_", [c.this])])

    # ---------------------------------------------- counts and the records --
    np_, ns_ = lambda view, r: MN.val(view.f(X_ + "n_prototypes_", r)), lambda view, r: MN.val(view.f(X_ + "n_specs_", r))
    cm = lambda c, x: [c.field(X_ + "n_prototypes_", [x]), c.field(X_ + "n_specs_", [x])]

    def counted(c, x, a, d):
        return [("counted-by-prototype", np_(c.new, x) == z3.Store(np_(c.old, x), proto(c.old, a), S(np_(c.old, x), proto(c.old, a)) + d)),
                ("counted-by-spec", ns_(c.new, x) == z3.Store(ns_(c.old, x), spec(c.old, a), S(ns_(c.old, x), spec(c.old, a)) + d))]
    for m, d in (("RegisterAgent", 1), ("UnregisterAgent", -1)):
        add(X_ + m, 1, requires=lambda c: [("agent", c.arg(0) > 0)], ensures=lambda c, d=d: P(counted(c, c.this, c.arg(0), d)), modifies=lambda c: cm(c, c.this))
    has_ctx = lambda c: [("context", ctx(c.old, c.this) > 0)]
    ent = lambda c: P(counted(c, ctx(c.old, c.this), c.this, 1))
    entm = lambda c: cm(c, ctx(c.old, c.this))
    add(A + "EnterNotify", 0, requires=has_ctx, ensures=ent, modifies=entm)
    for cls in ("Institution", "Region", "Facility"):
        add(C + cls + "::EnterNotify", 0, requires=has_ctx, ensures=ent, modifies=entm)
    for m in ("RegisterTimeListener", "UnregisterTimeListener", "RegisterTrader", "UnregisterTrader"):
        asm(X_ + m, 1, ensures=lambda c: [])

    def entry(c, view):
        t = c.this
        return lambda r: row_is(r, {"AgentId": VI(aid(c.old, t)), "Kind": VS(kind(c.old, t)), "Spec": VS(spec(c.old, t)), "Prototype": VS(proto(c.old, t)),
                                    "ParentId": VI(pid(view, t)), "Lifetime": VI(life(view, t)), "EnterTime": VI(enter(view, t))})
    add(A + "AddToTable", 0, allocs=True, requires=has_ctx, ensures=lambda c: P([("one-entry-record", log_appended(c, "AgentEntry", [entry(c, c.old)])), ("nothing-else-recorded", log_only(c, "AgentEntry"))]), modifies=log_mods)

    def bld(c):
        x = ctx(c.old, c.this)
        return con_ens(c) + P([("entered-now", enter(c.new, c.this) == tnow(c.old, x)), ("one-entry-record", log_appended(c, "AgentEntry", [entry(c, c.new)])), ("nothing-else-recorded", log_only(c, "AgentEntry"))] + counted(c, x, c.this, 1))
    add(A + "Build", 1, allocs=True, requires=lambda c: tree_req(c) + has_ctx(c), ensures=bld, throws=own, modifies=lambda c: conm(c) + entm(c) + log_mods(c) + [c.field(A + "enter_time_", [c.this])])

    asm(A + "(delete)", 0, ensures=lambda c: [])
    asm(C + "PyDelAgent", 1, ensures=lambda c: [])
    agents = lambda view, x: view.f(X_ + "agent_list_", x)
    def gone(c, x, a):
        return [("not-listed-any-more", SET.dom(agents(c.new, x)) == z3.Store(SET.dom(agents(c.old, x)), a, False))]
    add(X_ + "DelAgent", 1, requires=lambda c: [("agent", c.arg(0) > 0)], ensures=lambda c: P(gone(c, c.this, c.arg(0))), modifies=lambda c: [c.field(X_ + "agent_list_", [c.this])])

    def decom(c):
        x = ctx(c.old, c.this)
        return P([("one-exit-record", log_appended(c, "AgentExit", [lambda r: row_is(r, {"AgentId": VI(aid(c.old, c.this)), "ExitTime": VI(tnow(c.old, x))})])), ("nothing-else-recorded", log_only(c, "AgentExit"))] + counted(c, x, c.this, -1) + gone(c, x, c.this))
    add(A + "Decommission", 0, allocs=True, requires=has_ctx, ensures=decom, modifies=lambda c: entm(c) + log_mods(c) + [c.field(X_ + "agent_list_", [ctx(c.old, c.this)])])

    # ---------------------------------------------------------- registries --
    def stored(c, f, k, x, srt=MN):
        o, n = c.old.f(X_ + f, c.this), c.v.named(c, c.new.f(X_ + f, c.this))
        return [("returned-by-its-name", z3.And(S(srt.dom(n), k), S(srt.val(n), k) == x if x is not None else True)),
                ("other-names-kept", z3.ForAll([X], z3.Implies(X != k, z3.And(S(srt.dom(n), X) == S(srt.dom(o), X), z3.Implies(S(srt.dom(o), X), S(srt.val(n), X) == S(srt.val(o), X)))), patterns=[S(srt.dom(n), X)]))]
    has = lambda c, f, k: S(MN.dom(c.old.f(X_ + f, c.this)), k)
    regm = lambda c, f: [c.field(X_ + f, [c.this])] + log_mods(c)
    add(X_ + "AddRecipe", 2, allocs=True, requires=lambda c: [("recipe", c.arg(1) > 0)], modifies=lambda c: regm(c, "recipes_"), ensures=lambda c: P(stored(c, "recipes_", c.arg(0), c.arg(1)) + [
        ("recorded", log_appended(c, "Recipes", [lambda r: row_is(r, {"Recipe": VS(c.arg(0)), "QualId": VI(c.old.f(C + "Composition::id_", c.arg(1)))})])), ("nothing-else-recorded", log_only(c, "Recipes"))]))
    out.append(pure(C + "Composition::id", 0, lambda c: c.old.f(C + "Composition::id_", c.this)))
    add(X_ + "GetRecipe", 1, ensures=lambda c: P([("by-name", c.ret == S(MN.val(c.old.f(X_ + "recipes_", c.this)), c.arg(0)))]),
        throws=lambda c: [Throws("cyclus::KeyError", z3.Not(has(c, "recipes_", c.arg(0))), must=True, label="C09:unknown-recipe")], modifies=lambda c: [])
    for what, f, cls, n, tab, lab, std in (("Package", "packages_", "Package", R, "Packages", "PackageName", "unpackaged"), ("TransportUnit", "transport_units_", "TransportUnit", I, "TransportUnits", "TransportUnitName", "unrestricted")):
        Q = C + cls + "::"
        fl = lambda view, x, q=Q: [view.f(q + y, x) for y in ("name_", "fill_min_", "fill_max_", "strategy_")]
        fresh = lambda c, q=Q: [c.field(q + y, only_fresh=True) for y in ("name_", "fill_min_", "fill_max_", "strategy_")]
        asm(Q + "Create", 4, allocs=True, ensures=lambda c, fl=fl: [fresh_ret(c), ("as-stated", z3.And(*[a == b for a, b in zip(fl(c.new, c.ret), [c.arg(i) for i in range(4)])]))],
            throws=lambda c: [Throws("cyclus::ValueError", z3.BoolVal(True), must=False)], modifies=fresh)
        row = lambda c, view, x, fl=fl, lab=lab, n=n: (lambda r: row_is(r, dict(zip((lab, "FillMin", "FillMax", "Strategy"), [VS(fl(view, x)[0]), (VR if n == R else VI)(fl(view, x)[1]), (VR if n == R else VI)(fl(view, x)[2]), VS(fl(view, x)[3])]))))
        add(X_ + "Record" + what, 1, allocs=True, requires=lambda c: [("thing", c.arg(0) > 0)], modifies=log_mods, ensures=lambda c, row=row, tab=tab: P([("recorded", log_appended(c, tab, [row(c, c.old, c.arg(0))])), ("nothing-else-recorded", log_only(c, tab))]))

        def addens(c, f=f, fl=fl, row=row, tab=tab):
            m1 = c.new.f(X_ + f, c.this)
            x = S(MN.val(m1), c.arg(0))
            return P(stored(c, f, c.arg(0), None) + [("as-stated", z3.And(*[a == b for a, b in zip(fl(c.new, x), [c.arg(i) for i in range(4)])])),
                     ("recorded", log_appended(c, tab, [row(c, c.new, x)])), ("nothing-else-recorded", log_only(c, tab))])
        add(X_ + "Add" + what, 4, allocs=True, ensures=addens, modifies=lambda c, f=f, fresh=fresh: regm(c, f) + fresh(c),
            throws=lambda c, f=f, fresh=fresh: [Throws("cyclus::KeyError", has(c, f, c.arg(0)), must=True, label="C09:name-taken"), Throws("cyclus::ValueError", z3.Not(has(c, f, c.arg(0))), must=False, label="C09:refused", modifies=fresh)])
        asm(Q + std, 0, ensures=lambda c, q=Q: [("one", c.ret == c.v.ufun("std!" + q, I)())], allocs=True)
        nm = lambda c, q=Q: c.v.ufun("stdname!" + q, I)()
        out.append(pure(Q + std + "_name", 0, lambda c, nm=nm: nm(c)))
        add(X_ + "Get" + what, 1, allocs=True, ensures=lambda c, f=f, q=Q, nm=nm: P([("by-name", c.ret == z3.If(c.arg(0) == nm(c), c.v.ufun("std!" + q, I)(), S(MN.val(c.old.f(X_ + f, c.this)), c.arg(0))))]), modifies=lambda c: [],
            throws=lambda c, f=f, nm=nm: [Throws("cyclus::KeyError", z3.And(c.arg(0) != nm(c), z3.Not(has(c, f, c.arg(0)))), must=True, label="C09:unknown-name")])

    asm(C + "SimInit::SnapAgent", 1, allocs=True, modifies=log_mods, ensures=lambda c: [("own-tables", z3.And(*[z3.Select(log_of(c.new), strlit(t)) == z3.Select(log_of(c.old), strlit(t)) for t in ("Prototypes", "AgentVersions")]))])
    asm(A + "version", 0, ensures=lambda c: [])
    ver = lambda view, r: SET.dom(view.f(X_ + "rec_ver_", r))

    def ap(c):
        p = c.arg(1)
        seen = S(ver(c.old, c.this), spec(c.old, p))
        o, n = rows(c.old, "AgentVersions"), rows(c.new, "AgentVersions")
        return P(stored(c, "protos_", c.arg(0), p) + [("recorded", log_appended(c, "Prototypes", [lambda r: row_is(r, {"Prototype": VS(c.arg(0)), "AgentId": VI(aid(c.old, p)), "Spec": VS(spec(c.old, p))})])),
                 ("version-recorded-once", z3.And(Rows.hi(n) == Rows.hi(o) + z3.If(seen, 0, 1), ver(c.new, c.this) == z3.Store(ver(c.old, c.this), spec(c.old, p), True)))])
    apm = lambda c: regm(c, "protos_") + [c.field(X_ + "rec_ver_", [c.this])]
    add(X_ + "AddPrototype", 3, allocs=True, requires=lambda c: [("agent", c.arg(1) > 0)], ensures=ap, modifies=apm, throws=lambda c: [Throws("cyclus::KeyError", z3.And(z3.Not(c.arg(2)), has(c, "protos_", c.arg(0))), must=True, label="C09:name-taken")])
    add(X_ + "AddPrototype", 2, allocs=True, requires=lambda c: [("agent", c.arg(1) > 0)], ensures=ap, modifies=apm, throws=lambda c: [Throws("cyclus::KeyError", has(c, "protos_", c.arg(0)), must=True, label="C09:name-taken")])
    return out
