"""Contracts on Material, Product, Resource and ResTracker (C01, C02, C04)."""
import z3
from engine import *
from lib import *
import compmath
from compmath import comp_inv, mview, aview, CompMap, dom, val, get, total, allk, wfm, isnuc, amass, mabs, size, conv, scaled

M = "cyclus::Material::"
P = "cyclus::Product::"
TR = "cyclus::ResTracker::"
RS = "cyclus::Resource::"
CP = "cyclus::Composition::"
SRCS = ["material.cc", "product.cc", "res_tracker.cc", "resource.cc", "composition.cc", "comp_math.cc", "cyc_arithmetic.cc",
        "context.cc", "package.cc", "drivers/inst.cc"]
QUALIDS = MapSort(I, I)
UNPKG = "unpackaged"
GHOSTS = {n: ghost("ghost::Resource." + n, s) for n, s in
          (("quantity", R), ("units", I), ("type", I), ("qual_id", I), ("package_name", I))}
TIME = ghost("ghost::Context.time", I)


# --------------------------------------------- what a resource looks like --
def isM(view, r): return is_type(view.v, r, "cyclus::Material")
def isP(view, r): return is_type(view.v, r, "cyclus::Product")


def disp(view, r, m, p, g):
    return z3.If(isM(view, r), m, z3.If(isP(view, r), p, view.f(GHOSTS[g], r)))


def rq(view, r): return disp(view, r, view.f(M + "qty_", r), view.f(P + "quantity_", r), "quantity")
def runits(view, r): return disp(view, r, strlit("kg"), strlit("NONE"), "units")
def rtype(view, r): return disp(view, r, strlit("Material"), strlit("Product"), "type")
def rpkg(view, r): return disp(view, r, view.f(M + "package_name_", r), view.f(P + "package_name_", r), "package_name")


def rqual(view, r):
    q = view.g(P + "qualids_", QUALIDS)
    k = view.f(P + "quality_", r)
    return disp(view, r, view.f(CP + "id_", view.f(M + "comp_", r)),
                z3.If(z3.Select(QUALIDS.dom(q), k), z3.Select(QUALIDS.val(q), k), z3.IntVal(0)), "qual_id")


def virtuals():
    out = [pure(RS + "quantity", 0, lambda c: rq(c.old, c.this)), pure(RS + "units", 0, lambda c: runits(c.old, c.this)),
           pure(RS + "type", 0, lambda c: rtype(c.old, c.this)), pure(RS + "package_name", 0, lambda c: rpkg(c.old, c.this)),
           pure(RS + "qual_id", 0, lambda c: rqual(c.old, c.this)),
           pure("cyclus::Context::time", 0, lambda c: c.new.f(TIME, c.this))]
    # Resource::Record dispatches to Material::Record / Product::Record (both under contract)
    out.append(Contract(RS + "Record", 1, assumed=True, exact=True, allocs=True, modifies=rec_mods,
                        ensures=lambda c: rec_ens(c)))
    return out


def rec_mods(c):
    return log_mods(c) + [c.field(CP + "recorded_"), c.field(CP + "mass_")]


def rec_ens(c):
    return [("only-quality-tables", log_only(c, "MaterialInfo", "Compositions")),
            ("info-row", z3.Implies(isM(c.old, c.this), log_appended(c, "MaterialInfo", [lambda r: row_is(r, {
                "ResourceId": VI(c.old.f(RS + "state_id_", c.this)),
                "PrevDecayTime": VI(c.old.f(M + "prev_decay_time_", c.this))})]))),
            ("comps-kept", comps_kept(c))]


def comps_kept(c):
    """lazily computed forms may be filled in, but no composition changes its meaning"""
    x = z3.Int("cp!x")
    o, n, a = c.old.f(CP + "mass_", x), c.new.f(CP + "mass_", x), c.new.f(CP + "atom_", x)
    old = c.v.old_ref(x, c.old.alloc)
    return z3.ForAll([x], z3.Implies(old, z3.Or(n == o, z3.And(size(o) == 0, conv(c.v)(n, a)))), patterns=[n])


# ------------------------------------------------------------ frames -------
def tr(view, m, cls): return view.sub(cls + "tracker_", m)


def res_row(c, r, p1, p2, trk):
    """the Resources row of resource r as it is after the call"""
    n = c.new
    return lambda row: row_is(row, {
        "ResourceId": VI(n.f(RS + "state_id_", r)), "ObjId": VI(n.f(RS + "obj_id_", r)), "Type": VS(rtype(n, r)),
        "TimeCreated": VI(n.f(TIME, n.f(TR + "ctx_", trk))), "Quantity": VR(rq(n, r)), "Units": VS(runits(n, r)),
        "QualId": VI(rqual(n, r)), "PackageName": VS(rpkg(n, r)), "Parent1": VI(p1), "Parent2": VI(p2)})


NEXT = RS + "nextstate_id_"


def nxt(view): return view.g(NEXT, I)


def tracker_contracts():
    out = []
    add = lambda *a, **k: out.append(Contract(*a, **k))

    def rec_mod(c):
        return rec_mods(c) + [c.field(RS + "state_id_", [c.old.f(TR + "res_", c.this)]), c.glob(NEXT, I)]

    def base_req(c, t=None, on=None):
        t = c.this if t is None else t
        r = c.old.f(TR + "res_", t)
        on = c.old.f(TR + "tracked_", t) if on is None else on
        return [("resource", z3.Implies(on, z3.And(r > 0, r <= c.old.alloc))),
                ("context-if-tracked", z3.Implies(on, c.old.f(TR + "ctx_", t) > 0)),
                ("composition", z3.Implies(z3.And(on, isM(c.old, r)), z3.And(
                    c.old.f(M + "comp_", r) > 0, c.old.f(M + "comp_", r) <= c.old.alloc, comp_inv(c.old, c.old.f(M + "comp_", r)))))]

    def record_ens(c):
        r = c.old.f(TR + "res_", c.this)
        b = c.arg(0)
        return [("one-row", log_appended(c, "Resources", [res_row(c, r, c.old.f(TR + "parent1_", c.this), c.old.f(TR + "parent2_", c.this), c.this)])),
                ("tables", log_only(c, "Resources", "MaterialInfo", "Compositions")),
                ("fresh-state-id", z3.If(b, z3.And(c.new.f(RS + "state_id_", r) == nxt(c.old), nxt(c.new) == nxt(c.old) + 1),
                                         z3.And(c.new.f(RS + "state_id_", r) == c.old.f(RS + "state_id_", r), nxt(c.new) == nxt(c.old)))),
                ("comps-kept", comps_kept(c))]

    add(TR + "Record", 1, prop=["C04"], allocs=True, modifies=rec_mod, ensures=record_ens,
        requires=lambda c: base_req(c, on=z3.BoolVal(True)))

    add(TR + "DontTrack", 0, prop=["C04"], exact=True, modifies=lambda c: [c.field(TR + "tracked_", [c.this])],
        ensures=lambda c: [("untracked", z3.Not(c.new.f(TR + "tracked_", c.this)))])

    def tracked(c): return c.old.f(TR + "tracked_", c.this)
    def res(c): return c.old.f(TR + "res_", c.this)
    def sid(view, r): return view.f(RS + "state_id_", r)
    def untr(c, *more): return [("untracked-silent", z3.Implies(z3.Not(tracked(c)), z3.And(log_same(c), nxt(c.new) == nxt(c.old),
                                                                                      sid(c.new, res(c)) == sid(c.old, res(c)))))]
    def pmods(c, *t):
        return rec_mod(c) + [c.field(TR + "parent1_", [c.this] + list(t)), c.field(TR + "parent2_", [c.this] + list(t))]

    # creation: parents 0/0, no new id needed, creator recorded
    def create_ens(c):
        r = res(c)
        return untr(c) + [
            ("row", z3.Implies(tracked(c), log_appended(c, "Resources", [res_row(c, r, z3.IntVal(0), z3.IntVal(0), c.this)]))),
            ("creator-row", z3.Implies(tracked(c), log_appended(c, "ResCreators", [lambda row: row_is(row, {
                "ResourceId": VI(sid(c.new, r)), "AgentId": VI(c.old.f("cyclus::Agent::id_", c.arg(0)))})]))),
            ("tables", log_only(c, "Resources", "ResCreators", "MaterialInfo", "Compositions")),
            ("id", sid(c.new, r) == sid(c.old, r)), ("next", nxt(c.new) == nxt(c.old)), ("comps-kept", comps_kept(c))]

    add(TR + "Create", 1, prop=["C04"], allocs=True, modifies=pmods, ensures=create_ens, requires=lambda c: base_req(c) + [("creator", c.arg(0) > 0)])

    def bumped(c, r): return z3.And(sid(c.new, r) >= nxt(c.old), sid(c.new, r) < nxt(c.new))

    def modify_ens(c):
        r = res(c)
        return untr(c) + [("row", z3.Implies(tracked(c), z3.And(bumped(c, r), log_appended(c, "Resources", [res_row(c, r, sid(c.old, r), z3.IntVal(0), c.this)])))),
                          ("tables", log_only(c, "Resources", "MaterialInfo", "Compositions")),
                          ("next", z3.Implies(tracked(c), nxt(c.new) == nxt(c.old) + 1)), ("comps-kept", comps_kept(c))]

    add(TR + "Modify", 0, prop=["C04"], allocs=True, modifies=pmods, ensures=modify_ens, requires=base_req)

    def extract_ens(c):
        r, x = res(c), c.arg(0)
        rr = c.old.f(TR + "res_", x)
        left = rq(c.old, r) > EPS(c.old)
        row_r = res_row(c, rr, sid(c.old, r), z3.IntVal(0), x)
        row_l = res_row(c, r, sid(c.old, r), z3.IntVal(0), c.this)
        return untr(c) + [
            ("tracked-inherited", c.new.f(TR + "tracked_", x) == tracked(c)),
            ("split-row", z3.Implies(z3.And(tracked(c), left), z3.And(bumped(c, r), bumped(c, rr), sid(c.new, r) != sid(c.new, rr),
                                                                      log_appended(c, "Resources", [row_r, row_l])))),
            ("whole-row", z3.Implies(z3.And(tracked(c), z3.Not(left)), z3.And(bumped(c, rr), sid(c.new, r) == sid(c.old, r),
                                                                              log_appended(c, "Resources", [row_r])))),
            ("tables", log_only(c, "Resources", "MaterialInfo", "Compositions")),
            ("untracked-removed", z3.Implies(z3.Not(tracked(c)), sid(c.new, rr) == sid(c.old, rr))), ("comps-kept", comps_kept(c))]

    def extract_mods(c):
        x = c.arg(0)
        return rec_mods(c) + [c.field(RS + "state_id_", [res(c), c.old.f(TR + "res_", x)]), c.glob(NEXT, I),
                              c.field(TR + "parent1_", [c.this, x]), c.field(TR + "parent2_", [c.this, x]), c.field(TR + "tracked_", [x])]

    add(TR + "Extract", 1, prop=["C04"], allocs=True, modifies=extract_mods, ensures=extract_ens,
        requires=lambda c: base_req(c) + [(n + "-removed", g) for n, g in base_req(c, c.arg(0), tracked(c))] + [
            ("distinct", z3.And(c.arg(0) != 0, c.arg(0) != c.this, z3.Implies(tracked(c), c.old.f(TR + "res_", c.arg(0)) != res(c)))),
            ("same-context", z3.Implies(tracked(c), c.old.f(TR + "ctx_", c.arg(0)) == c.old.f(TR + "ctx_", c.this)))])

    def absorb_ens(c):
        r, x = res(c), c.arg(0)
        rr = c.old.f(TR + "res_", x)
        return untr(c) + [("row", z3.Implies(tracked(c), z3.And(bumped(c, r), log_appended(c, "Resources", [
            res_row(c, r, sid(c.old, r), sid(c.old, rr), c.this)])))),
            ("tables", log_only(c, "Resources", "MaterialInfo", "Compositions")), ("comps-kept", comps_kept(c))]

    add(TR + "Absorb", 1, prop=["C04"], allocs=True, modifies=pmods, ensures=absorb_ens,
        requires=lambda c: base_req(c) + [("absorbed", z3.And(c.arg(0) != 0, z3.Implies(tracked(c), c.old.f(TR + "res_", c.arg(0)) > 0)))])

    def pkg_tracked(c): return z3.If(c.arg(0) == 0, tracked(c), c.old.f(TR + "tracked_", c.arg(0)))

    def pkg_ens(c):
        r, par = res(c), c.arg(0)
        pr = c.old.f(TR + "res_", par)
        pt = pkg_tracked(c)
        return [
            ("tracked-inherited", c.new.f(TR + "tracked_", c.this) == pt),
            ("untracked-silent", z3.Implies(z3.Not(pt), z3.And(log_same(c), nxt(c.new) == nxt(c.old), sid(c.new, r) == sid(c.old, r)))),
            ("split-row", z3.Implies(z3.And(pt, par != 0), z3.And(sid(c.new, r) == sid(c.old, r), log_appended(
                c, "Resources", [res_row(c, r, sid(c.old, pr), z3.IntVal(0), c.this)])))),
            ("repackaged-row", z3.Implies(z3.And(pt, par == 0), z3.And(bumped(c, r), log_appended(
                c, "Resources", [res_row(c, r, sid(c.old, r), z3.IntVal(0), c.this)])))),
            ("next", nxt(c.new) == nxt(c.old) + z3.If(z3.And(pt, par == 0), 1, 0)),
            ("tables", log_only(c, "Resources", "MaterialInfo", "Compositions")), ("comps-kept", comps_kept(c))]

    add(TR + "Package", 1, prop=["C04"], allocs=True, ensures=pkg_ens,
        modifies=lambda c: pmods(c) + [c.field(TR + "package_name_", [c.this]), c.field(TR + "tracked_", [c.this])],
        requires=lambda c: base_req(c, on=pkg_tracked(c)) + [("parent", z3.Implies(c.arg(0) != 0, z3.And(
            c.arg(0) != c.this, z3.Implies(pkg_tracked(c), c.old.f(TR + "res_", c.arg(0)) > 0))))])
    return out



# ------------------------------------------------- resources proper --------
SI = "cyclus::Context::si_"
NOBJ = RS + "nextobj_id_"


def mods(c, **spec):
    """modifies clause: field -> objects whose value may change (fresh objects always may)"""
    return [c.field(f.replace("__", "::") if "::" not in f else f, refs) for f, refs in spec.items()]


def modset(c, spec): return [c.field(f, refs) for f, refs in spec.items()]


def lazy(view, ctx): return z3.And(ctx != 0, view.f("cyclus::SimInfo::decay", view.sub(SI, ctx)) == strlit("lazy"))
def never(view, ctx): return z3.And(ctx != 0, view.f("cyclus::SimInfo::decay", view.sub(SI, ctx)) == strlit("never"))
def trk(view, m, cls=M): return view.f(TR + "tracked_", tr(view, m, cls))


def res_inv(view, m, cls):
    """class invariant of Material and Product"""
    t = tr(view, m, cls)
    cs = [m > 0, (isM if cls == M else isP)(view, m),
          view.f(TR + "res_", t) == m,
          z3.Implies(view.f(TR + "tracked_", t), z3.And(view.f(TR + "ctx_", t) == view.f(cls + "ctx_", m), view.f(cls + "ctx_", m) > 0))]
    if cls == M: cs += [view.f(M + "comp_", m) > 0, view.f(M + "comp_", m) <= view.alloc, comp_inv(view, view.f(M + "comp_", m))]
    return z3.And(*cs)


def fresh_fields(c, cls):
    d = {RS + "state_id_": [], RS + "obj_id_": [], cls + "ctx_": [], cls + "package_name_": []}
    for f in ("tracked_", "res_", "ctx_", "parent1_", "parent2_", "package_name_"): d[TR + f] = []
    for f in (("qty_", "comp_", "prev_decay_time_") if cls == M else ("quality_", "quantity_")): d[cls + f] = []
    return d


def comp_fresh(c): return {CP + f: [] for f in ("id_", "prev_decay_", "decay_line_", "atom_")}


def rec_all(c): return log_mods(c) + [c.field(CP + "recorded_"), c.field(CP + "mass_"), c.glob(NEXT, I), c.glob(NOBJ, I)]


def T(c, m, cls): return tr(c.old, m, cls)


def material_contracts():
    out = []
    add = lambda *a, **k: out.append(Contract(*a, **k))
    qty, comp = M + "qty_", M + "comp_"

    add(M + "quantity", 0, prop=["C01"], exact=True, ensures=lambda c: [("C01:reads-quantity", c.ret == c.old.f(qty, c.this))])
    add(M + "qual_id", 0, prop=["C04"], exact=True, requires=lambda c: [("inv", c.old.f(comp, c.this) > 0)],
        ensures=lambda c: [("C04:composition-id", c.ret == c.old.f(CP + "id_", c.old.f(comp, c.this)))])
    add(M + "type", 0, prop=["C04"], ensures=lambda c: [("C04:type", c.ret == strlit("Material"))])
    add(M + "units", 0, prop=["C04"], ensures=lambda c: [("C04:units", c.ret == strlit("kg"))])
    add(M + "package_name", 0, prop=["C04"], ensures=lambda c: [("C04:package", c.ret == c.old.f(M + "package_name_", c.this))])

    # composition rows
    def crec_ens(c):
        rec = c.old.f(CP + "recorded_", c.this)
        m = c.new.f(CP + "mass_", c.this)
        i = z3.Int("i!cr")
        o, n = rows(c.old, "Compositions"), rows(c.new, "Compositions")
        k = z3.Int("k!cr")
        some = lambda k: z3.Exists([i], z3.And(i >= Rows.hi(o), i < Rows.hi(n), row_is(row_at(n, i), {
            "QualId": VI(c.old.f(CP + "id_", c.this)), "NucId": VI(k)})))
        return [("C04:tables", log_only(c, "Compositions")), ("C04:recorded", c.new.f(CP + "recorded_", c.this)),
                ("C04:once", z3.Implies(rec, log_same(c))),
                ("C04:one-row-per-nuclide", z3.Implies(z3.Not(rec), z3.And(grows(o, n), Rows.hi(n) == Rows.hi(o) + size(m)))),
                ("comps-kept", comps_kept(c))]

    def crec_inv(L):
        it = L.it
        i = L.pos()
        o, n = rows(L.E, "Compositions"), rows(L.S, "Compositions")
        t = z3.Int("t!log")
        lo, ln = log_of(L.E), log_of(L.S)
        return [("range", z3.And(0 <= i, i <= it.n)), ("rows", z3.And(grows(o, n), Rows.hi(n) == Rows.hi(o) + i)),
                ("others", z3.ForAll([t], z3.Implies(t != strlit("Compositions"), z3.Select(ln, t) == z3.Select(lo, t)))),
                ("flag", L.S.f(CP + "recorded_", L.c.this))]

    add(CP + "Record", 1, prop=["C04"], allocs=True, loops={0: crec_inv}, ensures=crec_ens,
        requires=lambda c: [("ctx", c.arg(0) > 0), ("comp", comp_inv(c.old, c.this))],
        modifies=lambda c: log_mods(c) + [c.field(CP + "recorded_", [c.this]), c.field(CP + "mass_", [c.this])])

    add(M + "Record", 1, prop=["C04"], allocs=True, modifies=lambda c: rec_mods(c),
        requires=lambda c: [("inv", z3.And(c.old.f(M + "ctx_", c.this) > 0, c.arg(0) > 0, c.old.f(comp, c.this) > 0, c.old.f(comp, c.this) <= c.old.alloc, comp_inv(c.old, c.old.f(comp, c.this))))],
        ensures=lambda c: [("C04:" + n if n != "comps-kept" else n, g) for n, g in rec_ens(c)])

    # --- creation
    def cls_create(cls):
        f = qty if cls == M else P + "quantity_"
        name = "package_name_"

        def mod(c):
            d = fresh_fields(c, cls)
            return modset(c, d) + rec_all(c) + ([c.glob(P + "qualids_", QUALIDS), c.glob(P + "next_qualid_", I)] if cls == P else [])

        def ens(c):
            r = c.ret
            ctx = c.old.f("cyclus::Agent::ctx_", c.arg(0))
            out = [fresh_ret(c), ("C01:quantity", c.new.f(f, r) == c.arg(1)),
                   ("C04:package", c.new.f(cls + name, r) == c.arg(3)), ("C04:context", c.new.f(cls + "ctx_", r) == ctx),
                   ("C04:tracked", trk(c.new, r, cls)), ("inv", res_inv(c.new, r, cls)),
                   ("C04:new-ids", z3.And(c.new.f(RS + "state_id_", r) >= nxt(c.old), c.new.f(RS + "state_id_", r) < nxt(c.new),
                                          c.new.f(RS + "obj_id_", r) == c.old.g(NOBJ, I), c.new.g(NOBJ, I) == c.old.g(NOBJ, I) + 1)),
                   ("C04:row", log_appended(c, "Resources", [res_row(c, r, z3.IntVal(0), z3.IntVal(0), tr(c.new, r, cls))])),
                   ("C04:creator", log_appended(c, "ResCreators", [lambda row: row_is(row, {
                       "ResourceId": VI(c.new.f(RS + "state_id_", r)), "AgentId": VI(c.old.f("cyclus::Agent::id_", c.arg(0)))})])),
                   ("comps-kept", comps_kept(c))]
            if cls == M:
                out += [("C02:composition", c.new.f(comp, r) == c.arg(2)),
                        ("C04:tables", log_only(c, "Resources", "ResCreators", "MaterialInfo", "Compositions"))]
            else:
                q0, q1 = c.old.g(P + "qualids_", QUALIDS), c.new.g(P + "qualids_", QUALIDS)
                k = c.arg(2)
                known = z3.Select(QUALIDS.dom(q0), k)
                out += [("C04:quality", c.new.f(P + "quality_", r) == k),
                        ("C04:quality-id", z3.If(known, q1 == q0, z3.And(
                            z3.Select(QUALIDS.dom(q1), k), z3.Select(QUALIDS.val(q1), k) == c.old.g(P + "next_qualid_", I),
                            c.new.g(P + "next_qualid_", I) == c.old.g(P + "next_qualid_", I) + 1,
                            log_appended(c, "Products", [lambda row: row_is(row, {"QualId": VI(c.old.g(P + "next_qualid_", I)), "Quality": VS(k)})])))),
                        ("C04:other-qualities", allint(lambda x: z3.Implies(x != k, z3.And(
                            z3.Select(QUALIDS.dom(q1), x) == z3.Select(QUALIDS.dom(q0), x), z3.Select(QUALIDS.val(q1), x) == z3.Select(QUALIDS.val(q0), x))))),
                        ("C04:tables", log_only(c, "Resources", "ResCreators", "MaterialInfo", "Compositions", "Products"))]
            return out

        def req(c):
            l = [("creator", z3.And(c.arg(0) > 0, c.old.f("cyclus::Agent::ctx_", c.arg(0)) > 0))]
            if cls == M: l.append(("composition", z3.And(c.arg(2) > 0, c.arg(2) <= c.old.alloc, comp_inv(c.old, c.arg(2)))))
            return l
        add(cls + "Create", 4, prop=["C01", "C02", "C04"] if cls == M else ["C01", "C04"], allocs=True, modifies=mod, ensures=ens, requires=req)

        def uens(c):
            r = c.ret
            out = [fresh_ret(c), ("C01:quantity", c.new.f(f, r) == c.arg(0)), ("C04:untracked", z3.Not(trk(c.new, r, cls))),
                   ("inv", res_inv(c.new, r, cls)), ("C04:package", c.new.f(cls + "package_name_", r) == strlit(UNPKG)),
                   ("C04:no-context", c.new.f(cls + "ctx_", r) == 0),
                   ("C02:composition" if cls == M else "C04:quality", c.new.f(comp if cls == M else P + "quality_", r) == c.arg(1))]
            return out
        add(cls + "CreateUntracked", 2, prop=["C01", "C02", "C04"] if cls == M else ["C01", "C04"], allocs=True, ensures=uens,
            modifies=lambda c: modset(c, fresh_fields(c, cls)) + [c.glob(NEXT, I), c.glob(NOBJ, I)],
            requires=lambda c: [("composition", z3.And(c.arg(1) > 0, c.arg(1) <= c.old.alloc, comp_inv(c.old, c.arg(1))))] if cls == M else [])

        def clone_ens(c):
            r = c.ret
            same = [cls + "package_name_", cls + "ctx_", f] + ([comp, M + "prev_decay_time_"] if cls == M else [P + "quality_"]) + [
                RS + "state_id_", RS + "obj_id_"]
            return [fresh_ret(c), ("C01:copy", z3.And(*[c.new.f(x, r) == c.old.f(x, c.this) for x in same])),
                    ("C04:untracked", z3.Not(trk(c.new, r, cls))), ("inv", res_inv(c.new, r, cls))]
        add(cls + "Clone", 0, prop=["C01", "C04"], allocs=True, ensures=clone_ens, requires=lambda c: [("inv", res_inv(c.old, c.this, cls))],
            modifies=lambda c: modset(c, fresh_fields(c, cls)))

    cls_create(M)
    cls_create(P)

    # --- splitting
    def split_rows(c, r, cls, old_sid):
        """rows of a split: the new piece always, the remainder if any is left"""
        f = qty if cls == M else P + "quantity_"
        row_r = res_row(c, r, old_sid, z3.IntVal(0), tr(c.new, r, cls))
        row_l = res_row(c, c.this, old_sid, z3.IntVal(0), tr(c.new, c.this, cls))
        left = c.new.f(f, c.this) > EPS(c.old)
        on = trk(c.old, c.this, cls)
        sid = lambda v, x: v.f(RS + "state_id_", x)
        b = lambda x: z3.And(sid(c.new, x) >= nxt(c.old), sid(c.new, x) < nxt(c.new))
        return [("C04:silent-if-untracked", z3.Implies(z3.Not(on), z3.And(log_same(c), sid(c.new, c.this) == sid(c.old, c.this)))),
                ("C04:tracked-inherited", z3.And(trk(c.new, r, cls) == on, trk(c.new, c.this, cls) == on)),
                ("C04:split-rows", z3.Implies(z3.And(on, left), z3.And(b(r), b(c.this), sid(c.new, r) != sid(c.new, c.this),
                                                                       log_appended(c, "Resources", [row_r, row_l])))),
                ("C04:whole-row", z3.Implies(z3.And(on, z3.Not(left)), z3.And(b(r), sid(c.new, c.this) == sid(c.old, c.this),
                                                                               log_appended(c, "Resources", [row_r])))),
                ("C04:object-ids", z3.And(c.new.f(RS + "obj_id_", r) == c.old.g(NOBJ, I), c.new.f(RS + "obj_id_", c.this) == c.old.f(RS + "obj_id_", c.this))),
                ("C04:tables", log_only(c, "Resources", "MaterialInfo", "Compositions"))]

    def split_mods(c, cls):
        d = fresh_fields(c, cls)
        t = T(c, c.this, cls)
        d.update({RS + "state_id_": [c.this], TR + "parent1_": [t], TR + "parent2_": [t]})
        if cls == M: d.update({qty: [c.this], comp: [c.this]}); d.update(comp_fresh(c))
        else: d.update({P + "quantity_": [c.this]})
        return modset(c, d) + rec_all(c) + ([c.glob(CP + "next_id_", I)] if cls == M else [])

    def ec_parts(c):
        c0, c1 = c.old.f(comp, c.this), c.arg(1)
        m0, m1 = c.new.f(CP + "mass_", c0), c.new.f(CP + "mass_", c1)
        return c0, c1, m0, m1, total(c.v, m0), total(c.v, m1)

    def ec_ens(c):
        q0, x, thr, r = c.old.f(qty, c.this), c.arg(0), c.arg(2), c.ret
        c0, c1, m0, m1, t0, t1 = ec_parts(c)
        nc = c.new.f(comp, c.this)
        nm = c.new.f(CP + "mass_", nc)
        d = lambda k: scaled(c.v, get(m0, k), q0, t0) - scaled(c.v, get(m1, k), x, t1)
        out = [fresh_ret(c), ("C01:extracted", c.new.f(qty, r) == x), ("C01:conserved", c.new.f(qty, c.this) + c.new.f(qty, r) == q0),
               ("C02:piece-composition", c.new.f(comp, r) == c1),
               ("C02:remainder-kept", z3.Implies(c0 == c1, nc == c0)),
               ("C02:remainder-nuclides", z3.Implies(c0 != c1, allk(lambda k: get(nm, k) == z3.If(mabs(d(k)) > thr, d(k), z3.RealVal(0))))),
               ("C02:same-decay-clock", z3.And(c.new.f(M + "prev_decay_time_", r) == c.old.f(M + "prev_decay_time_", c.this))),
               ("inv-this", res_inv(c.new, c.this, M)), ("inv-ret", res_inv(c.new, r, M)),
               ("context", c.new.f(M + "ctx_", r) == c.old.f(M + "ctx_", c.this)),
               ("package", c.new.f(M + "package_name_", r) == strlit(UNPKG)), ("comps-kept", comps_kept(c))]
        return out + split_rows(c, r, M, c.old.f(RS + "state_id_", c.this))

    def ec_throws(c):
        q0, x, thr = c.old.f(qty, c.this), c.arg(0), c.arg(2)
        lazyfill = lambda c: [c.field(CP + "mass_")]
        diff = c.old.f(comp, c.this) != c.arg(1)
        keep = lambda c: [("comps-kept", comps_kept(c))]
        return [Throws("cyclus::ValueError", q0 < x, label="more-than-there-is"),
                Throws("cyclus::ValueError", z3.And(q0 >= x, diff), must=False, modifies=lazyfill, ensures=keep, label="impossible-composition")]

    add(M + "ExtractComp", 3, prop=["C01", "C02", "C04"], allocs=True, ensures=ec_ens, throws=ec_throws, modifies=lambda c: split_mods(c, M),
        requires=lambda c: [("inv", res_inv(c.old, c.this, M)), ("composition", z3.And(c.arg(1) > 0, c.arg(1) <= c.old.alloc, comp_inv(c.old, c.arg(1))))])

    def eq_ens(c, whole=True):
        q0, x, r = c.old.f(qty, c.this), c.arg(0), c.ret
        return [fresh_ret(c), ("C01:extracted", c.new.f(qty, r) == x), ("C01:conserved", c.new.f(qty, c.this) + c.new.f(qty, r) == q0),
                ("C02:same-composition", z3.And(c.new.f(comp, r) == c.old.f(comp, c.this), c.new.f(comp, c.this) == c.old.f(comp, c.this))),
                ("C02:same-decay-clock", c.new.f(M + "prev_decay_time_", r) == c.old.f(M + "prev_decay_time_", c.this)),
                ("inv-this", res_inv(c.new, c.this, M)), ("inv-ret", res_inv(c.new, r, M)),
                ("context", c.new.f(M + "ctx_", r) == c.old.f(M + "ctx_", c.this)), ("comps-kept", comps_kept(c))] + split_rows(
                    c, r, M, c.old.f(RS + "state_id_", c.this))

    for nm in ("ExtractQty", "ExtractRes"):
        add(M + nm, 1, prop=["C01", "C02", "C04"], allocs=True, ensures=lambda c: eq_ens(c) + [("package", c.new.f(M + "package_name_", c.ret) == strlit(UNPKG))],
            modifies=lambda c: split_mods(c, M), requires=lambda c: [("inv", res_inv(c.old, c.this, M))],
            throws=lambda c: [Throws("cyclus::ValueError", c.old.f(qty, c.this) < c.arg(0), label="more-than-there-is")])

    add(M + "PackageExtract", 2, prop=["C01", "C02", "C04"], allocs=True, modifies=lambda c: split_mods(c, M),
        requires=lambda c: [("inv", res_inv(c.old, c.this, M))],
        ensures=lambda c: eq_ens(c) + [("C04:package", c.new.f(M + "package_name_", c.ret) == c.arg(1)),
                                       ("C04:own-package-kept", c.new.f(M + "package_name_", c.this) == c.old.f(M + "package_name_", c.this))],
        throws=lambda c: [Throws("cyclus::ValueError", c.arg(0) - c.old.f(qty, c.this) > EPS(c.old), label="more-than-there-is")])

    # --- products
    pq = P + "quantity_"

    def pe_ens(c, pkg):
        q0, x, r = c.old.f(pq, c.this), c.arg(0), c.ret
        return [fresh_ret(c), ("C01:extracted", c.new.f(pq, r) == x), ("C01:conserved", c.new.f(pq, c.this) + c.new.f(pq, r) == q0),
                ("C01:same-quality", c.new.f(P + "quality_", r) == c.old.f(P + "quality_", c.this)),
                ("C04:package", c.new.f(P + "package_name_", r) == pkg(c)),
                ("inv-this", res_inv(c.new, c.this, P)), ("inv-ret", res_inv(c.new, r, P)),
                ("context", c.new.f(P + "ctx_", r) == c.old.f(P + "ctx_", c.this)), ("comps-kept", comps_kept(c))] + split_rows(
                    c, r, P, c.old.f(RS + "state_id_", c.this))

    for nm, n, pk in (("Extract", 1, None), ("ExtractRes", 1, None), ("PackageExtract", 2, 1)):
        add(P + nm, n, prop=["C01", "C04"], allocs=True, modifies=lambda c: split_mods(c, P),
            requires=lambda c: [("inv", res_inv(c.old, c.this, P))],
            ensures=(lambda pk: lambda c: pe_ens(c, lambda c: c.arg(pk) if pk is not None else c.old.f(P + "package_name_", c.this)))(pk),
            throws=(lambda pk: lambda c: [Throws("cyclus::ValueError", c.arg(0) - c.old.f(pq, c.this) > (0 if pk is None else EPS(c.old)), label="more-than-there-is")])(pk))

    def join_mods(c, cls):
        t = T(c, c.this, cls)
        d = {RS + "state_id_": [c.this], TR + "parent1_": [t], TR + "parent2_": [t]}
        if cls == M: return d
        d[pq] = [c.this, c.arg(0)]
        return d

    def join_rows(c, cls):
        on = trk(c.old, c.this, cls)
        o = c.arg(0)
        sid = lambda v, x: v.f(RS + "state_id_", x)
        osid = sid(c.old, o)
        return [("C04:silent-if-untracked", z3.Implies(z3.Not(on), z3.And(log_same(c), sid(c.new, c.this) == sid(c.old, c.this)))),
                ("C04:row", z3.Implies(on, z3.And(sid(c.new, c.this) >= nxt(c.old), sid(c.new, c.this) < nxt(c.new), log_appended(
                    c, "Resources", [res_row(c, c.this, sid(c.old, c.this), osid, tr(c.new, c.this, cls))])))),
                ("C04:tables", log_only(c, "Resources", "MaterialInfo", "Compositions"))]

    def pa_req(c, cls):
        return [("inv", z3.And(res_inv(c.old, c.this, cls), res_inv(c.old, c.arg(0), cls))), ("other", c.arg(0) != c.this)]

    add(P + "Absorb", 1, prop=["C01", "C04"], allocs=True, modifies=lambda c: modset(c, join_mods(c, P)) + rec_all(c), requires=lambda c: pa_req(c, P),
        throws=lambda c: [Throws("cyclus::ValueError", c.old.f(P + "quality_", c.this) != c.old.f(P + "quality_", c.arg(0)), label="other-quality")],
        ensures=lambda c: [("C01:conserved", z3.And(c.new.f(pq, c.this) == c.old.f(pq, c.this) + c.old.f(pq, c.arg(0)), c.new.f(pq, c.arg(0)) == 0)),
                           ("comps-kept", comps_kept(c))] + join_rows(c, P))

    # --- decay (the physics, Composition::Decay, is assumed; what happens around it is not)
    def decay_comp_mods(c):
        return [c.field(CP + f) for f in ("mass_", "atom_", "decay_line_", "prev_decay_", "id_", "recorded_")] + [c.glob(CP + "next_id_", I)]

    add(CP + "Decay", None, assumed=True, exact=False, allocs=True,
        requires=lambda c: [("comp", comp_inv(c.old, c.this))],
        modifies=lambda c: modset(c, comp_fresh(c)) + [c.field(CP + "mass_", []), c.field(CP + "recorded_", []), c.glob(CP + "next_id_", I)],
        ensures=lambda c: [("valid", z3.And(c.ret > 0, c.ret <= c.new.alloc, comp_inv(c.new, c.ret))), ("comps-kept", comps_kept(c))])
    out.append(Contract("pyne::decay_const", 1, assumed=True, exact=True, sig="(int)", ret=lambda c: c.v.ufun("decay_const", I, R)(c.arg(0))))

    def mod_mods(c, extra={}):
        t = T(c, c.this, M)
        d = {RS + "state_id_": [c.this], TR + "parent1_": [t], TR + "parent2_": [t], comp: [c.this], M + "prev_decay_time_": [c.this]}
        d.update(extra)
        return modset(c, d) + rec_all(c)

    def one_row(c, cls, when):
        """when: exactly one new row whose parent is the previous state; otherwise nothing recorded"""
        on = z3.And(trk(c.old, c.this, cls), when)
        sid = lambda v, x: v.f(RS + "state_id_", x)
        return [("C04:silent-otherwise", z3.Implies(z3.Not(on), z3.And(log_same(c), sid(c.new, c.this) == sid(c.old, c.this)))),
                ("C04:row", z3.Implies(on, z3.And(sid(c.new, c.this) >= nxt(c.old), sid(c.new, c.this) < nxt(c.new), log_appended(
                    c, "Resources", [res_row(c, c.this, sid(c.old, c.this), z3.IntVal(0), tr(c.new, c.this, cls))])))),
                ("C04:tables", log_only(c, "Resources", "MaterialInfo", "Compositions"))]

    add(M + "Transmute", 1, prop=["C01", "C02", "C04"], allocs=True, modifies=mod_mods,
        requires=lambda c: [("inv", res_inv(c.old, c.this, M)), ("composition", z3.And(c.arg(0) > 0, c.arg(0) <= c.old.alloc, comp_inv(c.old, c.arg(0))))],
        ensures=lambda c: [("C02:composition", c.new.f(comp, c.this) == c.arg(0)), ("C01:quantity-kept", c.new.f(qty, c.this) == c.old.f(qty, c.this)),
                           ("clock", z3.And(c.new.f(M + "prev_decay_time_", c.this) >= c.old.f(M + "prev_decay_time_", c.this), z3.Or(
                               c.new.f(M + "prev_decay_time_", c.this) == c.old.f(M + "prev_decay_time_", c.this),
                               c.new.f(M + "prev_decay_time_", c.this) == c.old.f(TIME, c.old.f(M + "ctx_", c.this))))),
                           ("inv-this", res_inv(c.new, c.this, M)), ("comps-kept", comps_kept(c))] + one_row(c, M, z3.BoolVal(True)))

    def dk_inv(L):
        it = L.it
        i = L.pos()
        return [("range", z3.And(0 <= i, i <= it.n)), ("undecided", z3.Not(L.var("decay")))]

    def dk_mods(c): return mod_mods(c, {**comp_fresh(c), CP + "atom_": [c.old.f(comp, c.this)]}) + [c.glob(CP + "next_id_", I)]

    def dk_ens(c):
        same = z3.And(log_same(c), c.new.f(comp, c.this) == c.old.f(comp, c.this), nxt(c.new) == nxt(c.old),
                      c.new.f(M + "prev_decay_time_", c.this) == c.old.f(M + "prev_decay_time_", c.this),
                      c.new.f(RS + "state_id_", c.this) == c.old.f(RS + "state_id_", c.this))
        n = never(c.old, c.old.f(M + "ctx_", c.this))
        return [("C02:never-means-never", z3.Implies(n, same)), ("C01:quantity-kept", c.new.f(qty, c.this) == c.old.f(qty, c.this)),
                ("inv-this", res_inv(c.new, c.this, M)), ("comps-kept", atoms_kept(c)),
                ("C04:tables", log_only(c, "Resources", "MaterialInfo", "Compositions")),
                ("C04:recorded", z3.Or(same, one_row(c, M, z3.BoolVal(True))[1][1]))]

    def atoms_kept(c):
        x = z3.Int("cp!x")
        om, nm, oa, na = (v.f(CP + f, x) for f in ("mass_", "atom_") for v in (c.old, c.new))
        old = c.v.old_ref(x, c.old.alloc)
        return z3.ForAll([x], z3.Implies(z3.And(old, comp_inv(c.old, x)), z3.And(
            comp_inv(c.new, x), z3.Or(nm == om, size(om) == 0), z3.Or(na == oa, size(oa) == 0))), patterns=[nm, na])

    add(M + "Decay", 1, prop=["C01", "C02", "C04"], allocs=True, modifies=dk_mods, ensures=dk_ens, loops={0: dk_inv},
        requires=lambda c: [("inv", res_inv(c.old, c.this, M))],
        throws=lambda c: [Throws("cyclus::ValueError", z3.And(z3.Not(never(c.old, c.old.f(M + "ctx_", c.this))), c.arg(0) < 0, c.old.f(M + "ctx_", c.this) == 0),
                                 label="no-clock")])

    def comp_ens(c):
        ctx = c.old.f(M + "ctx_", c.this)
        return [("C02:is-the-composition", c.ret == c.new.f(comp, c.this)),
                ("C02:unchanged-unless-lazy", z3.Implies(z3.Not(lazy(c.old, ctx)), z3.And(log_same(c), nxt(c.new) == nxt(c.old), c.new.f(comp, c.this) == c.old.f(comp, c.this),
                    c.new.f(M + "prev_decay_time_", c.this) == c.old.f(M + "prev_decay_time_", c.this),
                    c.new.f(RS + "state_id_", c.this) == c.old.f(RS + "state_id_", c.this),
                    *[c.new.arr(CP + x) == c.old.arr(CP + x) for x in ("mass_", "atom_", "id_")]))),
                ("C01:quantity-kept", c.new.f(qty, c.this) == c.old.f(qty, c.this)),
                ("inv-this", res_inv(c.new, c.this, M)), ("comps-kept", atoms_kept(c))]

    add(M + "comp", 0, sig="::comp()", prop=["C01", "C02"], allocs=True, modifies=dk_mods, ensures=comp_ens, requires=lambda c: [("inv", res_inv(c.old, c.this, M))])

    # --- joining materials
    def ab_ens(c):
        o = c.arg(0)
        q0, q1 = c.old.f(qty, c.this), c.old.f(qty, o)
        c0, c1 = c.old.f(comp, c.this), c.old.f(comp, o)
        m0, m1 = c.new.f(CP + "mass_", c0), c.new.f(CP + "mass_", c1)
        t0, t1 = total(c.v, m0), total(c.v, m1)
        nc = c.new.f(comp, c.this)
        nm = c.new.f(CP + "mass_", nc)
        eager = z3.And(z3.Not(lazy(c.old, c.old.f(M + "ctx_", c.this))), z3.Not(lazy(c.old, c.old.f(M + "ctx_", o))))
        return [("C01:conserved", z3.And(c.new.f(qty, c.this) == q0 + q1, c.new.f(qty, o) == 0)),
                ("C02:same-composition", z3.Implies(z3.And(eager, c0 == c1), nc == c0)),
                ("C02:nuclide-masses-add", z3.Implies(z3.And(eager, c0 != c1), allk(lambda k: get(nm, k) == scaled(c.v, get(m0, k), q0, t0) + scaled(c.v, get(m1, k), q1, t1)))),
                ("C02:total-is-quantity", z3.Implies(z3.And(eager, c0 != c1, t0 != 0, t1 != 0), total(c.v, nm) == q0 + q1)),
                ("C02:other-composition-kept", z3.Implies(eager, c.new.f(comp, o) == c1)),
                ("C02:clock", z3.Implies(eager, c.new.f(M + "prev_decay_time_", c.this) == z3.If(
                    q0 < q1, c.old.f(M + "prev_decay_time_", o), c.old.f(M + "prev_decay_time_", c.this)))),
                ("inv-this", res_inv(c.new, c.this, M)),
                ("C04:rows", z3.Implies(eager, z3.And(*[g for n, g in join_rows(c, M)])))]

    def ab_mods(c):
        o = c.arg(0)
        t, t2 = T(c, c.this, M), T(c, o, M)
        d = {**comp_fresh(c), CP + "atom_": [c.old.f(comp, c.this), c.old.f(comp, o)], RS + "state_id_": [c.this, o], TR + "parent1_": [t, t2], TR + "parent2_": [t, t2],
             comp: [c.this, o], qty: [c.this, o], M + "prev_decay_time_": [c.this, o]}
        return modset(c, d) + rec_all(c) + [c.glob(CP + "next_id_", I)]

    add(M + "Absorb", 1, sig="boost::shared_ptr<cyclus::Material>", prop=["C01", "C02", "C04"], allocs=True, ensures=ab_ens, modifies=ab_mods, requires=lambda c: pa_req(c, M),
        throws=lambda c: [Throws("cyclus::ValueError", z3.BoolVal(True), must=False, modifies=ab_mods, label="impossible-composition",
                                 ensures=lambda c: [("C01:quantities-kept", z3.And(c.new.f(qty, c.this) == c.old.f(qty, c.this), c.new.f(qty, c.arg(0)) == c.old.f(qty, c.arg(0))))])])

    # --- changing the package
    def pkgs():
        return [Contract("cyclus::Context::GetPackage", 1, assumed=True, exact=True, ret=lambda c: PKG(c), ensures=lambda c: [],
                         throws=lambda c: [Throws("cyclus::KeyError", PKG(c) == 0, label="unknown-package")])]

    def PKG(c, name=None, ctx=None):
        return c.v.ufun("package_named", I, I, I)(c.this if ctx is None else ctx, c.arg(0) if name is None else name)
    out.extend(pkgs())

    def chp(cls, f):
        pn = cls + "package_name_"
        K = "cyclus::Package::"

        def parts(c):
            ctx, new = c.old.f(cls + "ctx_", c.this), c.arg(0)
            noop = z3.Or(ctx == 0, new == c.old.f(pn, c.this))
            unp = new == strlit(UNPKG)
            p = PKG(c, new, ctx)
            q = c.old.f(f, c.this)
            fits = z3.And(c.old.f(K + "fill_min_", p) <= q, q <= c.old.f(K + "fill_max_", p))
            return noop, unp, p, fits

        def ens(c):
            noop, unp, p, fits = parts(c)
            return [("C04:name", c.new.f(pn, c.this) == z3.If(noop, c.old.f(pn, c.this), c.arg(0))),
                    ("C04:within-limits", z3.Implies(z3.And(z3.Not(noop), z3.Not(unp)), fits)),
                    ("C01:quantity-kept", c.new.f(f, c.this) == c.old.f(f, c.this)),
                    ("inv-this", res_inv(c.new, c.this, cls)), ("comps-kept", comps_kept(c))] + one_row(c, cls, z3.Not(noop))

        def thr(c):
            noop, unp, p, fits = parts(c)
            bad = z3.And(z3.Not(noop), z3.Not(unp))
            return [Throws("cyclus::KeyError", z3.And(bad, p == 0), label="unknown-package"),
                    Throws("cyclus::ValueError", z3.And(bad, p != 0, z3.Not(fits)), label="outside-limits")]

        def mod(c):
            t = T(c, c.this, cls)
            return modset(c, {RS + "state_id_": [c.this], TR + "parent1_": [t], TR + "parent2_": [t], TR + "package_name_": [t], TR + "tracked_": [t], pn: [c.this]}) + rec_all(c)
        add(cls + "ChangePackage", 1, prop=["C01", "C04", "C06"], allocs=True, modifies=mod, ensures=ens, throws=thr, requires=lambda c: [("inv", res_inv(c.old, c.this, cls))])
    chp(M, qty)
    chp(P, pq)
    return out


def build():
    out = record_contracts() + virtuals() + compmath.build() + tracker_contracts() + material_contracts()
    return out
