"""Models (assumed contracts) of the standard library and boost parts that the
functions under contract use.  Everything here is trusted."""
import re

import z3
from engine import *
from engine import strip_tmpl


def S(b): return b.sort()


def accs(s):
    c = s.constructor(0)
    return [s.accessor(0, i).name() for i in range(c.arity())]


def as_lv(x):
    if isinstance(x, LV): return x
    if isinstance(x, RefBind): return x.lv
    return TempLV(x)


def evals(v, st, exprs):
    cur = [(st, [])]
    for a in exprs:
        cur = [(s3, vs + [x]) for s2, vs in cur for s3, x in v.eval(s2, a)]
    return cur


def evals_refs(v, st, exprs):
    cur = [(st, [])]
    for a in exprs:
        cur = [(s3, vs + [x]) for s2, vs in cur for s3, x in v.eval_ref(s2, a)]
    return cur


def val(v, st, x):
    if isinstance(x, RefBind) and not x.ptr: return v.load(st, x.lv)
    if isinstance(x, LV): return v.load(st, x)
    return x


def seq_vals(v, t, vals):
    s = v.sort(t)
    arr = v.const_arr(None, s)
    es = arr.sort().range()
    for i, x in enumerate(vals): arr = z3.Store(arr, i, v.coerce(x, es))
    return s.mk(z3.IntVal(0), z3.IntVal(len(vals)), arr)


def conv_seq(v, t, b):
    """same contents, element sort of container type t"""
    s = v.sort(t)
    if b.sort() == s: return b
    raise Unsupported("sequence conversion")


def normalise(v, b):
    """shift so that lo == 0 (copies of deques/lists keep their offset: fine)"""
    return b


def box(v, st, x, t):
    c = v.cl(t)
    if c == "any": return x
    if c == "bool": return Val.VB(x)
    if c in ("int", "uint"): return Val.VI(v.coerce(x, z3.IntSort()))
    if c == "real": return Val.VR(x)
    if c == "str": return Val.VS(x)
    if z3.is_expr(x) and x.sort() == z3.IntSort(): return Val.VO(x)
    # containers: an opaque value that is a function of the contents
    if z3.is_expr(x):
        return Val.VO(v.ufun("boxed_" + mangle(x.sort()), x.sort(), z3.IntSort())(x))
    raise Unsupported("boxing")


# ------------------------------------------------------------- constructors
def std_ctor(v, st, e, t, c):
    args = e["args"]
    if c == "stream": return [(st, Stream())]
    if c == "str":
        if not args: return [(st, strlit(""))]
        return [(s2, x) for s2, x in v.eval(st, args[0])]
    if c == "ref":  # smart pointers
        if not args: return [(st, z3.IntVal(0))]
        return v.eval(st, args[0])
    if c == "any":
        if not args: return [(st, v.fresh("any", Val))]
        at = v.ty(args[0])
        return [(s2, box(v, s2, x, at)) for s2, x in v.eval(st, args[0])]
    if c == "iter":
        if not args: return [(st, None)]
        return v.eval(st, args[0])
    if c == "func": return v.eval(st, args[0]) if args else [(st, None)]
    if c in ("map", "set", "seq"):
        real_args = [a for a in args if "std::allocator" not in v.ty(a).s.split("<")[0] and "std::less" != strip_tmpl(v.ty(a).s)]
        if not real_args: return [(st, v.default(t))]
        a0 = real_args[0]
        c0 = v.cl(v.ty(a0))
        if len(real_args) == 1 and c0 == c: return v.eval(st, a0)
        if c0 == "iter" and len(real_args) == 2:
            out = []
            for s2, (b, e_) in evals(v, st, real_args): out.append((s2, range_copy(v, s2, t, c, b, e_)))
            return out
        if c == "seq" and c0 in ("int", "uint"):
            out = []
            for s2, vs in evals(v, st, real_args):
                s = v.sort(t)
                fill = vs[1] if len(vs) > 1 else v.default(t.args[0])
                arr = z3.K(z3.IntSort(), v.coerce(fill, v.sort(t.args[0])))
                out.append((s2, s.mk(z3.IntVal(0), vs[0], arr)))
            return out
        if c0 in ("ilist", "carray", "seq", "opaque") and len(real_args) == 1:
            out = []
            for s2, b in v.eval(st, a0):
                if not z3.is_expr(b): raise Unsupported("init list ctor")
                if c == "seq":
                    out.append((s2, b))
                else:
                    raise Unsupported("set/map from initializer list")
            return out
        raise Unsupported("constructor %s(%d)" % (t.s, len(args)))
    if c == "pair":
        if not args: return [(st, v.default(t))]
        if len(args) == 1:
            out = []
            for s2, x in v.eval(st, args[0]):
                x = val(v, s2, x)
                if isinstance(x, MapElem): x = v.melem_val(s2, x, None)
                out.append((s2, conv_pair(v, x, v.sort(t))))
            return out
        out = []
        s = v.sort(t)
        for s2, vs in evals(v, st, args):
            out.append((s2, s.mk(v.coerce(vs[0], v.sort(t.args[0])), v.coerce(vs[1], v.sort(t.args[1])))))
        return out
    if c == "struct":
        if (e.get("copy") or e.get("move")) and len(args) == 1:
            return v.eval(st, args[0])
        f = v.p.functions.get(e["fn"])
        if f is None:
            if not args: return [(st, v.default(t))]
            raise Unsupported("struct ctor " + t.s)
        out = []
        for s2, a in v.eval_args(st, args, e["pt"]):
            key = ("tmpstruct", v.fresh_n)
            v.fresh_n += 1
            # members without an initialiser are indeterminate
            s2.locals[key] = v.fresh("st_" + t.s, v.sort(t))
            lv = LocalLV(key)
            for s3, _ in v.inline_struct_ctor(s2, f, lv, a, t):
                out.append((s3, v.load(s3, lv)))
        return out
    if c == "opaque" and t.k == "c" and t.n.startswith("boost::random::"):
        return rand_ctor(v, st, t, args)
    if c == "opaque":
        if len(args) == 1 and v.cl(v.ty(args[0])) == "opaque": return v.eval(st, args[0])
        return [(st, v.fresh("opq", z3.IntSort()))]
    if c == "ilist": return v.eval(st, args[0])
    raise Unsupported("constructor of " + t.s)


def conv_pair(v, x, s):
    if x.sort() == s: return x
    xs = x.sort()
    return s.mk(v.coerce(xs.first(x), s.accessor(0, 0).range()), v.coerce(xs.second(x), s.accessor(0, 1).range()))


def range_copy(v, st, t, c, b, e_):
    if not isinstance(b, Iter): raise Unsupported("range ctor")
    src = v.load(st, b.lv)
    s = v.sort(t)
    if c == "seq" and b.kind == "seq":
        if src.sort() == s:
            arr = src.sort().arr(src)
            if t.n == "std::vector":
                j = z3.Int("j!rc")
                sh = z3.Lambda([j], z3.Select(arr, j + b.idx)) if not (z3.is_int_value(b.idx) and b.idx.as_long() == 0) else arr
                return s.mk(z3.IntVal(0), z3.simplify(e_.idx - b.idx), sh)
            return s.mk(b.idx, e_.idx, arr)
        raise Unsupported("range ctor sort")
    if c == "set" and b.kind == "map" and e_.kind == "end": return src
    if c == "set" and b.kind == "seq":
        # set of the elements of a sequence
        D = v.fresh("D", z3.ArraySort(s.dom(z3.Const("x", s)).sort().domain(), z3.BoolSort()))
        n = v.fresh("n", z3.IntSort())
        k = z3.Const("k!rs", D.sort().domain())
        j = z3.Int("j!rs")
        w = v.ufun("wit_%d" % v.fresh_n, D.sort().domain(), z3.IntSort())
        arr = src.sort().arr(src)
        v.assume(st, z3.ForAll([j], z3.Implies(z3.And(b.idx <= j, j < e_.idx), z3.Select(D, z3.Select(arr, j))),
                               patterns=[z3.Select(arr, j)]))
        v.assume(st, z3.ForAll([k], z3.Implies(z3.Select(D, k), z3.And(b.idx <= w(k), w(k) < e_.idx,
                                                                      z3.Select(arr, w(k)) == k)),
                               patterns=[z3.Select(D, k)]))
        v.assume(st, n >= 0, n <= e_.idx - b.idx)
        # size equals the length exactly when the elements are distinct
        i2 = z3.Int("i!rs")
        v.assume(st, (n == e_.idx - b.idx) == z3.ForAll([i2, j], z3.Implies(
            z3.And(b.idx <= i2, i2 < j, j < e_.idx), z3.Select(arr, i2) != z3.Select(arr, j))))
        return s.mk(D, n)
    raise Unsupported("range copy")


# ------------------------------------------------------------- boost.random
# A distribution is a token determined by its kind and parameters; a draw is a
# function of the generator's state and the token, and advances the state.
RAND_STATE = "GHOST::gen"


def rand_fns(v):
    I, R = z3.IntSort(), z3.RealSort()
    return (v.ufun("rand_dist", I, R, R, I), v.ufun("rand_a", I, R), v.ufun("rand_b", I, R), v.ufun("rand_kind", I, I),
            v.ufun("rand_draw", I, I, R), v.ufun("rand_next", I, I, I), v.ufun("rand_seed", I, I))


def rand_kind(n): return strlit(n.split("boost::random::")[1].split("<")[0].replace("::param_type", ""))


def rand_ctor(v, st, t, args):
    k = t.n.split("boost::random::")[1]
    mk, fa, fb, fk = rand_fns(v)[:4]
    args = [a for a in args if a.get("k") != "defarg"] if k.startswith("uniform_01") else args
    if len(args) == 1 and v.cl(v.ty(args[0])) == "opaque": return v.eval(st, args[0])
    if k.startswith("variate_generator") and len(args) == 2: return v.eval(st, args[1])
    out = []
    for s2, vs in evals(v, st, args):
        xs = [v.coerce(x, z3.RealSort()) for x in vs]
        if len(xs) > 2: raise Unsupported("constructor of " + t.s)
        if not xs: xs = [z3.RealVal(0), z3.RealVal(1)]
        if len(xs) == 1: xs.append(z3.RealVal(0))
        d = mk(rand_kind(t.n), *xs)
        v.assume(s2, fa(d) == xs[0], fb(d) == xs[1], fk(d) == rand_kind(t.n))
        out.append((s2, d))
    return out


def rand_method(v, st, name, cls, ot, oe, arrow, rest):
    mk, fa, fb, fk, draw, nxt, seed = rand_fns(v)
    I = z3.IntSort()
    lvg = GlobalLV(RAND_STATE, I)
    kind = cls.split("boost::random::")[1]
    out = []
    if "mersenne" in kind:
        if name == "seed":
            for s2, x in v.eval(st, rest[0]):
                v.store(s2, lvg, seed(v.coerce(x, I)))
                out.append((s2, None))
            return out
        if name == "operator()":
            g = v.load(st, lvg)
            r = z3.ToInt(draw(g, z3.IntVal(0)))
            v.assume(st, 0 <= r, r < 2 ** 32)
            v.store(st, lvg, nxt(g, z3.IntVal(0)))
            return [(st, r)]
        raise Unsupported("%s::%s" % (cls, name))
    for s2, o in v.eval_obj(st, oe, arrow):
        lv = as_lv(o)
        d = v.load(s2, lv)
        k = kind.split("<")[0]
        if k == "variate_generator":
            k = [x for x in ("uniform_int_distribution", "uniform_real_distribution", "normal_distribution") if x in ot.s]
            if not k: raise Unsupported(ot.s)
            k = k[0]
        if name == "operator()":
            g = v.load(s2, lvg)
            r = draw(g, d)
            a, b = fa(d), fb(d)
            if k == "uniform_int_distribution":
                r = z3.ToInt(r)
                v.assume(s2, z3.Implies(a <= b, z3.And(a <= z3.ToReal(r), z3.ToReal(r) <= b)))
            elif k == "uniform_real_distribution": v.assume(s2, z3.Implies(a < b, z3.And(a <= r, r < b)))
            elif k in ("uniform_01", "detail::new_uniform_01"): v.assume(s2, 0 <= r, r < 1)
            elif k == "binomial_distribution":
                r = z3.ToInt(r)
                v.assume(s2, 0 <= r, z3.ToReal(r) <= a)
            elif k in ("poisson_distribution", "negative_binomial_distribution"):
                r = z3.ToInt(r)
                v.assume(s2, 0 <= r)
            elif k == "exponential_distribution": v.assume(s2, 0 <= r)
            elif k != "normal_distribution": raise Unsupported("%s::%s" % (cls, name))
            v.store(s2, lvg, nxt(g, d))
            out.append((s2, r))
        elif name == "param" and rest:
            for s3, x in v.eval(s2, rest[0]):
                v.store(s3, lv, x)
                out.append((s3, None))
        elif name in ("max", "min", "mean") and not rest:
            x = fb(d) if name == "max" else fa(d)
            out.append((s2, z3.ToInt(x) if k.startswith("uniform_int") else x))
        else: raise Unsupported("%s::%s" % (cls, name))
    return out


def floor_lemma(v, st, a):
    """floor(x/y)*y <= x < floor(x/y)*y + y, and the same for ceil: instances help the nonlinear solver"""
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE: a = a.children()[2]
    q, a = a, v.aliases.get(a.get_id(), a)
    if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_DIV): return
    x, y = a.children()
    if z3.is_rational_value(y): return
    a = q
    n, m = z3.ToReal(z3.ToInt(a)), -z3.ToReal(z3.ToInt(-a))
    v.assume(st, z3.Implies(y > 0, z3.And(a * y == x, n * y <= x, x < n * y + y, m * y >= x, x > m * y - y,
                                         (x > 0) == (a > 0), z3.Implies(x >= y, n >= 1), z3.Implies(x > 0, m >= 1))))


# -------------------------------------------------------------------- calls
def std_call(v, st, e, sq, want_lv):
    name = sq.rsplit("::", 1)[-1] if "operator" not in sq else "operator" + sq.split("operator", 1)[1]
    cls = strip_tmpl(e["cls"]) if "cls" in e else None
    if e["k"] == "mcall" or (cls and "op" in e and not e.get("static")):
        if e["k"] == "mcall":
            oe, rest, arrow = e["obj"], e["args"], e.get("arrow", False)
        else:
            oe, rest, arrow = e["args"][0], e["args"][1:], False
        ot = v.ty(oe)
        if arrow and ot.k == "p": ot = ot.to
        return method(v, st, e, name, cls, oe, ot, arrow, rest, want_lv)
    return free(v, st, e, sq, name, want_lv)


def method(v, st, e, name, cls, oe, ot, arrow, rest, want_lv):
    c = v.cl(ot)
    if c == "stream":
        if name in ("str",):
            return [(s2, v.fresh("str", z3.IntSort())) for s2 in [st]]
        if name == "operator<<": return [(st, Stream())]
        raise Unsupported("stream " + name)
    if c == "obj":
        # conversions of cyclus objects handled by std (enable_shared_from_this etc.)
        if name in ("shared_from_this",):
            return v.eval_obj(st, oe, arrow)
        raise Unsupported("method %s::%s on object" % (cls, name))
    out = []
    if c == "ref" and cls in PTRS:
        return smartptr(v, st, e, name, oe, arrow, rest, want_lv)
    if c == "iter": return itermethod(v, st, e, name, oe, rest, want_lv)
    if c == "any":
        raise Unsupported("hold_any::" + name)
    if c == "opaque" and cls and cls.startswith("boost::random::"):
        return rand_method(v, st, name, cls, ot, oe, arrow, rest)
    if c == "opaque":
        if name == "operator()" or True:
            if cls and "random_generator" in cls: return [(st, v.fresh("uuid", z3.IntSort()))]
            if name == "operator=" and rest:
                out = []
                for s2, x in v.eval(st, rest[0]):
                    for s3, lv in v.eval_lv(s2, oe):
                        v.store(s3, as_lv(lv), x)
                        out.append((s3, RefBind(as_lv(lv))))
                return out
        raise Unsupported("%s::%s" % (cls, name))
    for s2, o in v.eval_obj(st, oe, arrow):
        lv = as_lv(o)
        if c == "str": out += strmethod(v, s2, e, name, lv, rest)
        elif c == "seq" or c == "carray": out += seqmethod(v, s2, e, name, lv, ot, rest, want_lv)
        elif c == "map": out += mapmethod(v, s2, e, name, lv, ot, rest, want_lv)
        elif c == "set": out += setmethod(v, s2, e, name, lv, ot, rest, want_lv)
        elif c == "pair":
            if name == "operator=":
                for s3, x in v.eval(s2, rest[0]):
                    x = val(v, s3, x)
                    if isinstance(x, MapElem): x = v.melem_val(s3, x, None)
                    v.store(s3, lv, x)
                    out.append((s3, RefBind(lv)))
            else: raise Unsupported("pair::" + name)
        elif c == "struct" and name == "operator=":
            for s3, x in v.eval(s2, rest[0]):
                v.store(s3, lv, x)
                out.append((s3, RefBind(lv)))
        else: raise Unsupported("%s::%s" % (cls, name))
    return out


def smartptr(v, st, e, name, oe, arrow, rest, want_lv):
    out = []
    if name in ("operator->", "operator*", "get", "lock", "operator bool", "operator!", "expired", "use_count", "operator=", "reset", "swap"):
        pass
    else: raise Unsupported("smart pointer " + name)
    if name in ("operator=", "reset"):
        srcs = v.eval(st, rest[0]) if rest else [(st, z3.IntVal(0))]
        for s2, x in srcs:
            for s3, lv in v.eval_lv(s2, oe):
                if not isinstance(lv, LV): raise Unsupported("pointer assign")
                v.store(s3, lv, x)
                out.append((s3, RefBind(lv)))
        return out
    for s2, x in v.eval(st, oe):
        if name in ("operator->", "get", "lock"): out.append((s2, x))
        elif name == "operator*":
            v.safety(s2, "null", x != 0, e.get("l"))
            out.append((s2, x))
        elif name == "operator bool": out.append((s2, x != 0))
        elif name in ("operator!",): out.append((s2, x == 0))
        else: raise Unsupported(name)
    return out


def strmethod(v, st, e, name, lv, rest):
    b = v.load(st, lv)
    slen = v.ufun("strlen", z3.IntSort(), z3.IntSort())
    if name in ("c_str", "data"): return [(st, b)]
    if name == "empty": return [(st, b == strlit(""))]
    if name in ("size", "length"):
        v.assume(st, slen(b) >= 0, (slen(b) == 0) == (b == strlit("")))
        return [(st, slen(b))]
    if name == "operator=":
        out = []
        for s2, x in v.eval(st, rest[0]):
            v.store(s2, lv, x)
            out.append((s2, RefBind(lv)))
        return out
    if name == "operator+=":
        out = []
        for s2, x in v.eval(st, rest[0]):
            v.store(s2, lv, v.ufun("strcat", z3.IntSort(), z3.IntSort(), z3.IntSort())(b, v.coerce(x, z3.IntSort())))
            out.append((s2, RefBind(lv)))
        return out
    if name == "compare":
        return [(s2, z3.If(b == x, z3.IntVal(0), z3.IntVal(1))) for s2, x in v.eval(st, rest[0])]
    raise Unsupported("string::" + name)


def seqlen(b): return z3.simplify(S(b).hi(b) - S(b).lo(b))


def seqmethod(v, st, e, name, lv, t, rest, want_lv):
    if t.k == "r": t = t.to
    b = v.load(st, lv)
    s = S(b)
    lo, hi, arr = s.lo(b), s.hi(b), s.arr(b)
    es = arr.sort().range()
    L = e.get("l")

    def put(st, lo2, hi2, arr2):
        v.store(st, lv, s.mk(z3.simplify(lo2), z3.simplify(hi2), arr2))

    if name == "size": return [(st, seqlen(b))]
    if name == "empty": return [(st, z3.simplify(lo == hi))]
    if name == "max_size" or name == "capacity": return [(st, v.fresh(name, z3.IntSort()))]
    if name in ("reserve", "shrink_to_fit"): return [(s2, None) for s2, _ in evals(v, st, rest)]
    if name in ("begin", "cbegin"): return [(st, v.begin(st, lv, t))]
    if name in ("rbegin", "crbegin", "rend", "crend"):
        it = v.begin(st, lv, t) if "begin" in name else v.end(st, lv, t)
        it.rev = True
        return [(st, it)]
    if name in ("end", "cend"): return [(st, v.end(st, lv, t))]
    if name in ("operator[]", "at"):
        out = []
        for s2, i in v.eval(st, rest[0]):
            b = v.load(s2, lv)
            idx = z3.simplify(S(b).lo(b) + i)
            inb = z3.And(i >= 0, i < S(b).hi(b) - S(b).lo(b))
            if name == "at":
                for s3, ok in v.split(s2, inb):
                    if ok: out.append((s3, RefBind(ElemLV(lv, idx))))
                    else: v.throw(s3, Exc("std::out_of_range", L))
            else:
                v.safety(s2, "index", inb, L)
                out.append((s2, RefBind(ElemLV(lv, idx))))
        for s3, rb in out: elem_wf(v, s3, rb.lv, t)
        return out
    if name in ("front", "back"):
        v.safety(st, "front", lo < hi, L)
        r = RefBind(ElemLV(lv, z3.simplify(lo if name == "front" else hi - 1)))
        elem_wf(v, st, r.lv, t)
        return [(st, r)]
    if name in ("push_back", "emplace_back"):
        out = []
        for s2, x in v.eval(st, rest[0]):
            x = val(v, s2, x)
            b = v.load(s2, lv)
            h0, a0 = z3.simplify(S(b).hi(b)), z3.simplify(S(b).arr(b))
            a1 = z3.simplify(z3.Store(a0, h0, v.coerce(x, es)))
            if es == z3.RealSort():
                l0 = z3.simplify(S(b).lo(b))
                v.assume(s2, z3.Implies(l0 <= h0, v.ssum(s2, a1, l0, h0) == v.ssum(s2, a0, l0, h0)), v.ssum(s2, a1, l0, h0 + 1) == v.ssum(s2, a1, l0, h0) + v.coerce(x, es))
            put(s2, S(b).lo(b), h0 + 1, a1)
            out.append((s2, None))
        return out
    if name == "push_front":
        out = []
        for s2, x in v.eval(st, rest[0]):
            put(s2, lo - 1, hi, z3.Store(arr, z3.simplify(lo - 1), v.coerce(x, es)))
            out.append((s2, None))
        return out
    if name == "pop_back":
        v.safety(st, "front", lo < hi, L)
        put(st, lo, hi - 1, arr)
        return [(st, None)]
    if name == "pop_front":
        v.safety(st, "front", lo < hi, L)
        put(st, lo + 1, hi, arr)
        return [(st, None)]
    if name == "clear":
        put(st, lo, lo, arr)
        return [(st, None)]
    if name == "operator=":
        out = []
        for s2, x in v.eval(st, rest[0]):
            x = val(v, s2, x)
            v.store(s2, lv, x)
            out.append((s2, RefBind(lv)))
        return out
    if name == "swap":
        out = []
        for s2, o in v.eval_lv(st, rest[0]):
            o = as_lv(o)
            x = v.load(s2, o)
            v.store(s2, lv, x)
            v.store(s2, o, b)
            out.append((s2, None))
        return out
    if name in ("resize", "assign"):
        out = []
        if rest and v.cl(v.ty(rest[0])) == "iter":
            for s2, (bb, ee) in evals(v, st, rest):
                v.store(s2, lv, range_copy(v, s2, t, "seq", bb, ee))
                out.append((s2, None))
            return out
        for s2, vs in evals(v, st, rest):
            n = vs[0]
            fill = v.coerce(val(v, s2, vs[1]), es) if len(vs) > 1 else v.default(t.args[0])
            j = z3.Int("j!rz")
            if name == "assign" or z3.is_true(z3.simplify(lo == hi)): a2 = z3.K(z3.IntSort(), fill)
            else: a2 = z3.Lambda([j], z3.If(j < hi, z3.Select(arr, j), fill))
            if name == "assign": put(s2, z3.IntVal(0), n, a2)
            else: put(s2, lo, lo + n, a2)
            out.append((s2, None))
        return out
    if name == "erase":
        out = []
        for s2, vs in evals(v, st, rest):
            it = vs[0]
            if not isinstance(it, Iter) or it.kind != "seq": raise Unsupported("erase")
            j = z3.Int("j!er")
            if len(vs) == 1:
                v.safety(s2, "iter", z3.And(lo <= it.idx, it.idx < hi), L)
                if z3.is_true(z3.simplify(it.idx == lo)) and t.n != "std::vector":
                    put(s2, lo + 1, hi, arr)
                    out.append((s2, Iter("seq", lv, idx=z3.simplify(it.idx + 1))))
                    continue
                put(s2, lo, hi - 1, z3.Lambda([j], z3.If(j < it.idx, z3.Select(arr, j), z3.Select(arr, j + 1))))
            else:
                it2 = vs[1]
                d = z3.simplify(it2.idx - it.idx)
                now = v.load(s2, lv)  # the arguments may have changed it (erase-remove)
                lo, hi, arr = S(now).lo(now), S(now).hi(now), S(now).arr(now)
                put(s2, lo, hi - d, z3.Lambda([j], z3.If(j < it.idx, z3.Select(arr, j), z3.Select(arr, j + d))))
            out.append((s2, Iter("seq", lv, idx=it.idx)))
        return out
    if name == "insert":
        out = []
        for s2, vs in evals(v, st, rest):
            it = vs[0]
            j = z3.Int("j!in")
            if len(vs) == 3 and isinstance(vs[1], Iter) and vs[1].kind == "seq":
                src = v.load(s2, vs[1].lv)
                d = z3.simplify(vs[2].idx - vs[1].idx)
                sa = S(src).arr(src)
                k0 = vs[1].idx
                p = it.idx
                put(s2, lo, hi + d, z3.Lambda([j], z3.If(j < p, z3.Select(arr, j), z3.If(
                    j < p + d, z3.Select(sa, j - p + k0), z3.Select(arr, j - d)))))
            elif len(vs) == 2:
                p = it.idx
                x = v.coerce(val(v, s2, vs[1]), es)
                if z3.is_true(z3.simplify(p == hi)): put(s2, lo, hi + 1, z3.Store(arr, z3.simplify(hi), x))
                elif z3.is_true(z3.simplify(p == lo)) and t.n != "std::vector":
                    put(s2, lo - 1, hi, z3.Store(arr, z3.simplify(lo - 1), x))
                else:
                    put(s2, lo, hi + 1, z3.Lambda([j], z3.If(j < p, z3.Select(arr, j), z3.If(
                        j == p, x, z3.Select(arr, j - 1)))))
            else: raise Unsupported("insert")
            out.append((s2, None))
        return out
    raise Unsupported("%s::%s" % (t.n, name))


def elem_wf(v, st, lv, t):
    if not t.args: return
    x = v.load(st, lv)
    if z3.is_expr(x): v.wf(st, x, t.args[0])


def map_parts(b):
    s = S(b)
    return s, s.dom(b), s.size(b)


def total(v, lv):
    """the default value that absent keys of this map field are represented with, or None"""
    return v.cfg.total_maps.get(lv.f) if isinstance(lv, HeapLV) else None


def insert_key(v, st, lv, k, dval=None, newval=None, overwrite=False):
    """make k a key of the map at lv (default value dval when absent)"""
    b = v.load(st, lv)
    s = S(b)
    D, n = s.dom(b), s.size(b)
    has = z3.simplify(z3.Select(D, k))
    if total(v, lv) is not None and newval is None:
        v.assume(st, z3.Implies(z3.Not(has), z3.Select(s.val(b), k) == total(v, lv)))
        v.store(st, lv, s.mk(z3.Store(D, k, z3.BoolVal(True)), s.val(b), n + z3.If(has, z3.IntVal(0), z3.IntVal(1))))
        return None
    if z3.is_true(has) or v.check(st.pc, [z3.Not(has)]) == z3.unsat: known = True
    elif z3.is_false(has) or v.check(st.pc, [has]) == z3.unsat: known = False
    else: known = None
    ismap = "val" in accs(s)
    if known is True:
        if ismap and overwrite: v.store(st, lv, s.mk(D, z3.Store(s.val(b), k, newval), n))
        return known
    D2 = z3.Store(D, k, z3.BoolVal(True))
    n2 = z3.simplify(n + 1) if known is False else n + z3.If(has, z3.IntVal(0), z3.IntVal(1))
    if ismap:
        V = s.val(b)
        ini = newval if newval is not None else dval
        if overwrite or known is False: x = ini
        else: x = z3.If(has, z3.Select(V, k), ini)
        nb = z3.simplify(s.mk(D2, z3.Store(V, k, v.coerce(x, V.sort().range())), n2))
        v.msum_step(st, z3.simplify(D), z3.simplify(V), z3.simplify(s.dom(nb)), z3.simplify(s.val(nb)), k)
        v.store(st, lv, nb)
    else: v.store(st, lv, s.mk(D2, n2))
    return known


def erase_key(v, st, lv, k):
    if total(v, lv) is not None: raise Unsupported("erase from a total map")
    b = v.load(st, lv)
    s = S(b)
    D, n = s.dom(b), s.size(b)
    D2 = z3.Store(D, k, z3.BoolVal(False))
    n2 = z3.simplify(n - z3.If(z3.Select(D, k), z3.IntVal(1), z3.IntVal(0)))
    had = z3.Select(D, k)
    # size/emptiness stay consistent
    v.assume(st, n2 >= 0, (n2 == 0) == (D2 == z3.K(D.sort().domain(), z3.BoolVal(False))))
    if "val" in accs(s):
        v.store(st, lv, s.mk(D2, s.val(b), n2))
        v.msum_step(st, z3.simplify(D), z3.simplify(s.val(b)), z3.simplify(D2), z3.simplify(s.val(b)), k)
    else: v.store(st, lv, s.mk(D2, n2))
    return z3.If(had, z3.IntVal(1), z3.IntVal(0))


def getkey(v, st, t, x):
    x = val(v, st, x)
    kt = t.args[0]
    if z3.is_expr(x): x = v.coerce(v.key(kt, x), v.keysort(kt))
    return x


def mapmethod(v, st, e, name, lv, t, rest, want_lv):
    if t.k == "r": t = t.to
    b = v.load(st, lv)
    s = S(b)
    L = e.get("l")
    if name == "size":
        v.wf(st, b, t)
        return [(st, z3.simplify(s.size(b)))]
    if name == "empty":
        v.wf(st, b, t)
        return [(st, z3.simplify(s.size(b) == 0))]
    if name in ("begin", "cbegin"): return [(st, v.begin(st, lv, t))]
    if name in ("rbegin", "crbegin", "rend", "crend"):
        it = v.begin(st, lv, t) if "begin" in name else v.end(st, lv, t)
        it.rev = True
        return [(st, it)]
    if name in ("end", "cend"): return [(st, v.end(st, lv, t))]
    if name == "clear":
        d = total(v, lv)
        v.store(st, lv, s.mk(z3.K(s.dom(b).sort().domain(), z3.BoolVal(False)), s.val(b) if d is None else z3.K(s.dom(b).sort().domain(), d), z3.IntVal(0)))
        return [(st, None)]
    if name == "operator=":
        if total(v, lv) is not None: raise Unsupported("assignment to a total map")
        out = []
        for s2, x in v.eval(st, rest[0]):
            v.store(s2, lv, val(v, s2, x))
            out.append((s2, RefBind(lv)))
        return out
    if name == "operator[]":
        out = []
        for s2, k in v.eval(st, rest[0]):
            k = getkey(v, s2, t, k)
            insert_key(v, s2, lv, k, dval=v.default(t.args[1]))
            m = MapLV(lv, k)
            x = v.load(s2, m)
            v.wf(s2, x, t.args[1])
            out.append((s2, RefBind(m)))
        return out
    if name == "at":
        out = []
        for s2, k in v.eval(st, rest[0]):
            k = getkey(v, s2, t, k)
            b = v.load(s2, lv)
            for s3, ok in v.split(s2, z3.Select(S(b).dom(b), k)):
                if ok:
                    m = MapLV(lv, k)
                    v.wf(s3, v.load(s3, m), t.args[1])
                    out.append((s3, RefBind(m)))
                else: v.throw(s3, Exc("std::out_of_range", L))
        return out
    if name in ("count", "find", "contains"):
        out = []
        for s2, k in v.eval(st, rest[0]):
            k = getkey(v, s2, t, k)
            b = v.load(s2, lv)
            has = z3.simplify(z3.Select(S(b).dom(b), k))
            if name == "find": out.append((s2, Iter("key", lv, key=k, ok=has)))
            elif name == "count": out.append((s2, z3.If(has, z3.IntVal(1), z3.IntVal(0))))
            else: out.append((s2, has))
        return out
    if name == "erase":
        out = []
        for s2, vs in evals(v, st, rest):
            k = vs[0]
            if isinstance(k, Iter):
                if len(vs) == 2: raise Unsupported("range erase")
                if k.kind == "key":
                    v.safety(s2, "iter", k.ok, L)
                    kk = k.key
                elif k.kind == "map":
                    kk = v.enum_fn(k.D)[0](k.D, k.idx)
                else: raise Unsupported("erase(end)")
                erase_key(v, s2, lv, kk)
                out.append((s2, Iter("map", k.lv, idx=z3.simplify(k.idx + 1), D=k.D, n=k.n) if k.kind == "map" else None))
                continue
            k = getkey(v, s2, t, k)
            v.wf(s2, v.load(s2, lv), t)
            r = erase_key(v, s2, lv, k)
            out.append((s2, r))
        return out
    if name in ("insert", "emplace"):
        out = []
        for s2, vs in evals(v, st, rest):
            if len(vs) == 1:
                x = val(v, s2, vs[0])
                if isinstance(x, MapElem): x = v.melem_val(s2, x, None)
                if not z3.is_expr(x): raise Unsupported("map insert")
                k, y = x.sort().first(x), x.sort().second(x)
                k, y = z3.simplify(k), z3.simplify(y)
            elif len(vs) == 2 and not isinstance(vs[0], Iter): k, y = vs
            elif len(vs) == 2 and isinstance(vs[0], Iter) and isinstance(vs[1], Iter) and vs[0].kind == "map" and vs[1].kind == "end":
                # union with another map: existing keys keep their values
                src = v.load(s2, vs[0].lv)
                b2 = v.load(s2, lv)
                D = v.fresh("Du", S(b2).dom(b2).sort())
                V = v.fresh("Vu", S(b2).val(b2).sort())
                n = v.fresh("nu", z3.IntSort())
                kk = z3.Const("k!u", D.sort().domain())
                v.assume(s2, z3.ForAll([kk], z3.Select(D, kk) == z3.Or(z3.Select(S(b2).dom(b2), kk), z3.Select(S(src).dom(src), kk))))
                v.assume(s2, z3.ForAll([kk], z3.Select(V, kk) == z3.If(z3.Select(S(b2).dom(b2), kk), z3.Select(S(b2).val(b2), kk), z3.Select(S(src).val(src), kk))))
                v.assume(s2, n >= 0)
                v.store(s2, lv, S(b2).mk(D, V, n))
                out.append((s2, None))
                continue
            else: raise Unsupported("map insert/hint")
            k = getkey(v, s2, t, k)
            b2 = v.load(s2, lv)
            has = z3.simplify(z3.Select(S(b2).dom(b2), k))
            insert_key(v, s2, lv, k, newval=v.coerce(y, v.sort(t.args[1])))
            out.append((s2, InsertResult(has, Iter("key", lv, key=k, ok=z3.BoolVal(True)))))
        return out
    raise Unsupported("map::" + name)


def setmethod(v, st, e, name, lv, t, rest, want_lv):
    if t.k == "r": t = t.to
    b = v.load(st, lv)
    s = S(b)
    L = e.get("l")
    if name == "size":
        v.wf(st, b, t)
        return [(st, z3.simplify(s.size(b)))]
    if name == "empty":
        v.wf(st, b, t)
        return [(st, z3.simplify(s.size(b) == 0))]
    if name in ("begin", "cbegin"): return [(st, v.begin(st, lv, t))]
    if name in ("rbegin", "crbegin", "rend", "crend"):
        it = v.begin(st, lv, t) if "begin" in name else v.end(st, lv, t)
        it.rev = True
        return [(st, it)]
    if name in ("end", "cend"): return [(st, v.end(st, lv, t))]
    if name == "clear":
        v.store(st, lv, s.mk(z3.K(s.dom(b).sort().domain(), z3.BoolVal(False)), z3.IntVal(0)))
        return [(st, None)]
    if name == "operator=":
        out = []
        for s2, x in v.eval(st, rest[0]):
            v.store(s2, lv, val(v, s2, x))
            out.append((s2, RefBind(lv)))
        return out
    if name in ("count", "find", "insert", "erase", "emplace"):
        out = []
        if name == "insert" and len(rest) == 2:
            for s2, (bb, ee) in evals(v, st, rest):
                if not isinstance(bb, Iter) or bb.kind != "map" or ee.kind != "end": raise Unsupported("set range insert")
                src = v.load(s2, bb.lv)
                b2 = v.load(s2, lv)
                D = v.fresh("Du", S(b2).dom(b2).sort())
                n = v.fresh("nu", z3.IntSort())
                kk = z3.Const("k!u", D.sort().domain())
                v.assume(s2, z3.ForAll([kk], z3.Select(D, kk) == z3.Or(z3.Select(S(b2).dom(b2), kk), z3.Select(S(src).dom(src), kk))))
                nv = S(b2).mk(D, n)
                v.assume(s2, n >= 0, (n == 0) == (D == z3.K(D.sort().domain(), z3.BoolVal(False))))
                v.store(s2, lv, nv)
                out.append((s2, None))
            return out
        for s2, k in v.eval(st, rest[0]):
            if isinstance(k, Iter):
                kk = k.key if k.kind == "key" else v.enum_fn(k.D)[0](k.D, k.idx)
                erase_key(v, s2, lv, kk)
                out.append((s2, None))
                continue
            k = getkey(v, s2, t, k)
            b = v.load(s2, lv)
            v.wf(s2, b, t)
            has = z3.simplify(z3.Select(S(b).dom(b), k))
            if name == "count": out.append((s2, z3.If(has, z3.IntVal(1), z3.IntVal(0))))
            elif name == "find": out.append((s2, Iter("key", lv, key=k, ok=has)))
            elif name == "erase": out.append((s2, erase_key(v, s2, lv, k)))
            else:
                insert_key(v, s2, lv, k)
                out.append((s2, InsertResult(has, Iter("key", lv, key=k, ok=z3.BoolVal(True)))))
        return out
    raise Unsupported("set::" + name)


class InsertResult:
    """what insert returns: (iterator, inserted?)"""
    def __init__(self, has, it=None): self.has, self.it = has, it


def itermethod(v, st, e, name, oe, rest, want_lv):
    out = []
    if name == "operator=":
        for s2, x in v.eval(st, rest[0]):
            for s3, lv in v.eval_lv(s2, oe):
                v.store(s3, as_lv(lv), x)
                out.append((s3, RefBind(as_lv(lv))))
        return out
    if name in ("operator++", "operator--"):
        d = 1 if name == "operator++" else -1
        for s2, lv in v.eval_lv(st, oe):
            lv = as_lv(lv)
            it = v.load(s2, lv)
            if it is None or it.kind not in ("seq", "map"): raise Unsupported("increment of iterator")
            v.store(s2, lv, it.at(z3.simplify(it.idx + d)))
            out.append((s2, it if rest else RefBind(lv)))
        return out
    for s2, it in v.eval(st, oe):
        if name in ("operator*", "operator->"):
            t = v.ty(e)
            el = v.iter_deref(s2, it)
            if name == "operator->":
                if isinstance(el, LV):
                    x = v.load(s2, el)
                    if z3.is_expr(x) and x.sort() == z3.IntSort(): out.append((s2, x))
                    else: out.append((s2, RefBind(el, True)))
                else: out.append((s2, el))
            else:
                if isinstance(el, LV):
                    tt = t
                    x = v.load(s2, el)
                    if z3.is_expr(x): v.wf(s2, x, tt)
                    out.append((s2, RefBind(el)))
                else: out.append((s2, el))
        elif name in ("operator+", "operator-", "operator+=", "operator-="):
            for s3, d in v.eval(s2, rest[0]):
                if isinstance(d, Iter): out.append((s3, z3.simplify(it.idx - d.idx)))
                else:
                    r = it.at(z3.simplify(it.idx + (d if "+" in name else -d)))
                    if name.endswith("="):
                        for s4, lv in v.eval_lv(s3, oe):
                            v.store(s4, as_lv(lv), r)
                            out.append((s4, RefBind(as_lv(lv))))
                    else: out.append((s3, r))
        else: raise Unsupported("iterator " + name)
    return out


CMP = {"operator==": "==", "operator!=": "!=", "operator<": "<", "operator>": ">", "operator<=": "<=", "operator>=": ">="}


def free(v, st, e, sq, name, want_lv):
    args = e["args"]
    if sq == "__assert_fail":
        v.safety(st, "assert", z3.BoolVal(False), e.get("l"))
        return []
    if name in ("operator<<", "operator>>", "setprecision", "setw", "endl", "flush"):
        if name == "operator>>": raise Unsupported("stream extraction")
        return [(st, Stream())]
    if name in CMP:
        c = v.cl(v.ty(args[0]))
        c1 = v.cl(v.ty(args[1]))
        out = []
        for s2, (a, b) in evals(v, st, args):
            if isinstance(a, Iter) or isinstance(b, Iter):
                if name in ("operator==", "operator!="):
                    r = v.iter_eq(s2, a, b)
                    out.append((s2, z3.Not(r) if name == "operator!=" else r))
                else:
                    out.append((s2, v.compare(CMP[name], a.idx, b.idx)))
                continue
            a, b = val(v, s2, a), val(v, s2, b)
            if c in ("map", "set", "seq") and z3.is_expr(a): 
                if name not in ("operator==", "operator!="): raise Unsupported("container order")
                r = cont_eq(v, c, a, b)
                out.append((s2, z3.Not(r) if name == "operator!=" else r))
                continue
            if c == "str" and name not in ("operator==", "operator!="):
                lt = v.ufun("strlt", z3.IntSort(), z3.IntSort(), z3.BoolSort())
                if name == "operator<": r = lt(a, b)
                elif name == "operator>": r = lt(b, a)
                elif name == "operator<=": r = z3.Not(lt(b, a))
                else: r = z3.Not(lt(a, b))
                out.append((s2, r))
                continue
            if c == "pair" and name not in ("operator==", "operator!="): raise Unsupported("pair order")
            out.append((s2, v.compare(CMP[name], a, b)))
        return out
    if name in ("operator+",):
        out = []
        cat = v.ufun("strcat", z3.IntSort(), z3.IntSort(), z3.IntSort())
        for s2, (a, b) in evals(v, st, args):
            out.append((s2, cat(v.coerce(a, z3.IntSort()), v.coerce(b, z3.IntSort()))))
        return out
    if name == "to_string":
        out = []
        for s2, (a,) in evals(v, st, args):
            out.append((s2, v.ufun("to_string_" + mangle(a.sort()), a.sort(), z3.IntSort())(a)))
        return out
    if name in ("min", "max") and sq.startswith("std::numeric_limits"):
        rt = v.ty(e)
        c = v.cl(rt)
        if c == "real": return [(st, DBLMAX if name == "max" else z3.RealVal("1/44942328371557897693232629769725618340449424473557664318357520289433168951375240783177119330601884005280028469967848339414697442203604155623211857659868531094441973356216371319075554900311523529863270738021251442209537670585615720368478277635206809290627670888463325560256"))]
        bits = {"int": 31, "unsigned int": 32, "long": 63, "unsigned long": 64}.get(rt.n, None)
        if bits is None: raise Unsupported("numeric_limits")
        if name == "max": return [(st, z3.IntVal(2 ** bits - 1))]
        return [(st, z3.IntVal(0 if rt.n.startswith("unsigned") else -2 ** bits))]
    if name in ("__builtin_inff", "__builtin_inf", "__builtin_huge_val"): return [(st, INF)]
    if name in ("infinity", "quiet_NaN", "epsilon") and sq.startswith("std::numeric_limits"):
        if name == "infinity": return [(st, INF)]
        raise Unsupported("numeric_limits::" + name)
    if name in ("min", "max") and len(args) == 2:
        out = []
        for s2, (a, b) in evals(v, st, args):
            a, b = val(v, s2, a), val(v, s2, b)
            if a.sort() != b.sort(): a, b = v.coerce(a, z3.RealSort()), v.coerce(b, z3.RealSort())
            r = z3.If(b < a, b, a) if name == "min" else z3.If(a < b, b, a)
            if v.cfg.ieee_div and r.sort() == z3.RealSort(): r = v.alias(s2, name, r)
            out.append((s2, r))
        return out
    if name in ("abs", "fabs"):
        return [(s2, z3.If(a >= 0, a, -a)) for s2, (a,) in evals(v, st, args)]
    if name in ("floor", "ceil", "round", "trunc"):
        out = []
        for s2, (a,) in evals(v, st, args):
            a = v.coerce(a, z3.RealSort())
            floor_lemma(v, s2, a)
            if name == "floor": r = z3.ToReal(z3.ToInt(a))
            elif name == "ceil": r = -z3.ToReal(z3.ToInt(-a))
            elif name == "trunc": r = z3.If(a >= 0, z3.ToReal(z3.ToInt(a)), -z3.ToReal(z3.ToInt(-a)))
            else: r = z3.If(a >= 0, z3.ToReal(z3.ToInt(a + real(0.5))), -z3.ToReal(z3.ToInt(-a + real(0.5))))
            if v.cfg.ieee_div: r = z3.ToReal(v.alias(s2, name, z3.ToInt(a) if name == "floor" else -z3.ToInt(-a) if name == "ceil" else z3.simplify(z3.ToInt(r))))
            out.append((s2, r))
        return out
    if name in ("lrint", "llrint"):  # nearest, ties to even
        out = []
        for s2, (a,) in evals(v, st, args):
            a = v.coerce(a, z3.RealSort()) + real(0.5)
            n = z3.ToInt(a)
            out.append((s2, z3.If(z3.And(z3.ToReal(n) == a, n % 2 == 1), n - 1, n)))
        return out
    if name in ("isnan",): return [(s2, z3.BoolVal(False)) for s2, _ in evals(v, st, args)]
    if name in ("isinf",): return [(s2, z3.Or(a >= INF, a <= -INF)) for s2, (a,) in evals(v, st, args)]
    if name in ("exp", "log", "sqrt", "log2", "log10"):
        out = []
        for s2, (a,) in evals(v, st, args):
            f = v.ufun("fn_" + name, z3.RealSort(), z3.RealSort())
            a = v.coerce(a, z3.RealSort())
            if name == "exp": v.assume(s2, f(a) > 0)
            if name == "sqrt": v.assume(s2, z3.Implies(a >= 0, z3.And(f(a) >= 0, f(a) * f(a) == a)))
            out.append((s2, f(a)))
        return out
    if name == "pow":
        out = []
        for s2, (a, b) in evals(v, st, args):
            a, b = v.coerce(a, z3.RealSort()), v.coerce(b, z3.RealSort())
            b = z3.simplify(b)
            if z3.is_rational_value(b) and b.denominator_as_long() == 1 and 0 <= b.numerator_as_long() <= 4:
                r = z3.RealVal(1)
                for _ in range(b.numerator_as_long()): r = r * a
            else: r = v.ufun("fn_pow", z3.RealSort(), z3.RealSort(), z3.RealSort())(a, b)
            out.append((s2, r))
        return out
    if name == "fmod":
        out = []
        for s2, (a, b) in evals(v, st, args):
            q = a / b
            t = z3.If(q >= 0, z3.ToReal(z3.ToInt(q)), -z3.ToReal(z3.ToInt(-q)))
            out.append((s2, a - b * t))
        return out
    if name in ("static_pointer_cast", "const_pointer_cast"): return v.eval(st, args[0])
    if name == "dynamic_pointer_cast":
        t = v.ty(e)
        tgt = t.args[0]
        return [(s2, v.dyncast(s2, x, tgt)) for s2, x in v.eval(st, args[0])]
    if name in ("move", "forward", "as_const"):
        return v.eval_ref(st, args[0]) if want_lv else v.eval(st, args[0])
    if name == "make_pair":
        out = []
        t = v.ty(e)
        for s2, (a, b) in evals(v, st, args):
            a, b = val(v, s2, a), val(v, s2, b)
            s = PairSort(a.sort(), b.sort())
            out.append((s2, s.mk(a, b)))
        return out
    if name == "swap" and len(args) == 2:
        out = []
        for s2, (a, b) in evals_refs(v, st, args):
            x, y = v.load(s2, a.lv), v.load(s2, b.lv)
            v.store(s2, a.lv, y)
            v.store(s2, b.lv, x)
            out.append((s2, None))
        return out
    if name in ("advance",): raise Unsupported(name)
    if name == "isxdigit": raise Unsupported(name)
    h = getattr(v, "algo_" + name, None)
    if h is not None: return h(st, e, args)
    raise Unsupported("call to " + sq)


def cont_eq(v, c, a, b):
    s = S(a)
    if c == "set": return s.dom(a) == s.dom(b)
    if c == "map":
        k = z3.Const("k!ceq", s.dom(a).sort().domain())
        return z3.And(s.dom(a) == s.dom(b), z3.ForAll([k], z3.Implies(z3.Select(s.dom(a), k), z3.Select(s.val(a), k) == z3.Select(s.val(b), k))))
    j = z3.Int("j!ceq")
    n = s.hi(a) - s.lo(a)
    return z3.And(n == s.hi(b) - s.lo(b), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(s.arr(a), s.lo(a) + j) == z3.Select(s.arr(b), s.lo(b) + j))))
