"""cyvc -- a contract-based deductive verifier for the C++ of cyclus.

Input: the resolved clang AST of the real functions in /repo (dumped by
`astdump` on every run) and sidecar contracts (Python modules in
/verif/contracts).  For every function under contract the verifier executes
the body symbolically from an arbitrary pre-state satisfying `requires`,
replaces calls by the callee's contract when it has one (otherwise the callee's
real body is inlined), cuts loops at their invariants and discharges, with an
SMT solver, every obligation: postconditions, frame conditions, exceptional
postconditions, callee preconditions, loop invariants and safety conditions.
"""
import itertools
import json
import os
import re
import time
from fractions import Fraction

import z3


def _dt_attr(self, name):
    """constructor / accessor of a datatype sort by name"""
    if not name.startswith("_"):
        tab = _DT_ATTRS.get(self.get_id())
        if tab is None:
            tab = {}
            for i in range(self.num_constructors()):
                c = self.constructor(i)
                tab[c.name()] = c
                for j in range(c.arity()):
                    a = self.accessor(i, j)
                    tab[a.name()] = a
            _DT_ATTRS[self.get_id()] = tab
            _DT_KEEP.append(self)
        if name in tab: return tab[name]
    raise AttributeError(name)


_DT_ATTRS, _DT_KEEP = {}, []
z3.DatatypeSortRef.__getattr__ = _dt_attr


class Unsupported(Exception):
    """the function is outside the verifier's subset (-> undecided)"""


class PathLimit(Unsupported):
    pass


# ----------------------------------------------------------------- types ---
class Ty:
    __slots__ = ("k", "n", "to", "args", "s", "len")

    def __init__(self, k, s, n=None, to=None, args=None, len_=None):
        self.k, self.s, self.n, self.to, self.args, self.len = k, s, n, to, args or [], len_

    def __repr__(self):
        return self.s


def strip_tmpl(s):
    out, d = [], 0
    i = 0
    while i < len(s):
        c = s[i]
        if s.startswith("operator", i) and d == 0:
            m = re.match(r"operator(<<|<=|<|>>|>=|->|>|\(\)|[^\w\s(]+)", s[i:])
            if m:
                out.append(m.group(0))
                i += len(m.group(0))
                continue
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


class TypeTable:
    def __init__(self, raw):
        self.raw = raw
        self.cache = {}

    def __call__(self, i):
        if i in self.cache:
            return self.cache[i]
        r = self.raw[i]
        k = r.get("k", "o")
        t = Ty(k, r["s"])
        self.cache[i] = t
        if k == "b":
            t.n = r["n"]
        elif k in "pr":
            t.to = self(r["to"])
        elif k == "a":
            t.to = self(r["to"])
            t.len = r["len"]
        elif k == "e":
            t.n = r["n"]
        elif k == "c":
            t.n = strip_tmpl(r.get("n", ""))
            t.args = [self(a) if isinstance(a, int) else None for a in r.get("a", r.get("oa", []))]
        return t


SEQ = {"std::vector", "std::list", "std::deque"}
PTRS = {"boost::shared_ptr", "boost::weak_ptr", "std::shared_ptr", "std::weak_ptr", "std::unique_ptr",
        "boost::intrusive_ptr"}
INTS = {"int", "long", "short", "char", "signed char", "long long"}
UINTS = {"unsigned int", "unsigned long", "unsigned short", "unsigned char", "unsigned long long"}
REALS = {"double", "float", "long double"}
STREAMS = ("std::basic_stringstream", "std::basic_ostream", "std::basic_ostringstream", "std::basic_istream",
           "std::basic_iostream", "cyclus::Logger")
ITERS = {"std::reverse_iterator", "__gnu_cxx::__normal_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator",
         "std::_List_iterator", "std::_List_const_iterator"}

Ref = z3.IntSort()
Val = z3.Datatype("Val")
Val.declare("VI", ("vi", z3.IntSort()))
Val.declare("VR", ("vr", z3.RealSort()))
Val.declare("VS", ("vs", z3.IntSort()))
Val.declare("VB", ("vb", z3.BoolSort()))
Val.declare("VO", ("vo", z3.IntSort()))
Val = Val.create()

INF = z3.Real("INFINITY")
DBLMAX = z3.RealVal(str(Fraction(1.7976931348623157e308)))

_dt_cache = {}


def mangle(s):
    return re.sub(r"\W+", "_", str(s))


def SeqSort(e):
    k = ("seq", e)
    if k not in _dt_cache:
        d = z3.Datatype("Seq_" + mangle(e))
        d.declare("mk", ("lo", z3.IntSort()), ("hi", z3.IntSort()), ("arr", z3.ArraySort(z3.IntSort(), e)))
        _dt_cache[k] = d.create()
    return _dt_cache[k]


def MapSort(k_, v):
    k = ("map", k_, v)
    if k not in _dt_cache:
        d = z3.Datatype("Map_%s_%s" % (mangle(k_), mangle(v)))
        d.declare("mk", ("dom", z3.ArraySort(k_, z3.BoolSort())), ("val", z3.ArraySort(k_, v)),
                  ("size", z3.IntSort()))
        _dt_cache[k] = d.create()
    return _dt_cache[k]


def SetSort(k_):
    k = ("set", k_)
    if k not in _dt_cache:
        d = z3.Datatype("Set_%s" % mangle(k_))
        d.declare("mk", ("dom", z3.ArraySort(k_, z3.BoolSort())), ("size", z3.IntSort()))
        _dt_cache[k] = d.create()
    return _dt_cache[k]


def PairSort(a, b):
    k = ("pair", a, b)
    if k not in _dt_cache:
        d = z3.Datatype("Pair_%s_%s" % (mangle(a), mangle(b)))
        d.declare("mk", ("first", a), ("second", b))
        _dt_cache[k] = d.create()
    return _dt_cache[k]


def StructSort(name, fields):
    k = ("struct", name, tuple((n, s) for n, s in fields))
    if k not in _dt_cache:
        d = z3.Datatype("St_" + mangle(name) + "_" + str(len(_dt_cache)))
        d.declare("mk", *[("f_" + n, s) for n, s in fields])
        _dt_cache[k] = d.create()
    return _dt_cache[k]


def real(x):
    if isinstance(x, str):
        x = float(x)
    if isinstance(x, float):
        if x == float("inf"):
            return INF
        if x == float("-inf"):
            return -INF
        # shortest decimal reading of the literal (1e-6 means 10^-6, not its
        # nearest double): doubles are treated as mathematical reals
        return z3.RealVal(str(Fraction(repr(x))))
    return z3.RealVal(x)


# --------------------------------------------------------------- lvalues ---
class LV:
    pass


class LocalLV(LV):
    def __init__(self, i): self.i = i


class GlobalLV(LV):
    def __init__(self, n, sort): self.n, self.sort = n, sort


class HeapLV(LV):
    def __init__(self, f, ref, sort): self.f, self.ref, self.sort = f, ref, sort


class ElemLV(LV):  # absolute index into a Seq
    def __init__(self, b, i): self.b, self.i = b, i


class MapLV(LV):
    def __init__(self, b, k): self.b, self.k = b, k


class FieldLV(LV):
    def __init__(self, b, idx): self.b, self.idx = b, idx


class TempLV(LV):
    def __init__(self, v): self.v = v


class RefBind:
    """a reference (or pointer to a value object): an alias of an lvalue"""
    def __init__(self, lv, ptr=False): self.lv, self.ptr = lv, ptr


class MapElem:
    """result of dereferencing a map iterator: pair (key, lvalue)"""
    def __init__(self, lv, key): self.lv, self.key = lv, key


class Iter:
    # kind: 'seq' (idx), 'map' (enumeration D,n at idx), 'key' (key, ok), 'end'
    def __init__(self, kind, lv, idx=None, D=None, n=None, key=None, ok=None, rev=False):
        self.kind, self.lv, self.idx, self.D, self.n, self.key, self.ok, self.rev = kind, lv, idx, D, n, key, ok, rev

    def at(self, idx): return Iter(self.kind, self.lv, idx=idx, D=self.D, n=self.n, rev=self.rev)


class Stream:
    pass


class Closure:
    def __init__(self, node, st_locals, this, fn): self.node, self.locals, self.this, self.fn = node, st_locals, this, fn


class FnRef:
    def __init__(self, node): self.node = node


class Bind:
    def __init__(self, fn, args): self.fn, self.args = fn, args


class Placeholder:
    def __init__(self, n): self.n = n


# ------------------------------------------------------------------ state --
class State:
    __slots__ = ("locals", "heap", "glob", "alloc", "pc", "trace", "written", "dead", "exact")

    def __init__(self):
        self.locals = {}
        self.heap = {}
        self.glob = {}
        self.alloc = None
        self.pc = []
        self.trace = []
        self.written = None
        self.exact = True

    def copy(self):
        s = State()
        s.locals = dict(self.locals)
        s.heap = dict(self.heap)
        s.glob = dict(self.glob)
        s.alloc = self.alloc
        s.pc = list(self.pc)
        s.trace = list(self.trace)
        s.written = self.written
        s.exact = self.exact
        return s


class Exc:
    def __init__(self, cls, line, val=None): self.cls, self.line, self.val = cls, line, val


class Obl:
    def __init__(self, name, fn, kind, pc, goal, line=None, exact=True, trace=None):
        self.name, self.fn, self.kind, self.pc, self.goal = name, fn, kind, pc, goal
        self.line, self.exact, self.trace = line, exact, trace
        self.status = None
        self.time = 0.0
        self.model = None
        self.reason = ""


# --------------------------------------------------------------- program ---
class Program:
    def __init__(self):
        self.functions = {}
        self.classes = {}
        self.files = {}

    def load(self, path):
        d = json.load(open(path))
        tt = TypeTable(d["types"])
        # declaration ids are per translation unit: make them unique
        self.ntu = getattr(self, "ntu", 0) + 1
        base = self.ntu * 10000000

        def renum(x):
            if isinstance(x, dict):
                if isinstance(x.get("id"), int): x["id"] += base
                for y in x.values():
                    if isinstance(y, (dict, list)): renum(y)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, (dict, list)): renum(y)
        renum(d["functions"])
        for k, f in d["functions"].items():
            if k not in self.functions or ("body" in f and "body" not in self.functions[k]):
                f["_tt"] = tt
                f["key"] = k
                self.functions[k] = f
        for k, c in d["classes"].items():
            if k not in self.classes:
                c["_tt"] = tt
                self.classes[k] = c

    def find(self, qn, nparams=None, pred=None):
        out = [f for f in self.functions.values() if f["qn"] == qn and
               (nparams is None or len(f["params"]) == nparams) and (pred is None or pred(f))]
        return out

    def bases(self, c):
        out = []
        for b in self.classes.get(c, {}).get("bases", []):
            out.append(b)
            out += self.bases(b)
        return out

    def is_a(self, c, b):
        return c == b or b in self.bases(c)


def empty_arr(sort):
    """contents of an empty sequence: never read, so one fixed array serves"""
    return z3.Const("empty!" + mangle(str(sort)), sort)


class Config:
    """per-run configuration of the heap model"""
    def __init__(self):
        self.value_classes = set()
        self.final_classes = {"cyclus::Material", "cyclus::Product"}
        self.keyfn = {}        # class name -> (sort fn, projector) for map keys
        self.inline_limit = 8
        self.ieee_div = False
        # map fields whose absent keys are represented with the default value
        # (so that operator[] leaves the value part alone); only for fields the
        # verified code never erases from, assigns or constructs
        self.total_maps = {}
        self.max_paths = 4000
        self.unroll = 4
        self.branch_timeout = 400
        self.vc_timeout = 15000
        self.safety = {"index", "front", "null", "idiv", "iter", "fdiv"}


STRINGS = {}
GHOST_FIELDS = {}


def strlit(s):
    if s not in STRINGS:
        STRINGS[s] = -1000 - len(STRINGS)
    return z3.IntVal(STRINGS[s])


def str_name(code):
    for k, v in STRINGS.items():
        if v == code:
            return k
    return None


class Verifier:
    def __init__(self, prog, contracts, cfg=None):
        self.p = prog
        self.cfg = cfg or Config()
        self.contracts = contracts  # dict: qn -> list[Contract]
        self.obls = []
        self.fresh_n = 0
        self.aliases, self.alias_keep = {}, []
        self.fn = None
        self.throws = None
        self.stats = {"branch_queries": 0, "branch_time": 0.0}
        self.inlined = set()
        self.used_contracts = set()
        self.assumed = set()
        self.axioms, self.axiom_facts = set(), set()
        self.names = {}
        self.global_facts = [INF > DBLMAX]
        self.sums = []
        self.msums = []
        self.glob_sorts = {}
        self.dry = False
        self.mode = "inv"       # or "unroll"
        self.keyAt = {}
        self.depth = 0
        self.paths = 0
        self.loop_seen = []
        self.uf = {}
        self.hit_bound = False
        self.deadline = None
        self._fields_cache = {}

    # ---------------------------------------------------------- helpers ---
    def fresh(self, name, sort):
        self.fresh_n += 1
        return z3.Const("%s!%d" % (mangle(name), self.fresh_n), sort)

    def alias(self, st, name, t):
        """a constant that stands for a large term"""
        if self.mode != "inv" or z3.is_const(t) or z3.is_rational_value(t): return t
        k = self.fresh(name, t.sort())
        self.aliases[k.get_id()] = t
        self.alias_keep.append(k)
        self.assume(st, k == t)
        return k

    def axiom(self, name, make):
        """a definitional axiom, added once"""
        if name not in self.axioms:
            self.axioms.add(name)
            f = make()
            self.axiom_facts.add(f.get_id())
            self.global_facts.append(f)

    def plain_facts(self): return [f for f in self.global_facts if f.get_id() not in self.axiom_facts]

    def ufun(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.uf:
            self.uf[k] = z3.Function(name, *sorts)
        return self.uf[k]

    # classification of C++ types
    def cl(self, t):
        k = t.k
        if k == "b":
            if t.n == "bool": return "bool"
            if t.n in INTS: return "int"
            if t.n in UINTS: return "uint"
            if t.n in REALS: return "real"
            if t.n == "void": return "void"
            if t.n == "std::nullptr_t": return "ref"
            return "opaque"
        if k == "e": return "int"
        if k == "r": return self.cl(t.to)
        if k == "a":
            return "str" if t.to.k == "b" and t.to.n == "char" else "carray"
        if k == "p":
            to = t.to
            if to.k == "b" and to.n == "char": return "str"
            c = self.cl(to)
            if c in ("obj", "void", "opaque", "stream"): return "ref"
            return "ptrval"
        if k == "c":
            n = t.n
            if n in SEQ: return "seq"
            if n in ("std::map", "std::unordered_map"): return "map"
            if n in ("std::set", "std::unordered_set"): return "set"
            if n == "std::pair": return "pair"
            if n == "std::basic_string": return "str"
            if n in PTRS:
                return "ref"
            if n in ITERS: return "iter"
            if n.startswith("boost::spirit::") and "hold_any" in n: return "any"
            if n in STREAMS: return "stream"
            if n in ("boost::uuids::uuid", "cyclus::Blob"): return "opaque"
            if n == "std::initializer_list": return "ilist"
            if t.s in self.cfg.value_classes or n in self.cfg.value_classes: return "struct"
            if n.startswith("cyclus") or n in ("pyne::Material",): return "obj"
            if n.startswith("std::function") or n.startswith("std::_Bind"): return "func"
            return "opaque"
        return "opaque"

    def sort(self, t):
        c = self.cl(t)
        if t.k == "r": t = t.to
        if c == "bool": return z3.BoolSort()
        if c in ("int", "uint", "str", "ref", "obj", "opaque", "stream"): return z3.IntSort()
        if c == "real": return z3.RealSort()
        if c == "any": return Val
        if c == "seq": return SeqSort(self.sort(t.args[0]))
        if c == "map": return MapSort(self.keysort(t.args[0]), self.sort(t.args[1]))
        if c == "set": return SetSort(self.keysort(t.args[0]))
        if c == "pair": return PairSort(self.sort(t.args[0]), self.sort(t.args[1]))
        if c == "struct": return self.struct_sort(t)
        if c == "ptrval": return z3.IntSort()
        if c == "carray": return SeqSort(self.sort(t.to))
        raise Unsupported("no sort for type %s (%s)" % (t.s, c))

    def keysort(self, t):
        kf = self.cfg.keyfn.get(t.s) or self.cfg.keyfn.get(t.n)
        if kf: return kf[0](self, t)
        if self.cl(t) == "obj": raise Unsupported("container keyed by objects of class " + t.s)
        return self.sort(t)

    def key(self, t, v):
        kf = self.cfg.keyfn.get(t.s) or self.cfg.keyfn.get(t.n)
        if kf: return kf[1](self, t, v)
        return v

    def fields(self, cname):
        """all (owner::field, type) of a value class including bases"""
        if cname in self._fields_cache: return self._fields_cache[cname]
        c = self.p.classes.get(cname)
        if c is None: raise Unsupported("unknown class " + cname)
        out = []
        for b in c["bases"]:
            if b in self.p.classes: out += self.fields(b)
        for f in c["fields"]:
            out.append((f["n"], c["_tt"](f["t"])))
        self._fields_cache[cname] = out
        return out

    def struct_sort(self, t):
        fs = self.fields(t.s)
        return StructSort(t.s, [(n, self.sort(ft)) for n, ft in fs])

    def default(self, t, st=None):
        """value-initialised value of type t"""
        c = self.cl(t)
        if c == "bool": return z3.BoolVal(False)
        if c in ("int", "uint", "ref"): return z3.IntVal(0)
        if c == "real": return z3.RealVal(0)
        if c == "str": return strlit("")
        if c == "seq":
            s = self.sort(t)
            return s.mk(z3.IntVal(0), z3.IntVal(0), self.const_arr(s.arr.range() if hasattr(s.arr, "range") else None, s))
        if c == "map":
            s = self.sort(t)
            ks = s.dom(z3.Const("x", s)).sort().domain()
            vs = s.val(z3.Const("x", s)).sort().range()
            V = self.fresh("mapval", z3.ArraySort(ks, vs))
            D = z3.K(ks, z3.BoolVal(False))
            if vs == z3.RealSort(): self.global_facts.append(self.msum(D, V) == 0)
            return s.mk(D, V, z3.IntVal(0))
        if c == "set":
            s = self.sort(t)
            ks = s.dom(z3.Const("x", s)).sort().domain()
            return s.mk(z3.K(ks, z3.BoolVal(False)), z3.IntVal(0))
        if c == "pair":
            s = self.sort(t)
            return s.mk(self.default(t.args[0]), self.default(t.args[1]))
        if c == "struct":
            s = self.sort(t)
            return s.mk(*[self.default(ft) for n, ft in self.fields(t.s)])
        if c in ("stream",): return Stream()
        return self.fresh("dflt", self.sort(t))

    def const_arr(self, _, s):
        x = z3.Const("x", s)
        return empty_arr(s.arr(x).sort())

    # ------------------------------------------------ reading and writing --
    def heap_arr(self, st, f, sort):
        if f not in st.heap:
            # initial contents: one named array per field, shared by all paths
            st.heap[f] = z3.Const("H_" + mangle(f), z3.ArraySort(z3.IntSort(), sort))
            self.heap0.setdefault(f, st.heap[f])
        a = st.heap[f]
        if a.sort().range() != sort:
            raise Unsupported("sort mismatch for field %s" % f)
        return a

    def glob_val(self, st, n, sort):
        self.glob_sorts[n] = sort
        if n not in st.glob:
            st.glob[n] = z3.Const("G_" + mangle(n), sort)
            self.glob0.setdefault(n, st.glob[n])
        return st.glob[n]

    def assume(self, st, *fs):
        for f in fs:
            if z3.is_true(f): continue
            st.pc.append(f)

    def wf(self, st, v, t):
        """well-formedness facts of a freshly read value of C++ type t"""
        c = self.cl(t)
        if t.k == "r": t = t.to
        if c in ("ref", "obj"):
            if z3.is_int_value(v): return
            self.assume(st, self.allocated(st, v))
            tgt = t if c == "obj" else (t.to if t.k == "p" else (t.args[0] if t.args else None))
            if tgt is not None and tgt.s in self.cfg.final_classes:
                self.assume(st, z3.Or(v == 0, self.dyntype(v) == strlit("type " + tgt.s)))
        elif c == "uint":
            if not z3.is_int_value(v): self.assume(st, v >= 0)
        elif c in ("map", "set"):
            s = v.sort()
            if z3.is_app(v) and v.decl().name() == "mk": return
            self.assume(st, s.size(v) >= 0)
            ks = s.dom(v).sort().domain()
            self.assume(st, (s.size(v) == 0) == (s.dom(v) == z3.K(ks, z3.BoolVal(False))))
        elif c == "seq":
            s = v.sort()
            if z3.is_app(v) and v.decl().name() == "mk": return
            self.assume(st, s.lo(v) <= s.hi(v))
            if t.n == "std::vector":
                self.assume(st, s.lo(v) == 0)

    def dyntype(self, r): return self.ufun("dyntype", z3.IntSort(), z3.IntSort())(r)

    def owner(self, r):
        return self.ufun("owner", z3.IntSort(), z3.IntSort())(r)

    def old_ref(self, r, alloc):
        return z3.If(r >= 0, r <= alloc, self.owner(r) <= alloc)

    def allocated(self, st, r):
        return self.old_ref(r, st.alloc)

    def sub(self, st, f, ref):
        """address of an embedded object"""
        fn = self.ufun("sub_" + mangle(f), z3.IntSort(), z3.IntSort())
        r = fn(ref)
        inv = self.ufun("own_" + mangle(f), z3.IntSort(), z3.IntSort())
        tag = self.ufun("subtag", z3.IntSort(), z3.IntSort())
        self.assume(st, r < 0, inv(r) == ref, self.owner(r) == z3.If(ref >= 0, ref, self.owner(ref)),
                    tag(r) == strlit("sub " + f))
        return r

    def load(self, st, lv):
        if isinstance(lv, LocalLV):
            v = st.locals.get(lv.i)
            if v is None: raise Unsupported("uninitialised local read")
            if isinstance(v, RefBind) and not v.ptr: return self.load(st, v.lv)
            return v
        if isinstance(lv, HeapLV):
            return z3.simplify(z3.Select(self.heap_arr(st, lv.f, lv.sort), lv.ref))
        if isinstance(lv, GlobalLV):
            return self.glob_val(st, lv.n, lv.sort)
        if isinstance(lv, TempLV):
            return lv.v
        if isinstance(lv, ElemLV):
            b = self.load(st, lv.b)
            return z3.simplify(z3.Select(b.sort().arr(b), lv.i))
        if isinstance(lv, MapLV):
            b = self.load(st, lv.b)
            return z3.simplify(z3.Select(b.sort().val(b), lv.k))
        if isinstance(lv, FieldLV):
            b = self.load(st, lv.b)
            return z3.simplify(b.sort().accessor(0, lv.idx)(b))
        raise Unsupported("load")

    def coerce(self, v, sort):
        if isinstance(v, (Iter, RefBind, Stream, Closure, FnRef, MapElem)): return v
        if v.sort() == sort: return v
        if sort == z3.RealSort() and v.sort() == z3.IntSort(): return z3.ToReal(v)
        if sort == z3.IntSort() and v.sort() == z3.BoolSort(): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if sort == z3.BoolSort() and v.sort() == z3.IntSort(): return v != 0
        raise Unsupported("cannot coerce %s to %s" % (v.sort(), sort))

    def store(self, st, lv, v):
        if isinstance(lv, LocalLV):
            old = st.locals.get(lv.i)
            if isinstance(old, RefBind) and not old.ptr:
                return self.store(st, old.lv, v)
            if st.written is not None: st.written.add(("l", lv.i))
            st.locals[lv.i] = v
            return
        if isinstance(lv, HeapLV):
            a = self.heap_arr(st, lv.f, lv.sort)
            if st.written is not None: st.written.add(("h", lv.f))
            st.heap[lv.f] = z3.Store(a, lv.ref, self.coerce(v, lv.sort))
            return
        if isinstance(lv, GlobalLV):
            self.glob_val(st, lv.n, lv.sort)
            if st.written is not None: st.written.add(("g", lv.n))
            st.glob[lv.n] = self.coerce(v, lv.sort)
            return
        if isinstance(lv, TempLV):
            lv.v = v
            return
        if isinstance(lv, ElemLV):
            b = self.load(st, lv.b)
            s = b.sort()
            arr = z3.Store(s.arr(b), lv.i, self.coerce(v, s.arr(b).sort().range()))
            return self.store(st, lv.b, z3.simplify(s.mk(s.lo(b), s.hi(b), arr)))
        if isinstance(lv, MapLV):
            b = self.load(st, lv.b)
            s = b.sort()
            nv = z3.Store(s.val(b), lv.k, self.coerce(v, s.val(b).sort().range()))
            nb = z3.simplify(s.mk(s.dom(b), nv, s.size(b)))
            self.msum_step(st, z3.simplify(s.dom(b)), z3.simplify(s.val(b)), z3.simplify(s.dom(nb)), z3.simplify(s.val(nb)), lv.k)
            return self.store(st, lv.b, nb)
        if isinstance(lv, FieldLV):
            b = self.load(st, lv.b)
            s = b.sort()
            n = s.constructor(0).arity()
            args = [s.accessor(0, i)(b) for i in range(n)]
            args[lv.idx] = self.coerce(v, args[lv.idx].sort())
            return self.store(st, lv.b, z3.simplify(s.constructor(0)(*args)))
        raise Unsupported("store")

    # -------------------------------------------------------- obligations --
    def oblige(self, st, kind, name, goal, line=None):
        if self.dry: return
        goal = goal if z3.is_expr(goal) else z3.BoolVal(bool(goal))
        if z3.is_true(z3.simplify(goal)):
            o = Obl(name, self.fn["key"], kind, [], goal, line)
            o.status = "proved"
            o.reason = "simplified"
            self.obls.append(o)
            return
        self.obls.append(Obl(name, self.fn["key"], kind, list(st.pc), goal, line, st.exact, list(st.trace)))

    def safety(self, st, kind, goal, line):
        if self.dry: return
        if kind in self.cfg.safety and kind not in self.contract.no_safety:
            self.oblige(st, "safety", "safety/%s@%s:%s" % (kind, short(self.cur_fn()["qn"]), self.rel_line(line)), goal,
                        line)

    def cur_fn(self):
        return self.callstack[-1] if self.callstack else self.fn

    def rel_line(self, line):
        f = self.cur_fn()
        return "+%s" % ((line or 0) - f["loc"]["l"])

    def check(self, pc, extra=(), timeout=None):
        s = z3.Solver()
        s.set("timeout", timeout or self.cfg.branch_timeout)
        for f in self.global_facts: s.add(f)
        for f in pc: s.add(f)
        for f in extra: s.add(f)
        t0 = time.time()
        r = s.check()
        self.stats["branch_queries"] += 1
        self.stats["branch_time"] += time.time() - t0
        return r

    def feasible(self, st, cond):
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.check(st.pc, [c]) != z3.unsat

    def split(self, st, cond):
        """-> list of (state, bool)"""
        if self.deadline and time.time() > self.deadline:
            raise PathLimit("time budget exhausted")
        c = z3.simplify(cond)
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        out = []
        ft = self.check(st.pc, [c]) != z3.unsat
        ff = self.check(st.pc, [z3.Not(c)]) != z3.unsat
        if ft and ff:
            self.paths += 1
            if self.paths > self.cfg.max_paths: raise PathLimit("too many paths")
            a, b = st.copy(), st
            a.pc.append(c)
            b.pc.append(z3.Not(c))
            return [(a, True), (b, False)]
        if ft:
            st.pc.append(c)
            return [(st, True)]
        if ff:
            st.pc.append(z3.Not(c))
            return [(st, False)]
        return []

    def throw(self, st, exc):
        self.throws.append((st, exc))

    # --------------------------------------------------------- statements --
    def exec_block(self, st, stmts):
        outs = []
        cur = [st]
        for s in stmts:
            nxt = []
            for c in cur:
                for (s2, k, v) in self.exec(c, s):
                    if k == "next": nxt.append(s2)
                    else: outs.append((s2, k, v))
            cur = nxt
            if not cur: break
        return outs + [(c, "next", None) for c in cur]

    def is_log(self, e):
        if isinstance(e, dict):
            if e.get("qn", "").startswith("cyclus::Logger::ReportLevel"): return True
            return any(self.is_log(v) for v in e.values())
        if isinstance(e, list): return any(self.is_log(v) for v in e)
        return False

    def exec(self, st, s):
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None: raise Unsupported("statement %s" % s.get("c", k))
        return m(st, s)

    def s_block(self, st, s): return self.exec_block(st, s["b"])

    def s_null(self, st, s): return [(st, "next", None)]

    def s_break(self, st, s): return [(st, "brk", None)]

    def s_cont(self, st, s): return [(st, "cont", None)]

    def s_expr(self, st, s):
        return [(s2, "next", None) for s2, v in self.eval(st, s["e"], discard=True)]

    def s_decl(self, st, s):
        cur = [st]
        for v in s["v"]:
            nxt = []
            for c in cur: nxt += self.declare(c, v)
            cur = nxt
        return [(c, "next", None) for c in cur]

    def declare(self, st, v):
        tt = self.cur_fn()["_tt"]
        t = tt(v["t"])
        if v.get("static"): raise Unsupported("static local")
        c = self.cl(t)
        self.var_names[v["id"]] = v["n"]
        self.var_types[v["id"]] = t
        if st.written is not None: st.written.add(("l", v["id"]))
        if t.k == "r" and c not in ("obj",):
            out = []
            for s2, lv in self.eval_ref(st, v["i"]):
                s2.locals[v["id"]] = lv
                out.append(s2)
            return out
        if "i" not in v or v["i"] is None:
            if c in ("int", "uint", "real", "bool", "str", "ref", "opaque", "ptrval"):
                st.locals[v["id"]] = self.fresh("uninit_" + v["n"], self.sort(t))
            elif c == "iter":
                st.locals[v["id"]] = None
            else:
                st.locals[v["id"]] = self.default(t)
            return [st]
        out = []
        for s2, val in self.eval(st, v["i"]):
            if c in ("int", "uint", "real", "bool", "str", "ref") and z3.is_expr(val):
                val = self.coerce(val, self.sort(t))
            s2.locals[v["id"]] = val
            out.append(s2)
        return out

    def s_if(self, st, s):
        if self.is_log(s["c"]): return [(st, "next", None)]
        outs = []
        cur = [st]
        if s.get("init"):
            cur = [x[0] for x in self.exec(st, s["init"])]
        if s.get("cv"):
            n = []
            for c in cur: n += self.declare(c, s["cv"])
            cur = n
        for c in cur:
            for s2, b in self.cond(c, s["c"]):
                if b:
                    outs += self.exec(s2, s["a"])
                elif s.get("b"):
                    outs += self.exec(s2, s["b"])
                else:
                    outs.append((s2, "next", None))
        return outs

    def cond(self, st, e):
        """evaluate a condition, forking: list of (state, bool)"""
        e0 = e
        while e0["k"] == "cast" and e0["ck"] in ("NoOp", "LValueToRValue"): e0 = e0["e"]
        if e0["k"] == "bin" and e0["op"] in ("&&", "||"):
            out = []
            for s2, b in self.cond(st, e0["a"]):
                if e0["op"] == "&&":
                    if b: out += self.cond(s2, e0["b"])
                    else: out.append((s2, False))
                else:
                    if b: out.append((s2, True))
                    else: out += self.cond(s2, e0["b"])
            return out
        if e0["k"] == "un" and e0["op"] == "!":
            return [(s2, not b) for s2, b in self.cond(st, e0["e"])]
        out = []
        for s2, v in self.eval(st, e):
            out += self.split(s2, self.truth(v))
        return out

    def truth(self, v):
        if isinstance(v, RefBind): return z3.BoolVal(True)
        if v.sort() == z3.BoolSort(): return v
        return v != 0

    def s_ret(self, st, s):
        if s.get("e") is None: return [(st, "ret", None)]
        rt = self.cur_fn()["_tt"](self.cur_rt)
        if rt.k == "r" and self.cl(rt) not in ("obj",):
            return [(s2, "ret", lv) for s2, lv in self.eval_ref(st, s["e"])]
        out = []
        for s2, v in self.eval(st, s["e"]):
            if z3.is_expr(v) and self.cl(rt) in ("int", "uint", "real", "bool", "ref", "str"):
                v = self.coerce(v, self.sort(rt))
            out.append((s2, "ret", v))
        return out

    def s_try(self, st, s):
        saved = self.throws
        self.throws = []
        outs = self.exec(st, s["b"])
        mine, self.throws = self.throws, saved
        tt = self.cur_fn()["_tt"]
        for s2, ex in mine:
            done = False
            for h in s["h"]:
                if "t" in h:
                    ht = tt(h["t"])
                    if ht.k == "r": ht = ht.to
                    if not self.p.is_a(ex.cls, ht.s) and not (ht.s == "std::exception"): continue
                    s2.locals[h["v"]["id"]] = self.fresh("exc", z3.IntSort())
                    self.var_names[h["v"]["id"]] = h["v"]["n"]
                    self.var_types[h["v"]["id"]] = ht
                self.cur_exc.append(ex)
                outs += self.exec(s2, h["b"])
                self.cur_exc.pop()
                done = True
                break
            if not done: self.throw(s2, ex)
        return outs

    def s_switch(self, st, s):
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        flat = []  # (labels, stmt)
        for x in body:
            labels = []
            while x["k"] in ("case", "default"):
                labels.append(x.get("v") if x["k"] == "case" else "default")
                x = x["s"]
            flat.append((labels, x))
        outs = []
        for s1, v in self.eval(st, s["c"]):
            cur = [(s1, v)]
            pending = [s1]
            remaining = s1
            dflt = None
            for i, (labels, _) in enumerate(flat):
                for lab in labels:
                    if lab == "default":
                        dflt = i
                        continue
                    if remaining is None: continue
                    (s2, lv), = self.eval(remaining, lab)
                    nxt = None
                    for s3, b in self.split(s2, v == lv):
                        if b: outs += self.exec_block(s3, [x for _, x in flat[i:]])
                        else: nxt = s3
                    remaining = nxt
            if remaining is not None:
                if dflt is not None: outs += self.exec_block(remaining, [x for _, x in flat[dflt:]])
                else: outs.append((remaining, "next", None))
        return [(a, "next" if k == "brk" else k, v) for a, k, v in outs]

    # ---- loops
    def s_while(self, st, s): return self.loop(st, s, lambda c: self.cond(c, s["c"]), s["b"], None)

    def s_do(self, st, s):
        outs = []
        for s2, k, v in self.exec(st, s["b"]):
            if k in ("next", "cont"):
                outs += self.loop(s2, s, lambda c: self.cond(c, s["c"]), s["b"], None)
            elif k == "brk": outs.append((s2, "next", None))
            else: outs.append((s2, k, v))
        return outs

    def s_for(self, st, s):
        outs = []
        cur = [(st, "next", None)] if not s.get("init") else self.exec(st, s["init"])
        for c, k, v in cur:
            cond = (lambda x: self.cond(x, s["c"])) if s.get("c") else (lambda x: [(x, True)])
            inc = (lambda x: [a for a, _ in self.eval(x, s["inc"], discard=True)]) if s.get("inc") else None
            outs += self.loop(c, s, cond, s["b"], inc)
        return outs

    def s_rfor(self, st, s):
        """for (x : range) normalised to an iterator loop"""
        outs = []
        tt = self.cur_fn()["_tt"]
        idxid = ("rfor", id(s))
        var = s["var"]
        vt = tt(var["t"])
        self.var_names[idxid] = "__it"
        for s1, rb in self.eval_ref(st, s["r"]):
            lv = rb.lv if isinstance(rb, RefBind) else TempLV(rb)
            rt = tt(s["r"]["t"])
            it0 = self.begin(s1, lv, rt)
            s1.locals[idxid] = it0
            if s1.written is not None: s1.written.add(("l", idxid))

            def cond(c):
                return self.split(c, z3.Not(self.iter_eq(c, c.locals[idxid], self.end(c, lv, rt))))

            def inc(c):
                self.iter_inc(c, idxid)
                return [c]

            def body(c):
                el = self.iter_deref(c, c.locals[idxid], rt)
                self.var_names[var["id"]] = var["n"]
                self.var_types[var["id"]] = vt
                if c.written is not None: c.written.add(("l", var["id"]))
                if vt.k == "r" and self.cl(vt) != "obj":
                    c.locals[var["id"]] = RefBind(el) if isinstance(el, LV) else el
                else:
                    c.locals[var["id"]] = self.load(c, el) if isinstance(el, LV) else self.melem_val(c, el, rt)
                return self.exec(c, s["b"])
            outs += self.loop(s1, s, cond, body, inc)
        return outs

    def run_body(self, st, body):
        return body(st) if callable(body) else self.exec(st, body)

    def loop(self, st, node, cond, body, inc):
        nid = id(node)
        if nid not in self.loop_seen: self.loop_seen.append(nid)
        ordinal = self.loop_seen.index(nid)
        inv = self.contract.loops.get(ordinal) if self.mode == "inv" else None
        if inv is None: return self.loop_unroll(st, cond, body, inc)
        return self.loop_inv(st, node, cond, body, inc, inv, ordinal)

    def loop_unroll(self, st, cond, body, inc):
        outs = []
        cur = [st]
        it = 0
        bound = self.cfg.unroll
        while cur:
            nxt = []
            for c in cur:
                for s2, b in cond(c):
                    if not b:
                        outs.append((s2, "next", None))
                        continue
                    if it >= bound:
                        self.hit_bound = True
                        continue
                    for s3, k, v in self.run_body(s2, body):
                        if k in ("next", "cont"):
                            nxt += inc(s3) if inc else [s3]
                        elif k == "brk": outs.append((s3, "next", None))
                        else: outs.append((s3, k, v))
            cur = nxt
            it += 1
            if it > bound + 1: break
        return outs

    def loop_inv(self, st, node, cond, body, inc, inv, ordinal):
        fnname = short(self.fn["qn"])
        # 1. which locations does the loop write?  (semantic dry run to a fixpoint)
        written = set()
        pre_locals = set(st.locals)
        saved_obls, saved_throws, saved_dry = self.obls, self.throws, self.dry
        for _ in range(6):
            probe = st.copy()
            probe.written = set()
            probe_w = {w for w in written if not (w[0] == "l" and w[1] not in pre_locals)}
            self.havoc_probe(probe, probe_w)
            self.obls, self.throws, self.dry = [], [], True
            npaths = self.paths
            loops = list(self.loop_seen)
            try:
                for s2, b in cond(probe):
                    if b:
                        for s3, k, v in self.run_body(s2, body):
                            if k in ("next", "cont") and inc: inc(s3)
                w = set(probe.written)
            finally:
                self.obls, self.throws, self.dry = saved_obls, saved_throws, saved_dry
                self.paths = npaths
                self.loop_seen = loops + [x for x in self.loop_seen if x not in loops]
            if w <= written: break
            written |= w
        written = {w for w in written if not (w[0] == "l" and w[1] not in pre_locals)}
        if st.written is not None: st.written |= written
        inv = FramedInv(inv, self, written)
        # 2. invariant on entry
        entry = st.copy()
        L0 = LoopCtx(self, st, entry, inv, written)
        goals = inv.get(L0)
        L0.facts(st)
        for name, g in goals:
            if not self.dry:
                self.oblige(st, "loop-entry", "%s/loop%d/entry/%s" % (fnname, ordinal, name), g, node["l"])
        # 3. arbitrary iteration
        h = st.copy()
        self.havoc_probe(h, written)
        L1 = LoopCtx(self, h, entry, inv, written)
        for name, g in inv.get(L1): self.assume(h, g)
        L1.facts(h)
        outs = []
        for s2, b in cond(h):
            if not b:
                outs.append((s2, "next", None))
                continue
            head = s2.copy()
            for s3, k, v in self.run_body(s2, body):
                if k in ("next", "cont"):
                    for s4 in (inc(s3) if inc else [s3]):
                        L2 = LoopCtx(self, s4, entry, inv, written)
                        goals = inv.get(L2)
                        L2.facts(s4)
                        for name, g in goals:
                            if not self.dry:
                                self.oblige(s4, "loop-preserve", "%s/loop%d/preserve/%s" % (fnname, ordinal, name), g,
                                            node["l"])
                        self.loop_iterations += 1
                elif k == "brk": outs.append((s3, "next", None))
                else: outs.append((s3, k, v))
        for o in outs: o[0].exact = False
        return outs

    def havoc_probe(self, st, written):
        for w in sorted(written, key=str):
            kind, n = w
            if kind == "l":
                v = st.locals.get(n)
                if v is None: continue
                if isinstance(v, Iter):
                    if v.kind == "seq":
                        st.locals[n] = v.at(self.fresh("it", z3.IntSort()))
                    elif v.kind == "map":
                        i = self.fresh("it", z3.IntSort())
                        st.locals[n] = v.at(i)
                        self.assume(st, i >= 0, i <= v.n)
                    else:
                        raise Unsupported("havoc of iterator kind " + v.kind)
                elif isinstance(v, RefBind):
                    raise Unsupported("reference rebound in loop")
                elif z3.is_expr(v):
                    st.locals[n] = self.fresh("hv_" + str(self.var_names.get(n, "v")), v.sort())
                    if n in self.var_types: self.wf(st, st.locals[n], self.var_types[n])
                elif isinstance(v, Stream): pass
                else: raise Unsupported("havoc of local")
            elif kind == "h":
                if n in st.heap: st.heap[n] = self.fresh("hv_" + n, st.heap[n].sort())
                elif n in self.heap_sorts:
                    st.heap[n] = self.fresh("hv_" + n, z3.ArraySort(z3.IntSort(), self.heap_sorts[n]))
            elif kind == "g":
                if n in self.glob_sorts: st.glob[n] = self.fresh("hv_" + n, self.glob_sorts[n])
            elif kind == "a":
                old = st.alloc
                st.alloc = self.fresh("alloc", z3.IntSort())
                self.assume(st, st.alloc >= old)

    # -------------------------------------------------------- expressions --
    def eval(self, st, e, discard=False):
        m = getattr(self, "e_" + e["k"], None)
        if m is None: raise Unsupported("expression %s (line %s)" % (e.get("c", e["k"]), e.get("l")))
        return m(st, e)

    def T(self, i): return self.cur_fn()["_tt"](i)

    def ty(self, e): return self.cur_fn()["_tt"](e["t"])

    def e_int(self, st, e):
        t = self.ty(e)
        if self.cl(t) == "bool": return [(st, z3.BoolVal(e["v"] != "0"))]
        return [(st, z3.IntVal(e["v"]))]

    def e_flt(self, st, e): return [(st, real(e["v"]))]

    def e_bool(self, st, e): return [(st, z3.BoolVal(e["v"]))]

    def e_str(self, st, e): return [(st, strlit(e["v"]))]

    def e_zero(self, st, e): return [(st, self.default(self.ty(e)))]

    def e_this(self, st, e):
        v = st.locals["this"]
        return [(st, v)]

    def e_mat(self, st, e): return self.eval(st, e["e"])

    def e_ref(self, st, e):
        t = self.ty(e)
        out = []
        for s2, lv in self.eval_lv(st, e):
            if not isinstance(lv, LV):
                out.append((s2, lv))
                continue
            v = self.load(s2, lv)
            if z3.is_expr(v) and not isinstance(lv, LocalLV): self.wf(s2, v, t)
            out.append((s2, v))
        return out

    def e_fref(self, st, e): return [(st, FnRef(e))]

    def e_mem(self, st, e):
        t = self.ty(e)
        out = []
        for s2, lv in self.eval_lv(st, e):
            if isinstance(lv, LV):
                v = self.load(s2, lv)
                if z3.is_expr(v): self.wf(s2, v, t)
                out.append((s2, v))
            else: out.append((s2, lv))
        return out

    def eval_ref(self, st, e):
        """evaluate an expression binding it as a reference: RefBind/ref value"""
        c = self.cl(self.ty(e))
        if c == "obj": return self.eval(st, e)
        out = []
        for s2, lv in self.eval_lv(st, e):
            if isinstance(lv, LV):
                if isinstance(lv, LocalLV):
                    v = s2.locals.get(lv.i)
                    if isinstance(v, RefBind) and not v.ptr:
                        out.append((s2, v))
                        continue
                out.append((s2, RefBind(lv)))
            elif isinstance(lv, RefBind): out.append((s2, lv))
            elif isinstance(lv, MapElem): out.append((s2, lv))
            else: out.append((s2, RefBind(TempLV(lv))))
        return out

    def eval_lv(self, st, e):
        """-> list of (state, LV | value)"""
        k = e["k"]
        if k == "ref":
            t = self.ty(e)
            if e["d"] == "l":
                v = st.locals.get(e["id"], None)
                if isinstance(v, RefBind) and not v.ptr: return [(st, v.lv)]
                if isinstance(v, MapElem): return [(st, v)]
                return [(st, LocalLV(e["id"]))]
            if "cv" in e:
                c = self.cl(t)
                return [(st, TempLV(real(e["cv"]) if c == "real" else
                                    (z3.BoolVal(e["cv"] != "0") if c == "bool" else z3.IntVal(e["cv"]))))]
            if "ci" in e and self.cl(t) == "str":
                ci = e["ci"]
                while ci["k"] in ("cast", "mat", "ctor") and (ci.get("e") or ci.get("args")):
                    ci = ci.get("e") or ci["args"][0]
                if ci["k"] == "str": return [(st, TempLV(strlit(ci["v"])))]
            if self.cl(t) == "obj":
                return [(st, self.glob_val(st, e["qn"], z3.IntSort()))]
            if e["d"] == "g": return [(st, GlobalLV(e["qn"], self.sort(t)))]
            if e["n"].startswith("_") and e["n"][1:].isdigit(): return [(st, Placeholder(int(e["n"][1:])))]
            raise Unsupported("reference to " + e["n"])
        if k == "mem":
            t = self.ty(e)
            out = []
            for s2, b in self.eval_obj(st, e["b"], e.get("arrow", False)):
                out.append((s2, self.member(s2, b, e, t)))
            return out
        if k == "cast":
            ck = e["ck"]
            if ck in ("NoOp", "LValueToRValue", "DerivedToBase", "UncheckedDerivedToBase"):
                return self.eval_lv(st, e["e"])
        if k == "mat":
            return self.eval_lv(st, e["e"]) if e["e"].get("lv") else [(s2, v) for s2, v in self.eval(st, e["e"])]
        if k == "un" and e["op"] == "*":
            out = []
            for s2, v in self.eval(st, e["e"]):
                if isinstance(v, RefBind): out.append((s2, v.lv))
                else: out.append((s2, v))
            return out
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            return [(s2, lv) for s2, lv in self.incdec(st, e, True)]
        if k in ("bin", "cas") and (k == "cas" or e["op"] == "="):
            return self.assign(st, e)
        if k == "idx":
            out = []
            for s2, b in self.eval_lv(st, strip_decay(e["a"])):
                for s3, i in self.eval(s2, e["b"]):
                    if not isinstance(b, LV): raise Unsupported("array")
                    out.append((s3, ElemLV(b, i)))
            return out
        if k == "cond":
            out = []
            for s2, b in self.cond(st, e["c"]):
                out += self.eval_lv(s2, e["a"] if b else e["b"])
            return out
        if k in ("call", "mcall"):
            out = []
            for s2, v in self.call(st, e, want_lv=True):
                if isinstance(v, RefBind): out.append((s2, v.lv))
                else: out.append((s2, v))
            return out
        return self.eval(st, e)

    def eval_obj(self, st, e, arrow):
        """evaluate the object part of a member access: Ref, LV or MapElem"""
        if arrow:
            out = []
            for s2, v in self.eval(st, e):
                if isinstance(v, RefBind): out.append((s2, v.lv))
                else: out.append((s2, v))
            return out
        if self.cl(self.ty(e)) == "obj": return self.eval(st, e)
        return self.eval_lv(st, e)

    def field_key(self, cls, n):
        return "%s::%s" % (cls, n)

    def member(self, st, b, e, t):
        n = e["n"]
        cls = e.get("cls")
        if isinstance(b, TempLV) and type(b.v).__name__ == "InsertResult": b = b.v
        if type(b).__name__ == "InsertResult":
            if n == "second": return z3.Not(b.has)
            return b.it
        if isinstance(b, MapElem):
            if n == "first": return b.key
            return MapLV(b.lv, b.key)
        if isinstance(b, LV):
            v = self.load(st, b)
            if isinstance(v, MapElem) or type(v).__name__ == "InsertResult": return self.member(st, v, e, t)
            if not z3.is_expr(v): raise Unsupported("member of %r" % v)
            s = v.sort()
            if s.kind() == z3.Z3_DATATYPE_SORT:
                c = s.constructor(0)
                for i in range(c.arity()):
                    an = s.accessor(0, i).name()
                    if an == n or an == "f_" + n: return FieldLV(b, i)
                raise Unsupported("field %s of %s" % (n, s))
            b = v
        if z3.is_expr(b):
            s = b.sort()
            if s.kind() == z3.Z3_DATATYPE_SORT:
                c = s.constructor(0)
                for i in range(c.arity()):
                    an = s.accessor(0, i).name()
                    if an == n or an == "f_" + n: return z3.simplify(s.accessor(0, i)(b))
                raise Unsupported("field %s of %s" % (n, s))
            if s == z3.IntSort():
                if cls is None: raise Unsupported("member %s" % n)
                f = self.field_key(cls, n)
                self.safety(st, "null", b != 0, e.get("l"))
                if self.cl(t) == "obj" and t.k != "r": return self.sub(st, f, b)
                self.heap_sorts[f] = self.sort(t)
                return HeapLV(f, b, self.sort(t))
        raise Unsupported("member access %s" % n)

    # --- operators
    def e_cast(self, st, e):
        ck = e["ck"]
        t = self.ty(e)
        if ck == "LValueToRValue" or ck == "NoOp": return self.eval(st, e["e"])
        if ck == "ToVoid": return [(s2, None) for s2, v in self.eval(st, e["e"])]
        if ck == "Dynamic":
            out = []
            for s2, v in self.eval(st, e["e"]):
                out.append((s2, self.dyncast(s2, v, t.to if t.k in "pr" else t)))
            return out
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "ConstructorConversion",
                  "UserDefinedConversion", "ArrayToPointerDecay", "FunctionToPointerDecay", "BitCast",
                  "BuiltinFnToFnPtr", "LValueBitCast"):
            return self.eval(st, e["e"])
        if ck in ("NullToPointer", "NullToMemberPointer"): return [(st, z3.IntVal(0))]
        out = []
        for s2, v in self.eval(st, e["e"]):
            if ck == "IntegralToFloating":
                r = z3.ToReal(self.coerce(v, z3.IntSort()))
            elif ck == "FloatingToIntegral":
                r = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            elif ck == "FloatingCast": r = v
            elif ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"): r = self.truth(v)
            elif ck == "IntegralCast":
                src = self.ty(e["e"])
                v = self.coerce(v, z3.IntSort())
                if self.cl(t) == "uint" and self.cl(src) == "int":
                    w = 2 ** 64 if "long" in t.n else 2 ** 32
                    r = v if z3.is_int_value(v) and v.as_long() >= 0 else z3.If(v < 0, v + w, v)
                else: r = v
            elif ck == "IntegralToPointer": r = v
            else: raise Unsupported("cast " + ck)
            out.append((s2, z3.simplify(r)))
        return out

    def dyncast(self, st, v, t):
        """dynamic_cast: null when the dynamic type is not t"""
        if t.s in self.cfg.final_classes:
            return z3.If(self.dyntype(v) == strlit("type " + t.s), v, z3.IntVal(0))
        isa = self.ufun("is_" + mangle(t.s), z3.IntSort(), z3.BoolSort())
        return z3.If(isa(v), v, z3.IntVal(0))

    def e_un(self, st, e):
        op = e["op"]
        if op in ("++", "--"):
            return [(s2, v) for s2, v in self.incdec(st, e, False)]
        if op == "&":
            sub = e["e"]
            if sub["k"] in ("fref", "mref"): return [(st, FnRef(sub))]
            c = self.cl(self.ty(sub))
            if c == "obj": return self.eval(st, sub)
            return [(s2, RefBind(v.lv, True) if isinstance(v, RefBind) else v) for s2, v in self.eval_ref(st, sub)]
        if op == "*":
            out = []
            for s2, v in self.eval(st, e["e"]):
                if isinstance(v, RefBind): out.append((s2, self.load(s2, v.lv)))
                elif isinstance(v, Iter): raise Unsupported("raw iterator")
                else: out.append((s2, v))
            return out
        out = []
        for s2, v in self.eval(st, e["e"]):
            if op == "-": out.append((s2, z3.simplify(-v)))
            elif op == "+": out.append((s2, v))
            elif op == "!": out.append((s2, z3.Not(self.truth(v))))
            else: raise Unsupported("unary " + op)
        return out

    def incdec(self, st, e, want_lv):
        out = []
        d = 1 if e["op"] == "++" else -1
        for s2, lv in self.eval_lv(st, e["e"]):
            old = self.load(s2, lv)
            if z3.is_expr(old):
                self.store(s2, lv, z3.simplify(old + d))
            else: raise Unsupported("incdec")
            out.append((s2, lv if want_lv else (old if e.get("post") else self.load(s2, lv))))
        return out

    def arith(self, st, op, a, b, t, line):
        if op in ("+", "-", "*", "/", "%"):
            if self.cl(t) == "real":
                a, b = self.coerce(a, z3.RealSort()), self.coerce(b, z3.RealSort())
                if op == "/":
                    if self.cfg.ieee_div and not z3.is_rational_value(z3.simplify(b)):
                        # x/0 is an infinity; 0/0 (NaN) must not happen
                        self.safety(st, "fdiv", z3.Or(b != 0, a != 0), line)
                        if self.check(st.pc + [b == 0], [], 2000) == z3.unsat: return self.alias(st, "quot", a / b)
                        self.assume(st, z3.IsInt(INF))
                        return z3.If(b == 0, z3.If(a > 0, INF, -INF), a / b)
                    self.safety(st, "fdiv", b != 0, line)
                    return a / b
            else:
                a, b = self.coerce(a, z3.IntSort()), self.coerce(b, z3.IntSort())
                if op in "/%":
                    self.safety(st, "idiv", b != 0, line)
                    # C++ truncates toward zero
                    q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -((-a) / b), (-a) / -b))
                    if op == "/": return q
                    return a - b * q
            r = a + b if op == "+" else a - b if op == "-" else a * b
            if self.cl(t) == "uint" and op == "-":
                w = 2 ** 64 if "long" in t.n else 2 ** 32
                r = z3.If(r < 0, r + w, r)
            return r
        raise Unsupported("arith " + op)

    def compare(self, op, a, b):
        if isinstance(a, RefBind) or isinstance(b, RefBind):
            def isnull(x): return z3.is_expr(x) and z3.is_int_value(x) and x.as_long() == 0
            if isnull(a) or isnull(b):
                return z3.BoolVal(op == "!=")
            raise Unsupported("pointer comparison")
        if a.sort() != b.sort():
            if a.sort() == z3.RealSort(): b = self.coerce(b, z3.RealSort())
            elif b.sort() == z3.RealSort(): a = self.coerce(a, z3.RealSort())
            else:
                a, b = self.coerce(a, z3.IntSort()), self.coerce(b, z3.IntSort())
        if op == "==": return a == b
        if op == "!=": return a != b
        if a.sort() == z3.BoolSort():
            a, b = self.coerce(a, z3.IntSort()), self.coerce(b, z3.IntSort())
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]

    def e_bin(self, st, e):
        op = e["op"]
        if op == ",":
            out = []
            for s2, _ in self.eval(st, e["a"]): out += self.eval(s2, e["b"])
            return out
        if op == "=":
            return [(s2, self.load(s2, lv) if isinstance(lv, LV) else lv) for s2, lv in self.assign(st, e)]
        if op in ("&&", "||"):
            out = []
            for s2, b in self.cond(st, e): out.append((s2, z3.BoolVal(b)))
            return out
        out = []
        for s2, a in self.eval(st, e["a"]):
            for s3, b in self.eval(s2, e["b"]):
                if op in ("==", "!=", "<", ">", "<=", ">="): r = self.compare(op, a, b)
                elif op in ("|", "&") and self.cl(self.ty(e)) in ("int", "bool"):
                    if a.sort() == z3.BoolSort() and b.sort() == z3.BoolSort():
                        r = z3.Or(a, b) if op == "|" else z3.And(a, b)
                    else: raise Unsupported("bit op")
                else: r = self.arith(s3, op, a, b, self.ty(e), e.get("l"))
                out.append((s3, z3.simplify(r)))
        return out

    def e_cas(self, st, e):
        return [(s2, self.load(s2, lv)) for s2, lv in self.assign(st, e)]

    def assign(self, st, e):
        out = []
        if e["k"] == "cas":
            for s2, b in self.eval(st, e["b"]):
                for s3, lv in self.eval_lv(s2, e["a"]):
                    if not isinstance(lv, LV): raise Unsupported("assign")
                    a = self.load(s3, lv)
                    ct = self.T(e["ct"])
                    lt = self.ty(e["a"])
                    r = self.arith(s3, e["op"], a, b, ct, e.get("l"))
                    if self.cl(lt) in ("int", "uint") and r.sort() == z3.RealSort():
                        r = z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
                    self.store(s3, lv, z3.simplify(self.coerce(r, self.sort(lt))))
                    out.append((s3, lv))
            return out
        for s2, b in self.eval(st, e["b"]):
            for s3, lv in self.eval_lv(s2, e["a"]):
                if not isinstance(lv, LV): raise Unsupported("assign to non-lvalue")
                if z3.is_expr(b): b = self.coerce(b, self.sort(self.ty(e["a"])))
                self.store(s3, lv, b)
                out.append((s3, lv))
        return out

    def e_cond(self, st, e):
        out = []
        t = self.ty(e)
        for s2, b in self.cond(st, e["c"]):
            for s3, v in self.eval(s2, e["a"] if b else e["b"]):
                if z3.is_expr(v) and self.cl(t) in ("int", "real", "bool", "uint"):
                    v = self.coerce(v, self.sort(t))
                out.append((s3, v))
        return out

    def e_throw(self, st, e):
        if e.get("e") is None:
            self.throw(st, self.cur_exc[-1])
            return []
        t = self.ty(e["e"])
        sub = e["e"]
        for s2, v in self.eval_exc(st, sub):
            self.throw(s2, Exc(t.s, e.get("l")))
        return []

    def eval_exc(self, st, e):
        """exception objects: only the class matters; evaluate nothing"""
        return [(st, None)]

    def e_delete(self, st, e):
        out = []
        for s2, v in self.eval(st, e["e"]):
            out += self.delete(s2, v, self.ty(e["e"]))
        return out

    def delete(self, st, v, t):
        c = self.lookup_contract(t.to.s + "::(delete)", 0)
        if c: return self.apply_contract(st, c, v, [], None, None)
        raise Unsupported("delete of " + t.s)

    def e_list(self, st, e):
        t = self.ty(e)
        c = self.cl(t)
        if c in ("seq", "carray", "ilist", "opaque"):
            cur = [(st, [])]
            for a in e["args"]:
                cur = [(s3, vs + [v]) for s2, vs in cur for s3, v in self.eval(s2, a)]
            out = []
            for s2, vs in cur:
                if not vs: raise Unsupported("empty list")
                es = vs[0].sort()
                s = SeqSort(es)
                arr = self.fresh("lst", z3.ArraySort(z3.IntSort(), es))
                for i, v in enumerate(vs): arr = z3.Store(arr, i, v)
                out.append((s2, s.mk(z3.IntVal(0), z3.IntVal(len(vs)), arr)))
            return out
        if len(e["args"]) == 1: return self.eval(st, e["args"][0])
        if not e["args"]: return [(st, self.default(t))]
        raise Unsupported("init list")

    def e_lambda(self, st, e):
        return [(st, Closure(e, dict(st.locals), st.locals.get("this"), self.cur_fn()))]

    def new_ref(self, st):
        r = z3.simplify(st.alloc + 1)
        st.alloc = r
        if st.written is not None: st.written.add(("a", ""))
        return r

    def e_new(self, st, e):
        t = self.T(e["at"])
        if e.get("array"): raise Unsupported("new[]")
        c = self.cl(t)
        if c == "obj":
            init = e["init"]
            if init is None or init["k"] != "ctor": raise Unsupported("new without ctor")
            return self.construct(st, init, None)
        out = []
        # heap-allocated value object (e.g. new map): its address identifies a cell
        for s2, v in (self.eval(st, e["init"]) if e.get("init") else [(st, self.default(t))]):
            r = self.new_ref(s2)
            f = "cell<%s>" % t.s
            self.heap_sorts[f] = self.sort(t)
            self.store(s2, HeapLV(f, r, self.sort(t)), v)
            out.append((s2, r))
        return out

    # ------------------------------------------------- object construction --
    def construct(self, st, e, ref):
        """run constructor e for identity object `ref` (None: allocate)"""
        t = self.ty(e)
        out = []
        for s2, args in self.eval_args(st, e["args"], e["pt"]):
            r = ref
            if r is None:
                r = self.new_ref(s2)
                isa = self.ufun("dyntype", z3.IntSort(), z3.IntSort())
                self.assume(s2, isa(r) == strlit("type " + t.s))
                for b in [t.s] + self.p.bases(t.s):
                    self.assume(s2, self.ufun("is_" + mangle(b), z3.IntSort(), z3.BoolSort())(r))
            con = self.lookup_contract(e["qn"], len(e["pt"]), e["fn"])
            if con and not con.only_verify and self.use_contract(con):
                for s3, _ in self.apply_contract(s2, con, r, args, e, None): out.append((s3, r))
                continue
            if e.get("copy") and e.get("implicit"):
                src = args[0]
                if isinstance(src, RefBind): src = self.load(s2, src.lv)
                self.copy_obj(s2, t.s, src, r)
                out.append((s2, r))
                continue
            f = self.p.functions.get(e["fn"])
            if f is None or ("body" not in f and not f.get("defaulted")):
                raise Unsupported("no body for constructor " + e["fn"])
            for s3, v in self.inline(s2, f, r, args): out.append((s3, r))
        return out

    def copy_obj(self, st, cname, src, dst):
        c = self.p.classes.get(cname)
        if c is None: raise Unsupported("copy of " + cname)
        for b in c["bases"]:
            if b in self.p.classes: self.copy_obj(st, b, src, dst)
        for f in c["fields"]:
            ft = c["_tt"](f["t"])
            fk = self.field_key(cname, f["n"])
            if self.cl(ft) == "obj":
                self.copy_obj(st, ft.s, self.sub(st, fk, src), self.sub(st, fk, dst))
            elif self.cl(ft) in ("stream", "func", "iter"): pass
            else:
                s = self.sort(ft)
                self.heap_sorts[fk] = s
                self.store(st, HeapLV(fk, dst, s), self.load(st, HeapLV(fk, src, s)))

    def run_ctor_inits(self, st, f, this):
        cur = [st]
        for i in f.get("inits", []):
            nxt = []
            for c in cur:
                e = i["e"]
                if "base" in i:
                    if e is not None and e["k"] == "ctor":
                        if i["base"] not in self.p.classes:
                            nxt.append(c)
                            continue
                        nxt += [s2 for s2, _ in self.construct(c, e, this)]
                    else: nxt.append(c)
                    continue
                if i.get("deleg"):
                    nxt += [s2 for s2, _ in self.construct(c, e, this)]
                    continue
                ft = f["_tt"](i["t"])
                fk = self.field_key(f["cls"], i["f"])
                cl = self.cl(ft)
                if cl == "obj" and ft.k != "r":
                    r = self.sub(c, fk, this)
                    if e is not None and e["k"] == "ctor":
                        nxt += [s2 for s2, _ in self.construct(c, e, r)]
                    else: nxt.append(c)
                    continue
                if cl in ("stream", "func", "iter"):
                    nxt.append(c)
                    continue
                if e is None or (cl == "opaque" and e["k"] == "ctor" and not (ft.k == "c" and ft.n.startswith("boost::random::"))):
                    nxt.append(c)
                    continue
                islv = isinstance(this, LV)
                if islv:
                    bs = self.load(c, this).sort()
                    names = [bs.accessor(0, q).name() for q in range(bs.constructor(0).arity())]
                    tgt = FieldLV(this, names.index("f_" + i["f"]))
                else:
                    self.heap_sorts[fk] = self.sort(ft)
                    tgt = HeapLV(fk, this, self.sort(ft))
                for s2, v in self.eval(c, e):
                    if isinstance(v, RefBind): v = self.load(s2, v.lv)
                    self.store(s2, tgt, self.coerce(v, self.sort(ft)))
                    nxt.append(s2)
            cur = nxt
        return cur

    # -------------------------------------------------------------- calls --
    def eval_args(self, st, args, pts):
        cur = [(st, [])]
        for i, a in enumerate(args):
            pt = self.T(pts[i]) if i < len(pts) else None
            nxt = []
            for s2, vs in cur:
                if pt is not None and pt.k == "r" and self.cl(pt) not in ("obj", "any", "func"):
                    r = self.eval_ref(s2, a)
                else: r = self.eval(s2, a)
                for s3, v in r:
                    if pt is not None and z3.is_expr(v) and self.cl(pt) in ("int", "uint", "real", "bool", "ref", "str"):
                        v = self.coerce(v, self.sort(pt))
                    nxt.append((s3, vs + [v]))
            cur = nxt
        return cur

    def e_call(self, st, e): return self.deref_results(self.call(st, e))

    def e_mcall(self, st, e): return self.deref_results(self.call(st, e))

    def deref_results(self, rs):
        out = []
        for s, v in rs:
            if isinstance(v, RefBind) and not v.ptr: v = self.load(s, v.lv)
            out.append((s, v))
        return out

    def e_ctor(self, st, e):
        t = self.ty(e)
        c = self.cl(t)
        if c == "obj":
            if (e.get("copy") or e.get("move")) and e["args"] and not e["args"][0].get("lv"):
                return self.eval(st, e["args"][0])
            return self.construct(st, e, None)
        from stdmodel import std_ctor
        return std_ctor(self, st, e, t, c)

    def lookup_contract(self, qn, n, key=None):
        only = None
        for c in self.contracts.get(qn, []):
            if c.nparams is not None and c.nparams != n: continue
            if c.sig is not None and (key is None or c.sig not in key): continue
            if not c.only_verify: return c
            only = only or c
        return only

    def call(self, st, e, want_lv=False):
        import stdmodel
        qn = e.get("qn")
        if qn is None:
            # call through a function object
            out = []
            for s2, f in self.eval(st, e["ce"]): raise Unsupported("indirect call")
            return out
        sq = strip_tmpl(qn)
        if qn.startswith("__builtin_"): return stdmodel.std_call(self, st, e, sq, want_lv)
        # contract?
        con = self.lookup_contract(qn, len(e["pt"]), e["fn"])
        isop = "op" in e
        if e["inroot"] or con is not None:
            if sq.startswith("cyclus::Warn") or sq.startswith("cyclus::Logger"):
                return [(st, self.default(self.ty(e)) if self.cl(self.ty(e)) != "void" else None)]
            is_method = "cls" in e and not e.get("static")
            out = []
            if is_method:
                if e["k"] == "mcall":
                    objs = self.eval_obj(st, e["obj"], e.get("arrow", False))
                    rest = e["args"]
                else:
                    objs = self.eval_obj(st, e["args"][0], False)
                    rest = e["args"][1:]
            else:
                objs = [(st, None)]
                rest = e["args"]
            for s2, obj in objs:
                if is_method and z3.is_expr(obj) and obj.sort() == z3.IntSort():
                    self.safety(s2, "null", obj != 0, e.get("l"))
                for s3, args in self.eval_args(s2, rest, e["pt"]):
                    out += self.invoke(s3, e, con, obj, args)
            return out
        return stdmodel.std_call(self, st, e, sq, want_lv)

    def invoke(self, st, e, con, obj, args):
        if con is not None and not con.only_verify and self.use_contract(con):
            return self.apply_contract(st, con, obj, args, e, None)
        f = self.p.functions.get(e["fn"])
        if e.get("virt") and not e.get("qual"):
            # dynamic dispatch: resolved by the static type of the receiver
            st_cls = self.static_recv(e)
            if st_cls and st_cls != e["cls"]:
                g = self.find_override(st_cls, e)
                if g is not None:
                    con2 = self.lookup_contract(g["qn"], len(g["params"]), g["key"])
                    if con2 is not None and not con2.only_verify and self.use_contract(con2):
                        return self.apply_contract(st, con2, obj, args, e, None)
                    f = g
        if f is None or "body" not in f:
            # implicit copy assignment of identity objects etc.
            raise Unsupported("no body or contract for " + e["fn"])
        return self.inline(st, f, obj, args)

    def use_contract(self, con):
        """proof mode: callers see only contracts; exact mode: real bodies"""
        return self.mode == "inv" or con.assumed

    def static_recv(self, e):
        if e["k"] != "mcall": return None
        o = e["obj"]
        while o["k"] == "cast" and o["ck"] in ("DerivedToBase", "UncheckedDerivedToBase", "NoOp"): o = o["e"]
        t = self.ty(o)
        if t.k == "p": t = t.to
        return t.s

    def find_override(self, cls, e):
        name = e["fn"].rsplit("::", 1)
        base = e["cls"]
        suffix = e["fn"][len(base):]
        for c in [cls] + self.p.bases(cls):
            g = self.p.functions.get(c + suffix)
            if g is not None: return g
        return None

    def inline(self, st, f, this, args):
        if len(self.callstack) > self.cfg.inline_limit: raise Unsupported("inline depth: " + f["qn"])
        if f["key"] in [g["key"] for g in self.callstack] + [self.fn["key"]]:
            raise Unsupported("recursion: " + f["qn"])
        self.inlined.add(f["key"])
        saved_locals = st.locals
        saved_rt = self.cur_rt
        st.locals = {}
        if this is not None:
            if isinstance(this, LV):
                st.locals["this"] = RefBind(this, True)
            elif z3.is_expr(this) and this.sort() != z3.IntSort():
                st.locals["this"] = RefBind(TempLV(this), True)
            else: st.locals["this"] = this
        # locals of the caller may be referenced through RefBind(LocalLV): keep them visible
        frame = dict(saved_locals)
        frame.pop("this", None)
        st.locals = {**frame, **st.locals}
        for p, a in zip(f["params"], args):
            st.locals[p["id"] if False else (f["key"], p["id"])] = a
        out = []
        self.callstack.append(f)
        self.cur_rt = f["rt"]
        # decl ids are per TU: rebind parameters under this function's ids
        for p, a in zip(f["params"], args):
            st.locals.pop((f["key"], p["id"]), None)
            st.locals[p["id"]] = a
            self.var_names[p["id"]] = p["n"]
            self.var_types[p["id"]] = f["_tt"](p["t"])
            if st.written is not None: st.written.add(("l", p["id"]))
        try:
            mine_throw = self.throws
            self.throws = []
            starts = [st]
            if f.get("isctor"): starts = self.run_ctor_inits(st, f, this)
            for s0 in starts:
                rs = self.exec(s0, f["body"]) if "body" in f else [(s0, "next", None)]
                for s2, k, v in rs:
                    if k == "next": v = None
                    elif k != "ret": raise Unsupported("stray " + k)
                    out.append((s2, v))
            thr, self.throws = self.throws, mine_throw
        finally:
            self.callstack.pop()
            self.cur_rt = saved_rt
        res = []
        keys = set(saved_locals)
        for s2, v in out:
            self.restore(s2, saved_locals)
            res.append((s2, v))
        for s2, ex in thr:
            self.restore(s2, saved_locals)
            self.throws.append((s2, ex))
        return res

    def inline_struct_ctor(self, st, f, lv, args, t):
        keep = lv.i
        val = st.locals[keep]
        return [(s2, None) for s2, _ in self.inline(st, f, lv, args)]

    def restore(self, st, saved):
        cur = st.locals
        loc = {}
        for k, v in saved.items():
            loc[k] = v if k == "this" else cur.get(k, v)
        st.locals = loc

    # ------------------------------------------------- applying contracts --
    def apply_contract(self, st, con, this, args, e, _):
        self.used_contracts.add(con.qn + ("" if con.nparams is None else "/%d" % con.nparams))
        if con.assumed: self.assumed.add(con.qn)
        pre = st.copy()
        if not con.exact: st.exact = False
        c = CallCtx(self, con, pre, st, this, args, None, e, calling=True)
        reqs = con.get_requires(c)
        for f in c._facts: self.assume(st, f)
        if not self.dry:
            for name, g in reqs:
                self.oblige(st, "precondition", "%s/calls/%s/pre/%s" % (short(self.fn["qn"]), short(con.qn), name), g,
                            e.get("l") if e else None)
        for name, g in reqs: self.assume(st, g)
        # exceptional outcomes
        normal = [st]
        for ex in con.get_throws(c):
            nxt = []
            for s in normal:
                if ex.must: branches = self.split(s, ex.when)
                else:  # may or may not throw when the condition holds
                    branches = [(s3, b3) for s3, b3 in self.split(s, z3.And(ex.when, self.fresh("mayThrow", z3.BoolSort())))]
                for s2, b in branches:
                    if b:
                        self.havoc_mods(s2, pre, con, c, ex.modifies)
                        ce = CallCtx(self, con, pre, s2, this, args, None, e, calling=True)
                        for name, g in (ex.ensures(ce) if ex.ensures else []): self.assume(s2, g)
                        for f in ce._facts: self.assume(s2, f)
                        self.throw(s2, Exc(ex.cls, e.get("l") if e else None))
                    else:
                        nxt.append(s2)
            normal = nxt
        out = []
        for s in normal:
            if con.allocs:
                old = s.alloc
                s.alloc = self.fresh("alloc", z3.IntSort())
                self.assume(s, s.alloc >= old)
                if s.written is not None: s.written.add(("a", ""))
            c2 = CallCtx(self, con, pre, s, this, args, None, e, calling=True)
            self.havoc_mods(s, pre, con, c2, None)
            c2.ret = con.make_ret(c2)
            for name, g in con.get_ensures(c2): self.assume(s, g)
            for f in c2._facts: self.assume(s, f)
            out.append((s, c2.ret))
        return out

    def havoc_mods(self, s, pre, con, c, only):
        mods = con.get_modifies(c) if only is None else only(c)
        for m in mods:
            if m.kind == "field":
                sort = m.sort or self.field_sort(m.f)
                self.heap_sorts[m.f] = sort
                old = self.heap_arr(s, m.f, sort)
                if s.written is not None: s.written.add(("h", m.f))
                if m.refs is None:
                    s.heap[m.f] = self.fresh("m_" + m.f, old.sort())
                    if con.allocs and m.only_fresh:
                        r = z3.Int("r!q")
                        self.assume(s, z3.ForAll([r], z3.Implies(self.old_ref(r, pre.alloc),
                                                                 z3.Select(s.heap[m.f], r) == z3.Select(old, r)),
                                                 patterns=[z3.Select(s.heap[m.f], r)]))
                elif con.allocs:
                    new = self.fresh("m_" + m.f, old.sort())
                    r = z3.Int("r!q")
                    self.assume(s, z3.ForAll([r], z3.Implies(
                        z3.And(self.old_ref(r, pre.alloc), *[r != x for x in m.refs]),
                        z3.Select(new, r) == z3.Select(old, r)), patterns=[z3.Select(new, r)]))
                    s.heap[m.f] = new
                else:
                    a = old
                    for x in m.refs: a = z3.Store(a, x, self.fresh("m_" + m.f, sort))
                    s.heap[m.f] = a
            elif m.kind == "global":
                old = self.glob_val(s, m.f, m.sort)
                if s.written is not None: s.written.add(("g", m.f))
                s.glob[m.f] = self.fresh("m_" + m.f, m.sort)
            elif m.kind == "lv":
                old = self.load(s, m.lv)
                nv = self.fresh("m_arg", old.sort())
                self.store(s, m.lv, nv)
                if m.ty is not None: self.wf(s, nv, m.ty)

    def field_sort(self, f):
        if f in GHOST_FIELDS: return GHOST_FIELDS[f]
        if f in self.heap_sorts: return self.heap_sorts[f]
        cls, n = f.rsplit("::", 1)
        c = self.p.classes.get(cls)
        if c is None: raise Unsupported("unknown class %s" % cls)
        for x in c["fields"]:
            if x["n"] == n:
                s = self.sort(c["_tt"](x["t"]))
                self.heap_sorts[f] = s
                return s
        raise Unsupported("unknown field " + f)

    def field_type(self, f):
        cls, n = f.rsplit("::", 1)
        c = self.p.classes.get(cls)
        if c is None: return None
        for x in c["fields"]:
            if x["n"] == n: return c["_tt"](x["t"])
        return None

    # ----------------------------------------------------------- iterators --
    def enum_fn(self, D):
        ks = D.sort().domain()
        return (self.ufun("keyAt_" + mangle(ks), D.sort(), z3.IntSort(), ks),
                self.ufun("keyIdx_" + mangle(ks), D.sort(), ks, z3.IntSort()))

    def enum_facts(self, st, D, n):
        """D enumerated as keyAt(D,0..n-1), a bijection"""
        keyAt, idx = self.enum_fn(D)
        i = z3.Int("i!e")
        k = z3.Const("k!e", D.sort().domain())
        self.assume(st, n >= 0)
        self.assume(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n),
                                                  z3.And(z3.Select(D, keyAt(D, i)), idx(D, keyAt(D, i)) == i)),
                                  patterns=[keyAt(D, i)]))
        self.assume(st, z3.ForAll([k], z3.Implies(z3.Select(D, k),
                                                  z3.And(0 <= idx(D, k), idx(D, k) < n, keyAt(D, idx(D, k)) == k)),
                                  patterns=[z3.Select(D, k)]))
        if D.sort().domain() == z3.IntSort():
            j = z3.Int("j!e")
            self.assume(st, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), keyAt(D, i) < keyAt(D, j)),
                                      patterns=[z3.MultiPattern(keyAt(D, i), keyAt(D, j))]))

    def begin(self, st, lv, t):
        if t.k == "r": t = t.to
        c = self.cl(t)
        b = self.load(st, lv)
        s = b.sort()
        if c == "seq" or c == "carray": return Iter("seq", lv, idx=z3.simplify(s.lo(b)))
        if c in ("map", "set"):
            D0 = z3.simplify(s.dom(b))
            n0 = z3.simplify(s.size(b))
            if z3.is_const(D0) and D0.decl().kind() == z3.Z3_OP_UNINTERPRETED: D = D0
            else:
                D = self.fresh("D", D0.sort())
                self.assume(st, D == D0)
            n = n0
            self.enum_facts(st, D, n)
            if c == "map":
                V = z3.simplify(s.val(b))
                if V.sort().range() == z3.RealSort(): self.assume(st, self.msum(D, V) == self.psum(st, D, V, n))
            return Iter("map", lv, idx=z3.IntVal(0), D=D, n=n)
        raise Unsupported("begin on " + t.s)

    def end(self, st, lv, t):
        if t.k == "r": t = t.to
        c = self.cl(t)
        b = self.load(st, lv)
        s = b.sort()
        if c in ("seq", "carray"): return Iter("seq", lv, idx=z3.simplify(s.hi(b)))
        return Iter("end", lv)

    def iter_eq(self, st, a, b):
        if a is None or b is None: raise Unsupported("uninitialised iterator")
        if a.kind == "end" and b.kind != "end": a, b = b, a
        if a.kind == "seq" and b.kind == "seq": return z3.simplify(a.idx == b.idx)
        if a.kind == "map" and b.kind == "end":
            # stability: the enumeration taken at begin() is still the order ahead
            cur = self.load(st, a.lv)
            D1 = z3.simplify(cur.sort().dom(cur))
            if not z3.eq(D1, z3.simplify(a.D)) and not self.dry:
                keyAt, idx = self.enum_fn(a.D)
                j = z3.Int("j!s")
                k = z3.Const("k!s", a.D.sort().domain())
                cond = z3.And(z3.ForAll([j], z3.Implies(z3.And(a.idx <= j, j < a.n), z3.Select(D1, keyAt(a.D, j)))),
                              z3.ForAll([k], z3.Implies(z3.Select(D1, k), z3.Select(a.D, k))))
                if self.check(st.pc, [z3.Not(cond)], 3000) != z3.unsat:
                    raise Unsupported("map modified during iteration")
            return z3.simplify(a.idx == a.n)
        if a.kind == "key" and b.kind == "end": return z3.simplify(z3.Not(a.ok))
        if a.kind == "end" and b.kind == "end": return z3.BoolVal(True)
        if a.kind == "map" and b.kind == "map": return z3.simplify(a.idx == b.idx)
        raise Unsupported("iterator comparison")

    def iter_inc(self, st, local, d=1):
        it = st.locals[local]
        if it.kind not in ("seq", "map"): raise Unsupported("increment of iterator")
        if st.written is not None: st.written.add(("l", local))
        st.locals[local] = it.at(z3.simplify(it.idx + d))

    def iter_deref(self, st, it, t=None):
        if it.kind == "seq":
            b = self.load(st, it.lv)
            s = b.sort()
            self.safety(st, "iter", z3.And(s.lo(b) <= it.idx, it.idx < s.hi(b)), None)
            return ElemLV(it.lv, s.lo(b) + s.hi(b) - 1 - it.idx if it.rev else it.idx)
        if it.kind == "map":
            self.safety(st, "iter", z3.And(0 <= it.idx, it.idx < it.n), None)
            keyAt, _ = self.enum_fn(it.D)
            key = keyAt(it.D, it.n - 1 - it.idx if it.rev else it.idx)
        elif it.kind == "key":
            self.safety(st, "iter", it.ok, None)
            key = it.key
        else: raise Unsupported("deref of end iterator")
        b = self.load(st, it.lv)
        if "val" in [b.sort().accessor(0, i).name() for i in range(b.sort().constructor(0).arity())]:
            return MapElem(it.lv, key)
        return TempLV(key)  # set element

    def melem_val(self, st, el, t):
        b = self.load(st, el.lv)
        v = z3.Select(b.sort().val(b), el.key)
        ps = PairSort(el.key.sort(), v.sort())
        return ps.mk(el.key, v)

    # --------------------------------------------------------- map sums ---
    # MSUM(D,V) = sum of V over the finite key set D; PSUM(D,V,i) = sum over the
    # first i keys of D's enumeration.  Facts are instances of their definitions.
    def msum(self, D, V):
        return self.ufun("MSUM_" + mangle(D.sort().domain()), D.sort(), V.sort(), z3.RealSort())(D, V)

    def msum_of(self, b): return self.msum(b.sort().dom(b), b.sort().val(b))

    def psum(self, st, D, V, i):
        f = self.ufun("PSUM_" + mangle(D.sort().domain()), D.sort(), V.sort(), z3.IntSort(), z3.RealSort())
        keyAt, _ = self.enum_fn(D)
        i = h = z3.simplify(i)
        for _ in range(1 if self.mode == "inv" else self.cfg.unroll + 1):
            h1 = z3.simplify(h - 1)
            self.assume(st, z3.Implies(h <= 0, f(D, V, h) == 0),
                        z3.Implies(h > 0, f(D, V, h) == f(D, V, h1) + z3.Select(V, keyAt(D, h1))))
            h = h1
        return f(D, V, i)

    def named(self, ctx, x):
        """a name for x (so that it can stand in a pattern)"""
        x = z3.simplify(x)
        if z3.is_const(x): return x
        if x.get_id() not in self.names: self.names[x.get_id()] = (self.fresh("nm", x.sort()), x)
        n = self.names[x.get_id()][0]
        ctx.fact(n == x)
        return n

    def ssum(self, st, arr, lo, hi):
        """sum of a real array over [lo,hi)"""
        f = self.ufun("SSUM", arr.sort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        h = hi
        for _ in range(1 if self.mode == "inv" else self.cfg.unroll + 1):
            h1 = z3.simplify(h - 1)
            self.assume(st, z3.Implies(h <= lo, f(arr, lo, h) == 0),
                        z3.Implies(h > lo, f(arr, lo, h) == f(arr, lo, h1) + z3.Select(arr, h1)))
            h = h1
        return f(arr, lo, hi)

    def ssum_of(self, st, b):
        s = b.sort()
        return self.ssum(st, z3.simplify(s.arr(b)), s.lo(b), s.hi(b))

    def permute(self, st, arr, lo, hi):
        """a fresh array that is a permutation of arr on [lo,hi), equal elsewhere"""
        new = self.fresh("perm", arr.sort())
        n = self.fresh_n
        p = self.ufun("p!%d" % n, z3.IntSort(), z3.IntSort())
        q = self.ufun("q!%d" % n, z3.IntSort(), z3.IntSort())
        j = z3.Int("j!p")
        rng = z3.And(lo <= j, j < hi)
        self.assume(st, z3.ForAll([j], z3.Implies(rng, z3.And(lo <= p(j), p(j) < hi, q(p(j)) == j, z3.Select(new, j) == z3.Select(arr, p(j)))),
                                  patterns=[z3.Select(new, j)]),
                    z3.ForAll([j], z3.Implies(rng, z3.And(lo <= q(j), q(j) < hi, p(q(j)) == j, z3.Select(new, q(j)) == z3.Select(arr, j))),
                              patterns=[z3.Select(arr, j)]),
                    z3.ForAll([j], z3.Implies(z3.Not(rng), z3.Select(new, j) == z3.Select(arr, j)), patterns=[z3.Select(new, j)]))
        if arr.sort().range() == z3.RealSort():
            self.assume(st, self.ssum(st, new, lo, hi) == self.ssum(st, arr, lo, hi))
        return new, p, q

    def algo_sort(self, st, e, args):
        import stdmodel
        out = []
        for s2, vs in stdmodel.evals(self, st, args):
            a, b = vs[0], vs[1]
            if not isinstance(a, Iter) or a.kind != "seq": raise Unsupported("sort")
            cur = self.load(s2, a.lv)
            s = cur.sort()
            arr = z3.simplify(s.arr(cur))
            new, p, q = self.permute(s2, arr, a.idx, b.idx)
            es = arr.sort().range()
            if len(vs) == 2 and es in (z3.RealSort(), z3.IntSort()):
                i, j = z3.Ints("i!so j!so")
                self.assume(s2, z3.ForAll([i, j], z3.Implies(z3.And(a.idx <= i, i < j, j < b.idx), z3.Select(new, i) <= z3.Select(new, j))))
            self.store(s2, a.lv, s.mk(s.lo(cur), s.hi(cur), new))
            out.append((s2, None))
        return out

    algo_stable_sort = algo_sort

    def algo_find(self, st, e, args):
        import stdmodel
        out = []
        for s2, vs in stdmodel.evals(self, st, args):
            a, b, x = vs[0], vs[1], vs[2]
            if not isinstance(a, Iter): raise Unsupported("find")
            cur = self.load(s2, a.lv)
            s = cur.sort()
            if a.kind == "seq":
                r = self.fresh("found", z3.IntSort())
                j = z3.Int("j!fd")
                arr = s.arr(cur)
                self.assume(s2, a.idx <= r, r <= b.idx, z3.Implies(r < b.idx, z3.Select(arr, r) == x), z3.ForAll([j], z3.Implies(z3.And(a.idx <= j, j < r), z3.Select(arr, j) != x)))
                out.append((s2, Iter("seq", a.lv, idx=r)))
            elif a.kind == "map" and b.kind == "end" and z3.is_int_value(a.idx) and a.idx.as_long() == 0 and not hasattr(s, "val"):
                out.append((s2, Iter("key", a.lv, key=x, ok=z3.Select(s.dom(cur), x))))
            else: raise Unsupported("find")
        return out

    def algo_remove(self, st, e, args):
        """std::remove: stated for values that occur at most once in the range (anything may result otherwise)"""
        import stdmodel
        out = []
        for s2, vs in stdmodel.evals(self, st, args):
            a, b, x = vs[0], vs[1], vs[2]
            if not isinstance(a, Iter) or a.kind != "seq": raise Unsupported("remove")
            cur = self.load(s2, a.lv)
            s = cur.sort()
            arr = self.fresh("rm0", s.arr(cur).sort())
            new = self.fresh("rm", arr.sort())
            hi = self.fresh("rmhi", z3.IntSort())
            p, i, j = z3.Ints("p!rm i!rm j!rm")
            inr = lambda k: z3.And(a.idx <= k, k < b.idx)
            self.assume(s2, arr == s.arr(cur), a.idx <= hi, hi <= b.idx,
                        z3.Implies(z3.ForAll([i], z3.Implies(inr(i), z3.Select(arr, i) != x)), z3.And(hi == b.idx, new == arr)),
                        z3.ForAll([p], z3.Implies(z3.And(inr(p), z3.Select(arr, p) == x, z3.ForAll([i], z3.Implies(z3.And(inr(i), i != p), z3.Select(arr, i) != x))),
                            z3.And(hi == b.idx - 1, z3.ForAll([j], z3.Implies(z3.And(a.idx <= j, j < hi), z3.Select(new, j) == z3.Select(arr, z3.If(j < p, j, j + 1))), patterns=[z3.Select(new, j)]))), patterns=[z3.Select(arr, p)]),
                        z3.ForAll([j], z3.Implies(z3.Not(inr(j)), z3.Select(new, j) == z3.Select(arr, j)), patterns=[z3.Select(new, j)]))
            self.store(s2, a.lv, s.mk(s.lo(cur), s.hi(cur), new))
            out.append((s2, Iter("seq", a.lv, idx=hi)))
        return out

    def algo_bind(self, st, e, args):
        """std::bind: the bound arguments, placeholders kept symbolic"""
        out = [(st, [])]
        for a in args:
            m = re.match(r"(?:const )?(?:struct )?std::_Placeholder<(\d+)>", self.ty(a).s)
            if m: out = [(s2, vs + [Placeholder(int(m.group(1)))]) for s2, vs in out]
            else: out = [(s3, vs + [x]) for s2, vs in out for s3, x in self.eval(s2, a)]
        return [(s2, Bind(vs[0], vs[1:])) for s2, vs in out]

    def call_value(self, st, f, args):
        """call a function object with these argument values"""
        if isinstance(f, Bind):
            args = [args[x.n - 1] if isinstance(x, Placeholder) else x for x in f.args]
            f = f.fn
        if not isinstance(f, FnRef): raise Unsupported("call of a function object")
        n = f.node
        con = self.lookup_contract(n["qn"], len(n["pt"]), n["fn"])
        obj = None
        if "cls" in n and not n.get("static"):
            obj, args = args[0], args[1:]
            self.safety(st, "null", obj != 0, n.get("l"))
        e = {"k": "mcall", "fn": n["fn"], "qn": n["qn"], "pt": n["pt"], "args": [], "t": n["t"], "l": n.get("l"), "cls": n.get("cls"), "qual": True}
        return self.invoke(st, e, con, obj, args)

    def algo_for_each(self, st, e, args):
        outs = []
        iid = ("for_each", id(e))
        self.var_names[iid] = "__it"
        for s0, a in self.eval(st, args[0]):
            for s1, b in self.eval(s0, args[1]):
                for s2, f in self.eval(s1, args[2]):
                    if not isinstance(a, Iter): raise Unsupported("for_each")
                    s2.locals[iid] = a
                    if s2.written is not None: s2.written.add(("l", iid))

                    def cond(c): return self.split(c, z3.Not(self.iter_eq(c, c.locals[iid], b)))

                    def inc(c):
                        self.iter_inc(c, iid)
                        return [c]

                    def body(c):
                        el = self.iter_deref(c, c.locals[iid])
                        x = self.load(c, el) if isinstance(el, LV) else self.melem_val(c, el, None)
                        return [(s, "next", None) for s, _ in self.call_value(c, f, [x])]
                    outs += [(s, None) for s, k, _ in self.loop(s2, e, cond, body, inc)]
        return outs

    def algo_min_element(self, st, e, args, mx=False):
        import stdmodel
        if len(args) != 2: raise Unsupported("min_element with a comparison")
        out = []
        for s2, (a, b) in stdmodel.evals(self, st, args):
            if not isinstance(a, Iter) or a.kind != "seq": raise Unsupported("min_element")
            cur = self.load(s2, a.lv)
            arr = z3.simplify(cur.sort().arr(cur))
            if arr.sort().range() not in (z3.RealSort(), z3.IntSort()): raise Unsupported("min_element")
            i = self.fresh("ext", z3.IntSort())
            j = z3.Int("j!mn")
            nm = self.fresh("nm", arr.sort())
            le = (lambda x, y: x >= y) if mx else (lambda x, y: x <= y)
            self.assume(s2, nm == arr, z3.If(a.idx < b.idx, z3.And(a.idx <= i, i < b.idx), i == b.idx),
                        z3.ForAll([j], z3.Implies(z3.And(a.idx <= j, j < b.idx), le(z3.Select(nm, i), z3.Select(nm, j))), patterns=[z3.Select(nm, j)]))
            out.append((s2, a.at(i)))
        return out

    def algo_max_element(self, st, e, args): return self.algo_min_element(st, e, args, True)

    def algo_float_distance(self, st, e, args):
        """representable doubles between two values; doubles being reals here, different values are far apart"""
        import stdmodel
        out = []
        for s2, (a, b) in stdmodel.evals(self, st, args):
            f = self.ufun("float_distance", z3.RealSort(), z3.RealSort(), z3.RealSort())
            a, b = self.coerce(a, z3.RealSort()), self.coerce(b, z3.RealSort())
            d = f(a, b)
            self.assume(s2, (d == 0) == (a == b), z3.Implies(a < b, d >= 1000), z3.Implies(a > b, d <= -1000))
            out.append((s2, d))
        return out

    def msum_step(self, st, D, V, D2, V2, k):
        """(D2,V2) differs from (D,V) at most at key k"""
        if V.sort().range() != z3.RealSort(): return
        z = z3.RealVal(0)
        self.assume(st, self.msum(D2, V2) == self.msum(D, V) - z3.If(z3.Select(D, k), z3.Select(V, k), z) +
                    z3.If(z3.Select(D2, k), z3.Select(V2, k), z))

    # ------------------------------------------------------------- sums ---
    def sum_term(self, f, lo, hi):
        """SUM_{lo<=j<hi} f(j); f: python function z3 Int -> Real"""
        S = None
        j0 = z3.Int("j!sum")
        body = z3.simplify(f(j0))
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        for (f2, b2, l2, h2, t2) in self.sums:
            if z3.eq(b2, body) and z3.eq(l2, lo) and z3.eq(h2, hi): return t2
        self.fresh_n += 1
        t = z3.Const("SUM!%d" % self.fresh_n, z3.RealSort())
        self.sums.append((f, body, lo, hi, t))
        return t

    def sum_lemmas(self, terms=None):
        """instances of the (inductively proved) summation lemmas for all sum
        terms; only those whose terms occur in the query are returned"""
        out = []
        for (f, b, l, h, t) in self.sums:
            if terms is not None and t not in terms: continue
            out.append(z3.Implies(l >= h, t == 0))
            out.append(z3.Implies(h == l + 1, t == f(l)))
            if getattr(self, "const_sums", False):
                j = self.fresh("jc", z3.IntSort())
                out.append(z3.Implies(z3.And(l <= h, z3.ForAll([j], z3.Implies(z3.And(l <= j, j < h), f(j) == f(l)))), t == z3.ToReal(h - l) * f(l)))
        def agree(f1, f2, l, h, d=0):
            j = self.fresh("ja", z3.IntSort())
            return z3.ForAll([j], z3.Implies(z3.And(l <= j, j < h), f1(j) == f2(j + d)))
        L = [x for x in self.sums if terms is None or x[4] in terms]
        for x, y in itertools.permutations(L, 2):
            f1, b1, l1, h1, t1 = x
            f2, b2, l2, h2, t2 = y
            same = z3.eq(b1, b2)
            ag = (lambda l, h, d=0: z3.BoolVal(True)) if same else (lambda l, h, d=0: agree(f1, f2, l, h))
            if L.index(x) < L.index(y):
                out.append(z3.Implies(z3.And(l1 == l2, h1 == h2, ag(l1, h1)), t1 == t2))
            # y extends x by one at the end
            out.append(z3.Implies(z3.And(l1 == l2, h2 == h1 + 1, l1 <= h1, ag(l1, h1)), t2 == t1 + f2(h1)))
            # y extends x by one at the front
            out.append(z3.Implies(z3.And(h1 == h2, l2 == l1 - 1, l1 <= h1, ag(l1, h1)), t2 == t1 + f2(l2)))
        return out

    def sum_expand(self, bound):
        out = []
        for (f, b, l, h, t) in self.sums:
            acc = z3.RealVal(0)
            d = h - l
            expr = acc
            # exact mode looks for small counterexamples only
            cases = [z3.Implies(d <= 0, t == 0), d <= bound + 1]
            self.hit_bound = True
            for n in range(1, bound + 2):
                acc = acc + f(l + (n - 1))
                cases.append(z3.Implies(d == n, t == acc))
            out += cases
        return out


def strip_decay(e):
    while e["k"] == "cast" and e["ck"] in ("ArrayToPointerDecay", "NoOp"): e = e["e"]
    return e


def short(qn):
    return qn.replace("cyclus::toolkit::", "").replace("cyclus::", "")


class LoopCtx:
    """what a loop invariant may talk about"""
    def __init__(self, v, st, entry, inv, written=()):
        self.v, self.st, self.entry, self.inv = v, st, entry, inv
        self.written = written
        self.c = v.top_ctx
        self.S = StateView(v, st)
        self.E = StateView(v, entry)
        self._facts = []

    def facts(self, st):
        for f in self._facts: v = self.v.assume(st, f)

    def fact(self, *fs): self._facts += fs

    # Variables are found by role, not by name: the loop position is the
    # iterator / counter the loop advances, an accumulator is the written local
    # of the given sort (a name is only a tie-breaker).
    def _cands(self, pred):
        out = []
        for w in self.written:
            if w[0] != "l" or w[1] not in self.entry.locals: continue
            x = self.entry.locals[w[1]]
            if isinstance(x, RefBind):
                try: x = self.v.load(self.entry, x.lv)
                except Unsupported: continue
            if pred(x): out.append(w[1])
        return out

    def _get(self, st, i):
        x = st.locals[i]
        if isinstance(x, RefBind): x = self.v.load(st, x.lv)
        return x

    def _pick(self, role, ids, names):
        if len(ids) == 1: return ids[0]
        for n in names:
            m = [i for i in ids if self.v.var_names.get(i) == n]
            if len(m) == 1: return m[0]
        raise RoleMissing(role)

    def pos_id(self, *names):
        its = self._cands(lambda x: isinstance(x, Iter))
        if its: return self._pick("position", its, names + ("__it",))
        ints = self._cands(lambda x: z3.is_expr(x) and x.sort() == z3.IntSort())
        return self._pick("position", ints, names)

    def pos(self, *names):
        """0-based position in the traversed range"""
        i = self.pos_id(*names)
        x = self._get(self.st, i)
        if isinstance(x, Iter):
            if x.kind == "seq":
                e = self.v.load(self.entry, x.lv)
                return z3.simplify(x.idx - e.sort().lo(e))
            return x.idx
        return x

    def acc(self, sort, *names):
        i = self._acc_id(sort, names)
        return self._get(self.st, i)

    def acc0(self, sort, *names):
        return self._get(self.entry, self._acc_id(sort, names))

    def _acc_id(self, sort, names):
        ids = self._cands(lambda x: z3.is_expr(x) and x.sort() == sort)
        if sort == z3.IntSort() and len(ids) > 1:
            try:
                p = self.pos_id()
                ids = [i for i in ids if i != p]
            except RoleMissing: pass
        return self._pick("accumulator", ids, names)

    def var(self, *names): return self._var(self.st, names)

    def var0(self, *names): return self._var(self.entry, names)

    def _var(self, st, names):
        for n in names:
            ids = [i for i in st.locals if self.v.var_names.get(i) == n]
            if ids: return self._get(st, ids[-1])
        raise RoleMissing(names[0])

    def enum(self, lv_or_iter):
        pass

    @property
    def it(self):
        i = self.pos_id()
        return self._get(self.st, i)

    def sum(self, f, lo, hi): return self.v.sum_term(f, lo, hi)


class RoleMissing(Unsupported):
    pass


class StateView:
    """read access to a symbolic state for contracts"""
    def __init__(self, v, st):
        self.v, self.st = v, st

    def f(self, field, ref):
        s = self.v.field_sort(field)
        r = z3.simplify(z3.Select(self.v.heap_arr(self.st, field, s), ref))
        return r

    def fw(self, field, ref):
        r = self.f(field, ref)
        t = self.v.field_type(field)
        if t is not None: self.v.wf(self.st, r, t)
        return r

    def arr(self, field, sort=None):
        return self.v.heap_arr(self.st, field, sort if sort is not None else self.v.field_sort(field))

    def g(self, name, sort): return self.v.glob_val(self.st, name, sort)

    def sub(self, field, ref): return self.v.sub(self.st, field, ref)

    @property
    def alloc(self): return self.st.alloc

    def load(self, lv): return self.v.load(self.st, lv)


class Mod:
    def __init__(self, kind, f=None, refs=None, sort=None, lv=None, ty=None, only_fresh=False):
        self.kind, self.f, self.refs, self.sort, self.lv, self.ty, self.only_fresh = kind, f, refs, sort, lv, ty, only_fresh


class Throws:
    def __init__(self, cls, when, ensures=None, modifies=lambda c: [], must=True, label=None):
        self.cls, self.when, self.ensures, self.modifies, self.must, self.label = cls, when, ensures, modifies, must, label


class CallCtx:
    """the view a contract has of one call: pre/post states, this, args, ret"""
    def __init__(self, v, con, pre, post, this, args, ret, e, calling):
        self.v, self.con, self.st_pre, self.st_post = v, con, pre, post
        self.this, self.args, self.ret, self.e, self.calling = this, args, ret, e, calling
        self.old = StateView(v, pre)
        self.new = StateView(v, post)
        self._facts = []

    def arg(self, i):
        a = self.args[i]
        if isinstance(a, RefBind): return self.v.load(self.st_pre, a.lv)
        return a

    def arg_new(self, i):
        a = self.args[i]
        if isinstance(a, RefBind): return self.v.load(self.st_post, a.lv)
        return a

    def lv(self, i):
        a = self.args[i]
        if not isinstance(a, RefBind): return TempLV(a)
        return a.lv

    def this_val(self, new=False):
        t = self.this
        st = self.st_post if new else self.st_pre
        if isinstance(t, LV): return self.v.load(st, t)
        if isinstance(t, RefBind): return self.v.load(st, t.lv)
        return t

    def fact(self, *fs): self._facts += fs

    def sum(self, f, lo, hi): return self.v.sum_term(f, lo, hi)

    def field(self, f, refs=None, only_fresh=False): return Mod("field", f, refs, None, only_fresh=only_fresh)

    def glob(self, n, sort): return Mod("global", n, sort=sort)

    def mod_arg(self, i, ty=None): return Mod("lv", lv=self.lv(i), ty=ty)


class Inv:
    def __init__(self, fn, facts=None): self.fn = fn

    def get(self, L): return self.fn(L)


class FramedInv(Inv):
    """a loop invariant together with the function's own frame: what the
    modifies clause does not name is, at every iteration, as it was on entry"""
    def __init__(self, inv, v, written):
        self.fn = inv.fn
        self.frames = []
        con, top = v.contract, getattr(v, "top_ctx", None)
        if top is None or not con.frame: return
        anyf, refs = set(), {}
        for m in con.get_modifies(top):
            if m.kind != "field": continue
            if m.refs is None and not m.only_fresh: anyf.add(m.f)
            else: refs.setdefault(m.f, []).extend(m.refs or [])
        for kind, f in sorted(written, key=str):
            if kind == "h" and f not in anyf: self.frames.append((f, refs.get(f, [])))

    def get(self, L):
        out = self.fn(L)
        v = L.v
        pre = v.top_ctx.st_pre if self.frames else None
        for f, refs in self.frames:
            if f not in L.st.heap: continue
            new = L.st.heap[f]
            old = v.heap_arr(pre, f, new.sort().range())
            if z3.eq(new, old): continue
            new = v.named(L, new)
            r = z3.Int("r!fr")
            out.append(("frame/" + short(f), z3.ForAll([r], z3.Implies(
                z3.And(v.old_ref(r, pre.alloc), *[r != x for x in refs]), z3.Select(new, r) == z3.Select(old, r)),
                patterns=[z3.Select(new, r)])))
        return out


class Contract:
    def __init__(self, qn, nparams=None, sig=None, requires=None, ensures=None, throws=None, modifies=None,
                 ret=None, loops=None, allocs=False, assumed=False, no_safety=(), only_verify=False, prop=None,
                 may_throw_any=False, doc="", roles=None, recv=None, frame=True, exact=False, cases=None,
                 modes=None, budget=None, unroll=None):
        self.modes, self.budget, self.unroll = modes, budget, unroll
        self.qn, self.nparams, self.sig = qn, nparams, sig
        self._requires, self._ensures, self._throws, self._modifies = requires, ensures, throws, modifies
        self._ret = ret
        self.loops = {k: Inv(f) for k, f in (loops or {}).items()}
        self.allocs, self.assumed, self.no_safety, self.only_verify = allocs, assumed, set(no_safety), only_verify
        self.prop = prop
        self.may_throw_any = may_throw_any
        self.doc = doc
        self.roles = roles or {}
        self.frame = frame
        self.recv = recv
        self.exact = exact
        self.cases = cases

    def get_requires(self, c): return self._requires(c) if self._requires else []

    def get_ensures(self, c): return self._ensures(c) if self._ensures else []

    def get_throws(self, c): return self._throws(c) if self._throws else []

    def get_modifies(self, c): return self._modifies(c) if self._modifies else []

    def make_ret(self, c):
        v = c.v
        if self._ret is not None: return self._ret(c)
        if c.e is None or "t" not in c.e: return None
        if c.e["k"] == "ctor" or c.e["k"] == "new": return c.this
        t = v.ty(c.e)
        if v.cl(t) == "void": return None
        r = v.fresh("ret_" + short(self.qn), v.sort(t))
        v.wf(c.st_post, r, t)
        return r


# ------------------------------------------------------------ the verifier --
class Result:
    def __init__(self, con, key, mode):
        self.con, self.key, self.mode = con, key, mode
        self.obls = []
        self.error = None
        self.vacuous = False
        self.hit_bound = False
        self.solver_time = 0.0
        self.inlined = set()
        self.used = set()
        self.assumed = set()
        self.paths = 0
        self.loc = None

    def status(self):
        if self.error: return "unsupported"
        if self.vacuous: return "vacuous"
        if not self.obls: return "empty"
        st = {o.status for o in self.obls} - {"skipped"}
        if st <= {"proved"}: return "bounded" if self.hit_bound else "proved"
        if "refuted" in st: return "refuted"
        return "unknown"


def const_names(e, seen=None, out=None):
    """names of uninterpreted constants occurring in e"""
    if out is None: out = set()
    if seen is None: seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            else: stack.extend(x.children())
    return out


def symbolic_args(v, f, st):
    args = []
    tt = f["_tt"]
    for i, p in enumerate(f["params"]):
        t = tt(p["t"])
        c = v.cl(t)
        nm = "arg_%s" % (p["n"] or str(i))
        if c == "obj" or (c == "ref"):
            x = z3.Const(nm, z3.IntSort())
            v.assume(st, v.allocated(st, x), x >= 0)
            if c == "obj": v.assume(st, x > 0)
            v.wf(st, x, t)
            if t.k == "r" and c == "ref":
                st.locals[("arg", i)] = x
                args.append(RefBind(LocalLV(("arg", i))))
            else: args.append(x)
            continue
        if c in ("stream", "func", "iter"): raise Unsupported("parameter of type " + t.s)
        x = z3.Const(nm, v.sort(t.to if c == "ptrval" else t))
        v.wf(st, x, t.to if c == "ptrval" else t)
        if t.k == "r" or c == "ptrval":
            st.locals[("arg", i)] = x
            args.append(RefBind(LocalLV(("arg", i)), ptr=(c == "ptrval")))
        else: args.append(x)
    return args


def run_verify(prog, contracts, con, cfg=None, mode="inv", budget=60.0, solve=True, prop=None):
    """generate and discharge the obligations of one function contract"""
    fs = prog.find(con.qn, con.nparams, (lambda f: con.sig in f["key"]) if con.sig else None)
    fs = [f for f in fs if "body" in f or f.get("defaulted")]
    res = Result(con, con.qn, mode)
    if not fs:
        res.error = "function not found in the current source: " + con.qn
        return res
    # const / non-const overloads share the contract: verify the first
    f = fs[0]
    res.key = f["key"]
    res.loc = f["loc"]
    v = Verifier(prog, contracts, cfg)
    v.mode = mode
    v.deadline = time.time() + budget
    v.fn = f
    v.contract = con
    v.heap0, v.glob0, v.heap_sorts, v.glob_sorts = {}, {}, {}, {}
    v.var_names, v.var_types = {}, {}
    v.callstack, v.cur_rt, v.cur_exc, v.dry = [], f["rt"], [], False
    v.roles, v.loop_iterations = {}, 0
    v.throws = []
    for case in (con.cases or [None]):
        try:
            verify_case(v, f, con, res, case)
        except Unsupported as ex:
            res.error = str(ex)
            res.inlined, res.used, res.assumed = v.inlined, v.used_contracts, v.assumed
            return res
        except z3.Z3Exception as ex:
            if os.environ.get("CYVC_TB"): import traceback; traceback.print_exc()
            res.error = "z3: " + str(ex)[:200]
            return res
    res.obls = v.obls
    res.hit_bound = v.hit_bound
    res.inlined, res.used, res.assumed = v.inlined, v.used_contracts, v.assumed
    res.paths = v.paths
    if prop:
        for o in v.obls:
            m = re.search(r'/(C\d\d):', o.name)
            if m and m.group(1) != prop: o.status = 'skipped'
    if solve:
        solve_all(v, res)
        res.hit_bound = v.hit_bound
    return res


def verify_case(v, f, con, res, case):
    st = State()
    st.alloc = z3.Const("alloc0", z3.IntSort())
    v.assume(st, st.alloc >= 1)
    this = None
    v.throws = []
    v.paths = 0
    v.callstack = []
    args = symbolic_args(v, f, st)
    if "cls" in f and not f.get("static"):
        if f.get("isctor"):
            pass
        else:
            this = z3.Const("this", z3.IntSort())
            v.assume(st, this > 0, this <= st.alloc)
            if f["cls"] in v.cfg.final_classes: v.assume(st, v.dyntype(this) == strlit("type " + f["cls"]))
    pre = st.copy()
    if f.get("isctor"):
        this = v.new_ref(st)
        v.assume(st, v.dyntype(this) == strlit("type " + f["cls"]))
    # requires
    c0 = CallCtx(v, con, st, st, this, args, None, None, calling=False)
    reqs = con.get_requires(c0)
    for name, g in reqs: v.assume(st, g)
    for fct in c0._facts: v.assume(st, fct)
    pre = st.copy()
    v.top_ctx = CallCtx(v, con, pre, st, this, args, None, None, calling=False)
    if v.check(st.pc, v.sum_lemmas_for(st.pc), 4000) == z3.unsat:
        res.vacuous = True
        return
    st.locals = dict(st.locals)
    if this is not None: st.locals["this"] = this
    for p, a in zip(f["params"], args):
        st.locals[p["id"]] = a
        v.var_names[p["id"]] = p["n"]
        v.var_types[p["id"]] = f["_tt"](p["t"])
    starts = [st]
    if f.get("isctor"): starts = v.run_ctor_inits(st, f, this)
    outs = []
    for s0 in starts:
        rs = v.exec(s0, f["body"]) if "body" in f else [(s0, "next", None)]
        for s2, k, r in rs:
            if k not in ("next", "ret"): raise Unsupported("stray " + k)
            outs.append((s2, r))
    fname = short(con.qn)
    normal = 0
    for s2, r in outs:
        ret = r
        if isinstance(r, RefBind) and not r.ptr: ret = v.load(s2, r.lv)
        c = CallCtx(v, con, pre, s2, this, args, ret, None, calling=False)
        c.ret_bind = r
        normal += 1
        ens = con.get_ensures(c)
        ths = con.get_throws(c)
        mods = con.get_modifies(c) if con.frame else None
        for fct in c._facts: v.assume(s2, fct)
        for name, g in ens: v.oblige(s2, "post", "%s/post/%s" % (fname, name), g, f["end"])
        for i, ex in enumerate(ths):
            if ex.must: v.oblige(s2, "throws", "%s/must-throw/%s" % (fname, ex.label or short(ex.cls)), z3.Not(ex.when), f["end"])
        if mods is not None: frame_obls(v, s2, pre, mods, "%s/frame" % fname, f, args, this if f.get("isctor") else None)
    for s2, ex in v.throws:
        c = CallCtx(v, con, pre, s2, this, args, None, None, calling=False)
        cands = [t for t in con.get_throws(c) if v.p.is_a(ex.cls, t.cls) or t.cls in ("std::exception", "*")]
        if con.may_throw_any: continue
        if not cands:
            v.oblige(s2, "no-throw", "%s/no-throw/%s@%s" % (fname, short(ex.cls), ex.line), z3.BoolVal(False), ex.line)
            continue
        v.oblige(s2, "throws", "%s/throws-only-when/%s" % (fname, short(ex.cls)), z3.Or(*[t.when for t in cands]), ex.line)
        for t in cands:
            s3 = s2.copy()
            v.assume(s3, t.when)
            ce = CallCtx(v, con, pre, s3, this, args, None, None, calling=False)
            tens = t.ensures(ce) if t.ensures else []
            for fct in ce._facts: v.assume(s3, fct)
            for name, g in tens:
                v.oblige(s3, "exceptional-post", "%s/on-throw/%s" % (fname, name), g, ex.line)
            if con.frame:
                frame_obls(v, s3, pre, t.modifies(ce), "%s/on-throw/frame" % fname, f, args, this if f.get("isctor") else None)
    if normal == 0 and not v.throws: res.vacuous = True


def frame_obls(v, st, pre, mods, name, f, args, newthis):
    allowed, anyf, gl, lvs = {}, set(), set(), []
    for m in mods:
        if m.kind == "field":
            if m.refs is None and not m.only_fresh: anyf.add(m.f)
            elif m.refs is not None: allowed.setdefault(m.f, []).extend(m.refs)
        elif m.kind == "global": gl.add(m.f)
        elif m.kind == "lv" and isinstance(m.lv, LocalLV): lvs.append(m.lv.i)
    for fld in sorted(st.heap):
        if fld in anyf: continue
        new, old = st.heap[fld], v.heap_arr(pre, fld, st.heap[fld].sort().range())
        if z3.eq(new, old): continue
        r = z3.Const("frame_ref", z3.IntSort())
        hyp = [v.old_ref(r, pre.alloc)] + [r != x for x in allowed.get(fld, [])]
        if newthis is not None: pass
        v.oblige(st, "frame", "%s/%s" % (name, short(fld)),
                 z3.Implies(z3.And(*hyp), z3.Select(new, r) == z3.Select(old, r)), f["end"])
    for g in sorted(st.glob):
        if g in gl: continue
        new, old = st.glob[g], v.glob_val(pre, g, st.glob[g].sort())
        if z3.eq(new, old): continue
        v.oblige(st, "frame", "%s/%s" % (name, short(g)), new == old, f["end"])
    for i, a in enumerate(args):
        if isinstance(a, RefBind) and isinstance(a.lv, LocalLV) and a.lv.i not in lvs:
            x, y = st.locals.get(a.lv.i), pre.locals.get(a.lv.i)
            if x is None or y is None or z3.eq(x, y): continue
            v.oblige(st, "frame", "%s/arg%d" % (name, i), x == y, f["end"])


def _sum_consts(self, fs):
    names = set()
    seen = set()
    for f in fs: const_names(f, seen, names)
    return names


def sum_lemmas_for(self, fs):
    """lemma instances for the sum terms that occur in fs (and, to a depth of
    one, in the lemma instances themselves)"""
    if not self.sums and not self.msums: return []
    names = _sum_consts(self, [x for x in fs if z3.is_expr(x)])
    terms = [x[-1] for x in self.sums if x[-1].decl().name() in names]
    m = [x for x in self.msums if x[-1].decl().name() in names]
    out = self.sum_lemmas(set(terms)) if terms else []
    out += self.msum_lemmas(m) if m else []
    return out


Verifier.sum_lemmas_for = sum_lemmas_for


def solve_all(v, res):
    for o in v.obls:
        if o.status: continue
        t0 = time.time()
        solve_one(v, o, res)
        o.time = time.time() - t0
        res.solver_time += o.time
        if o.status == "refuted" and v.mode != "inv":
            # one counterexample suffices
            for x in v.obls:
                if not x.status: x.status = "skipped"
            return
        if v.deadline and time.time() > v.deadline + 60:
            for x in v.obls:
                if not x.status: x.status, x.reason = "unknown", "time budget"
            return


def pieces(g):
    """conjuncts of a goal"""
    if z3.is_and(g): return [x for c in g.children() for x in pieces(c)]
    if z3.is_implies(g):
        a, b = g.children()
        ps = pieces(b)
        return [z3.Implies(a, x) for x in ps] if len(ps) > 1 else [g]
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_ITE and g.sort() == z3.BoolSort():
        c, a, b = g.children()
        return [z3.Implies(c, x) for x in pieces(a)] + [z3.Implies(z3.Not(c), x) for x in pieces(b)]
    return [g]


def solve_one(v, o, res):
    ps = pieces(o.goal)
    if len(ps) == 1: return solve_goal(v, o, o.goal)
    for g in ps:
        solve_goal(v, o, g)
        if o.status != "proved": return


def solve_goal(v, o, goal):
    neg = z3.Not(goal)
    lem = v.sum_lemmas_for(o.pc + [neg])
    if v.mode != "inv" and (v.sums or v.msums): lem = lem + v.sum_expand(v.cfg.unroll)
    if v.mode == "inv":
        # pattern-based instantiation alone is quick when it suffices; the
        # first attempt leaves the definitional axioms out
        for ax, ms, seed in ((False, 1500, 0), (True, 4000, 0), (True, 3000, 11), (True, 3000, 23)):
            if not ax and not v.axiom_facts: continue
            s = z3.Solver()
            s.set("timeout", ms)
            s.set("smt.mbqi", False)
            s.set("smt.random_seed", seed)
            for x in (v.global_facts if ax else v.plain_facts()) + o.pc + lem: s.add(x)
            s.add(neg)
            r = s.check()
            if r == z3.unsat:
                o.status = "proved"
                return
            if ax and r == z3.unknown and "timeout" not in s.reason_unknown() and "canceled" not in s.reason_unknown(): break
    s = z3.Solver()
    s.set("timeout", v.cfg.vc_timeout)
    for x in v.global_facts + o.pc + lem: s.add(x)
    s.add(neg)
    r = s.check()
    if r == z3.unknown:
        # second configuration: no model-based instantiation
        s2 = z3.SolverFor("AUFNIRA") if False else z3.Solver()
        s2.set("timeout", v.cfg.vc_timeout)
        s2.set("smt.mbqi", False)
        s2.set("smt.random_seed", 7)
        for x in v.global_facts + o.pc + lem: s2.add(x)
        s2.add(neg)
        r2 = s2.check()
        if r2 == z3.unsat: r = r2
    if r == z3.unsat: o.status = "proved"
    elif r == z3.sat:
        o.status = "refuted"
        m = s.model()
        vals = []
        for d in m.decls():
            if d.arity() == 0:
                x = m[d]
                if z3.is_int_value(x) or z3.is_rational_value(x): vals.append((d.name(), str(x)))
        o.model = sorted(vals)
        o.model_text = "\n".join("%s = %s" % (d.name(), m[d]) for d in m.decls() if d.arity() == 0)[:6000]
    else:
        o.status = "unknown"
        o.reason = s.reason_unknown()
