"""Shared specification vocabulary: ghost record log, sums over buffers, etc."""
import itertools

import z3
from engine import *
from engine import GHOST_FIELDS

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
Row = z3.ArraySort(I, Val)          # field name -> value
Rows = SeqSort(Row)
LogSort = z3.ArraySort(I, Rows)     # table title -> rows recorded so far, in order
LOG = "GHOST::log"
GHOST_FIELDS["ghost::Datum.title"] = I
GHOST_FIELDS["ghost::Datum.row"] = Row
NOROW = z3.K(I, Val.VO(z3.IntVal(0)))


def log_mods(c):
    return [c.glob(LOG, LogSort), c.field("ghost::Datum.title", only_fresh=True), c.field("ghost::Datum.row", only_fresh=True)]


def VI(x): return Val.VI(x)
def VR(x): return Val.VR(x)
def VS(x): return Val.VS(x)
def VB(x): return Val.VB(x)


def log_of(view): return view.g(LOG, LogSort)
def table(log, title): return z3.Select(log, strlit(title))
def rows(view, title): return table(log_of(view), title)
def nrows(t): return Rows.hi(t) - Rows.lo(t)
def row_at(t, i): return z3.Select(Rows.arr(t), i)


def row_is(row, vals):
    return z3.And(*[z3.Select(row, strlit(k)) == x for k, x in vals.items()])


def appended(old, new, rowpreds):
    """table grew by exactly these rows, in any order; earlier rows intact"""
    n = len(rowpreds)
    j = z3.Int("j!log")
    cs = [Rows.lo(old) == Rows.lo(new), Rows.hi(new) == Rows.hi(old) + n,
          z3.ForAll([j], z3.Implies(j < Rows.hi(old), row_at(new, j) == row_at(old, j)))]
    if n:
        cs.append(z3.Or(*[z3.And(*[rowpreds[p](row_at(new, Rows.hi(old) + i)) for i, p in enumerate(perm)])
                          for perm in itertools.permutations(range(n))]))
    return z3.And(*cs)


def log_appended(c, title, rowpreds): return appended(rows(c.old, title), rows(c.new, title), rowpreds)


def grows(old, new):
    """earlier rows intact, some rows may be added"""
    j = z3.Int("j!log")
    return z3.And(Rows.lo(old) == Rows.lo(new), Rows.hi(new) >= Rows.hi(old),
                  z3.ForAll([j], z3.Implies(j < Rows.hi(old), row_at(new, j) == row_at(old, j))))


def log_only(c, *titles):
    """no other table changes"""
    t = z3.Int("t!log")
    o, n = log_of(c.old), log_of(c.new)
    return z3.ForAll([t], z3.Implies(z3.And(*[t != strlit(x) for x in titles]), z3.Select(n, t) == z3.Select(o, t)),
                     patterns=[z3.Select(n, t)])


def log_same(c): return log_of(c.old) == log_of(c.new)


def record_contracts():
    """assumed contracts of the recording interface (its delivery is C07)"""
    out = []

    def nd_ens(c):
        d = c.ret
        return [("fresh", z3.And(d > c.old.alloc, d <= c.new.alloc)),
                ("title", c.new.f("ghost::Datum.title", d) == c.arg(0)),
                ("row", c.new.f("ghost::Datum.row", d) == NOROW)]

    for qn in ("cyclus::Context::NewDatum", "cyclus::Recorder::NewDatum"):
        out.append(Contract(qn, 1, ensures=nd_ens, allocs=True, assumed=True, exact=True,
                            modifies=lambda c: [c.field("ghost::Datum.title", only_fresh=True),
                                                c.field("ghost::Datum.row", only_fresh=True)]))

    def av_ens(c):
        return [("row", c.new.f("ghost::Datum.row", c.this) ==
                 z3.Store(c.old.f("ghost::Datum.row", c.this), c.arg(0), c.arg(1)))]

    out.append(Contract("cyclus::Datum::AddVal", None, ensures=av_ens, assumed=True, exact=True, ret=lambda c: c.this,
                        modifies=lambda c: [c.field("ghost::Datum.row", [c.this])]))

    def rec_ens(c):
        o = log_of(c.old)
        t = c.old.f("ghost::Datum.title", c.this)
        x = z3.Select(o, t)
        return [("append", log_of(c.new) == z3.Store(o, t, Rows.mk(
            Rows.lo(x), Rows.hi(x) + 1, z3.Store(Rows.arr(x), Rows.hi(x), c.old.f("ghost::Datum.row", c.this)))))]

    out.append(Contract("cyclus::Datum::Record", 0, ensures=rec_ens, assumed=True, exact=True,
                        modifies=lambda c: [c.glob(LOG, LogSort)]))
    return out


def pure(qn, n, fn, assumed=True, **kw):
    """a function without side effects returning fn(c)"""
    return Contract(qn, n, ret=lambda c: fn(c), assumed=assumed, exact=True, **kw)


def ghost(name, sort):
    GHOST_FIELDS[name] = sort
    return name


def EPS(view): return view.g("cyclus::cy_eps_rsrc", z3.RealSort())
def fresh_ret(c): return ("fresh", z3.And(c.ret > c.old.alloc, c.ret <= c.new.alloc))
def is_type(v, r, cls): return v.dyntype(r) == strlit("type " + cls)
def allint(f, name="x!a"):
    x = z3.Int(name)
    return z3.ForAll([x], f(x))
