"""pandas tables with several records per label (records of a day): selection of the records of one label, labels without repeats"""
from __future__ import annotations

from . import terms as tm
from .terms import ZERO, ONE, TRUE, FALSE
from .values import *
from .lib_np import lib, method, attr, as_num, n_mul, n_sub, n_div, fsum, finite
from . import lib_np, lib_pd, interp

REC = "record"          # the records of one label are numbered; their label is the same, so labels of such a table cannot be used


class Records:
    """records s < m(t) of every label t of an axis, in any order; cell(t, s, k)"""

    def __init__(self, axis, m, cols, cell):
        self.axis, self.m, self.cols, self.cell = axis, m, cols, cell


def of_label(it, c, t, always):
    """the records of label t: a table, or (pandas' .loc with a label) a series when there is only one"""
    m = c.m(t)
    if not always:
        one = it.decide(tm.eq(m, ONE))
        if one is None:
            raise NeedFork(tm.eq(m, ONE))
        if one:
            return it.new(Series(c.cols, lambda k: c.cell(t, ZERO, k)))
    return it.new(Frame(Axis(REC, ZERO, m), c.cols, lambda s, k: c.cell(t, s, k)))


@attr("Records", "index")
def _(it, o):
    return Opaque("recidx", axis=it.D(o).axis, obj=o)


@attr("Records", "columns")
def _(it, o):
    return it.new(Idx(it.D(o).cols))


@attr("Records", "shape")
def _(it, o):
    unsup("number of all records")


@attr("Records", "loc")
def _(it, o):
    return RecLoc(o)


class RecLoc:
    def __init__(self, obj):
        self.obj = obj


@method("RecLoc", "getitem")
def _(it, o, args, kw):
    c = it.D(it.D(o).obj)
    i = it.D(args[0])
    if isinstance(i, Label) and i.space == c.axis.space:
        it.raise_if(tm.Not(c.axis.has(i.t)), "KeyError")
        return of_label(it, c, i.t, False)
    if isinstance(i, ListV) and len(i.items) == 1:
        x = it.D(i.items[0])
        if isinstance(x, Label) and x.space == c.axis.space:
            it.raise_if(tm.Not(c.axis.has(x.t)), "KeyError")
            return of_label(it, c, x.t, True)
    unsup("selection of records")


@method("Records", "getitem")
def _(it, o, args, kw):
    c, m = it.D(o), it.D(args[0])
    if isinstance(m, Opaque) and m.kind == "recmask" and it.D(m.obj) is c:
        return of_label(it, c, m.t, True)
    unsup("selection of records")


@method("recidx", "unique", "drop_duplicates")
def _(it, o, args, kw):
    if args or kw:
        unsup("options of unique")
    x = Idx(it.D(o).axis)
    x.appearance = True                  # in order of first appearance, which need not be the order of the labels
    return it.new(x)


def groups(it, o, args, kw):
    c = it.D(o)
    level = it.D(args[0]) if args else it.D(kw.get("level", kw.get("by")))
    if isinstance(level, Opaque) and level.kind == "recidx":
        ok = it.D(level.obj) is c
    else:
        ok = isinstance(level, Num) and level.r is ZERO and "level" in kw
    sort = it.D(kw["sort"]) if "sort" in kw else None
    if not ok or any(k not in ("level", "by", "sort") for k in kw) or not (isinstance(sort, BoolV) and sort.t is FALSE):
        unsup("groups of records other than by label in order of appearance")
    return c


@method("Records", "groupby")
def _(it, o, args, kw):
    c = groups(it, o, args, kw)
    a = c.axis
    return it.new(Seq(a.n, lambda q: (Label(a.space, tm.add(a.off, q)), Frame(Axis(REC, ZERO, c.m(tm.add(a.off, q))), c.cols, lambda s, k: c.cell(tm.add(a.off, q), s, k)))))


def _cells(it, o, f):
    c = it.D(o)
    return it.new(Records(c.axis, c.m, c.cols, lambda t, s, k: f(as_num(c.cell(t, s, k)))))


@method("Records", "pow")
def _(it, o, args, kw):
    return it.binop("Pow", o, args[0])


@method("Records", "abs")
def _(it, o, args, kw):
    return _cells(it, o, lib_np.n_abs)


@method("Records", "copy")
def _(it, o, args, kw):
    return _cells(it, o, lambda x: x)


def binop(it, op, a, b):
    """a table of records and a number"""
    ca, cb = it.D(a), it.D(b)
    if isinstance(ca, Records) and isinstance(cb, Num):
        return _cells(it, a, lambda x: as_num(it.D(it.binop(op, x, cb))))
    if isinstance(cb, Records) and isinstance(ca, Num):
        return _cells(it, b, lambda x: as_num(it.D(it.binop(op, ca, x))))
    unsup("arithmetic on records")


@method("Frame", "cov")
def _(it, o, args, kw):
    """products of the deviations from the column means, summed and divided by the number of rows less ddof"""
    c = it.D(o)
    d = as_num(it.D(kw["ddof"])).r if "ddof" in kw else ONE
    if args or any(k not in ("ddof", "min_periods") for k in kw) or it.D(kw.get("min_periods")) is not None or not tm.is_const(d):
        unsup("covariance options")
    rows = it.affine(c.rows)
    n = rows.n
    s, k, q = tm.fresh("s", "I", n), tm.fresh("k"), tm.fresh("k")
    probe = as_num(c.at(tm.add(rows.off, s), k))
    if it.simp(probe.nan, [tm.lt(s, n)]) is not FALSE or it.simp(probe.inf, [tm.lt(s, n)]) is not FALSE:
        unsup("covariance of missing values")

    def mean(k):
        u = tm.fresh("u", "I", n)
        return n_div(fsum(u, n, as_num(c.at(tm.add(rows.off, u), k))), Num(n))

    def cell(i, j):
        u = tm.fresh("u", "I", n)
        r = tm.add(rows.off, u)
        x = n_mul(n_sub(as_num(c.at(r, i)), mean(i)), n_sub(as_num(c.at(r, j)), mean(j)))
        return n_div(fsum(u, n, finite(it, x, [tm.lt(u, n)])), Num(tm.sub(n, d)))
    return it.new(Frame(c.cols, c.cols, cell))
