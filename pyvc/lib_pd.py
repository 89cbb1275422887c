"""Assumed contracts on pandas: labelled tables, alignment, missing values."""
from __future__ import annotations

from fractions import Fraction

from . import terms as tm
from . import prove as pv
from .terms import TRUE, FALSE, And, Not, Or, ZERO, ONE
from .values import *
from .values import _hasfn
from .interp import BUILTINS, METHODS, ATTRS, CONSTS
from .lib_np import lib, method, attr, as_num, as_bool, arr_of, n_cmp, N_OPS, same_dim, matmul, broadcast, bidx
from . import lib_np


def cell(v, missing=FALSE):
    return Opaque("cell", missing=BoolV(missing), v=v)


def uncell(it, x):
    if isinstance(x, Opaque) and x.kind == "cell":
        m = it.simp(x.missing.t)
        if m is not FALSE:
            unsup("object cell may be missing")
        return x.v
    return x


def is_missing(x):
    if isinstance(x, Num):
        return x.nan
    if isinstance(x, Opaque) and x.kind == "cell":
        return x.missing.t
    return FALSE


def _number_cell(it, x):
    """conversion of a table entry to a number: arrays of one element give that element"""
    if isinstance(x, Opaque) and x.kind == "cell":
        a = it.D(x.v)
        if isinstance(a, Arr):
            if any(d is not ONE for d in a.shape) or it.simp(x.missing.t) is not FALSE:
                unsup("conversion of object cells to numbers")
            return a.at(*[ZERO] * a.ndim)
        if isinstance(a, Num):
            return vite(x.missing.t, NAN, a)
        unsup("conversion of object cells to numbers")
    return x


MISSING = Opaque("cell", missing=BoolV(TRUE), v=None)


def missing_like(kind):
    return MISSING if kind == "obj" else NAN


# ---------------------------------------------------------------- axes
def pos_axis(n, space="int"):
    return Axis(space, ZERO, n)


def axis_len(it, ax):
    if ax.n is None:
        ax = it.affine(ax)
    return ax.n


def subset(it, a, b):
    """labels of a are labels of b (provably)"""
    if a.same(b):
        return True
    if a.space.startswith("joined") or b.space.startswith("joined"):
        unsup("labels of joined tables")
    if a.space != b.space:
        return False
    l = tm.fresh("l")
    ha = a.has(l)
    return it.prove(b.has(l), [ha])


def same_axis(it, a, b):
    if a.same(b):
        return True
    if a.space != b.space:
        return False
    if a.off is not None and b.off is not None and a._has is None and b._has is None:
        return it.decide(And(tm.eq(a.off, b.off), tm.eq(a.n, b.n))) is True
    return subset(it, a, b) and subset(it, b, a)


def union(it, a, b):
    if a.same(b):
        return a
    if a.space != b.space:
        for x, y in ((a, b), (b, a)):    # union with no labels at all
            if y.n is not None and it.decide(tm.le(y.n, ZERO)) is True:
                return x
        unsup(f"alignment of {a.space} labels with {b.space} labels")
    if subset(it, a, b):
        return b
    if subset(it, b, a):
        return a
    return Axis(a.space, None, None, _hasfn(lambda l: Or(a.has(l), b.has(l))))


def inter(it, a, b):
    if a.same(b):
        return a
    if a.space != b.space:
        unsup("alignment of different kinds of labels")
    if subset(it, a, b):
        return a
    if subset(it, b, a):
        return b
    return it.filter_axis(a, b.has) if a.off is not None else it.filter_axis(b, a.has) if b.off is not None else Axis(a.space, None, None, _hasfn(lambda l: And(a.has(l), b.has(l))))


def have(res, ax, l):
    """condition that label l (known in res) is in ax"""
    if ax is res or ax.same(res):
        return TRUE
    return ax.has(l)


def axis_of(it, v, n=None):
    """index argument -> Axis"""
    c = it.D(v)
    if c is None:
        return pos_axis(n)
    if isinstance(c, Idx):
        return c.axis
    if isinstance(c, Series):
        c = seq_of_series(it, c)
    if isinstance(c, Opaque) and c.kind == "keys":
        return c.axis
    if isinstance(c, SymDict):
        return c.axis
    if isinstance(c, Arr) and c.ndim == 1:
        c = _labelseq(c)
    if isinstance(c, Seq):
        j = tm.fresh("j", "I", c.n)
        e = c.at(j)
        if isinstance(e, (tuple, NT)):
            unsup("index of tuples")
        if isinstance(e, Num) and e.r.sort == "I" and e.nan is FALSE:
            e = Label("int", e.r)
        if isinstance(e, Label):
            lin = tm._lin_in(e.t, j)
            if lin and lin[0] == 1 and lin[1].sort == "I":
                if c.cond is None or c.full():
                    return Axis(e.space, lin[1], c.n)
                off = lin[1]
                return it.filter_axis(Axis(e.space, off, c.n), lambda l: c.present(tm.sub(l, off)))
            if c.n is ZERO:
                return Axis(e.space, ZERO, ZERO)
        unsup("index built from arbitrary labels")
    if isinstance(c, (tuple, ListV)):
        items = list(c if isinstance(c, tuple) else c.items)
        if all(isinstance(x, str) for x in items):
            return StrAxis(tuple(items))
        if items and all(isinstance(it.D(x), Label) for x in items):
            ls = [it.D(x) for x in items]
            if all(l.t is tm.add(ls[0].t, tm.const(k)) for k, l in enumerate(ls)):
                return Axis(ls[0].space, ls[0].t, tm.const(len(ls)))
    if isinstance(c, Range):
        return Axis("int", c.lo, tm.sub(c.hi, c.lo))
    if isinstance(c, DictV) and all(isinstance(k, str) for k, _ in c.items):
        return StrAxis(tuple(k for k, _ in c.items))
    unsup(f"index from {type(c).__name__}")


def _labelseq(c):
    return Seq(c.shape[0], lambda k: c.at(k))


class StrAxis(Axis):
    """finite axis of string labels; coordinates are positions"""

    def __init__(self, names):
        self.names = names
        super().__init__("str:" + ",".join(names), ZERO, tm.const(len(names)))

    def subst(self, m):
        return self


def label_coord(it, ax, v, raising=True):
    """coordinate of a label value on an axis (KeyError when absent)"""
    c = it.D(v)
    if isinstance(ax, StrAxis):
        if isinstance(c, str):
            if c not in ax.names:
                it.raise_if(TRUE, "KeyError")
            return tm.const(ax.names.index(c))
        if isinstance(c, Label) and c.space == ax.space:
            return c.t
        unsup("label of a string index")
    if isinstance(c, Num) and ax.space == "int":
        t = c.r
    elif isinstance(c, Label):
        if c.space != ax.space:
            unsup(f"{c.space} label looked up in {ax.space} labels")
        t = c.t
    else:
        unsup(f"label {type(c).__name__}")
    if raising:
        h = ax.has(t)
        if h is not TRUE:
            it.raise_if(Not(h), "KeyError")
    return t


def mklabel(ax, t):
    if ax.space == "int":
        return Num(t)
    if isinstance(ax, StrAxis) and tm.is_const(t):
        return ax.names[int(tm.cval(t))]
    return Label(ax.space, t)


# ---------------------------------------------------------------- conversion
def values(it, c):
    if isinstance(c, Frame):
        r, k = it.affine(c.rows), it.affine(c.cols)
        return Arr((r.n, k.n), lambda i, j: _val(it, c, c.at(tm.add(r.off, i), tm.add(k.off, j))), c.kind)
    if isinstance(c, Series):
        r = it.affine(c.axis)
        if c.kind == "obj":
            return arr_of(it, seq_of_series(it, c))
        return Arr((r.n,), lambda i: c.at(tm.add(r.off, i)), c.kind)
    if isinstance(c, Idx):
        r = it.affine(c.axis)
        return Arr((r.n,), lambda i: mklabel(r, tm.add(r.off, i)), "label" if r.space != "int" else "num")


def _val(it, c, x):
    return x


def seq_of_series(it, c):
    r = it.affine(c.axis)

    def at(k):
        return uncell(it, c.at(tm.add(r.off, k)))
    return Seq(r.n, at)


def to_series(it, v, ax=None):
    c = it.D(v)
    if isinstance(c, Series):
        return c
    a = arr_of(it, c)
    if a.ndim != 1:
        unsup("series from an array")
    ax = ax or pos_axis(a.shape[0])
    return Series(ax, lambda l: a.at(tm.sub(l, ax.off)), a.kind)


# ---------------------------------------------------------------- construction
@lib("pandas.DataFrame")
def dataframe(it, args, kw):
    data = args[0] if args else kw.get("data")
    index = kw.get("index", args[1] if len(args) > 1 else None)
    columns = kw.get("columns", args[2] if len(args) > 2 else None)
    for k in kw:
        if k not in ("data", "index", "columns", "dtype"):
            unsup(f"DataFrame keyword {k}")
    c = it.D(data)
    ix = None if it.D(index) is None else axis_of(it, index)
    cx = None if it.D(columns) is None else axis_of(it, columns)
    if isinstance(c, Frame):
        return it.new(reindex(it, c, ix or c.rows, cx or c.cols), [data.id] if isinstance(data, Ref) else [])
    if isinstance(c, Series):
        if cx is None and ix is None:
            return it.new(Frame(c.axis, pos_axis(ONE), lambda r, k: c.at(r), c.kind))
        unsup("DataFrame from a Series")
    if isinstance(c, SymDict):
        f = frame_of_dict(it, c, ix)
        if ix is not None or cx is not None:
            f = reindex(it, f, ix or f.rows, cx or f.cols)
        return it.new(f)
    if isinstance(c, DictV):
        if not c.items:
            if ix is None and cx is None:
                return it.new(Frame(pos_axis(ZERO), pos_axis(ZERO), lambda r, k: NAN))
        if all(isinstance(k, str) for k, _ in c.items):
            sers = [it.D(v) for _, v in c.items]
            if all(isinstance(s, Series) for s in sers):
                rows = sers[0].axis
                for s in sers[1:]:
                    rows = union(it, rows, s.axis)
            elif all(isinstance(s, Arr) for s in sers):
                rows = ix or pos_axis(sers[0].shape[0])
                sers = [to_series(it, s, rows) for s in sers]
            else:
                unsup("DataFrame of a dictionary")
            ax = StrAxis(tuple(k for k, _ in c.items))

            def at(r, k):
                vals = [vite(have(rows, s.axis, r), s.at(r), NAN) for s in sers]
                if tm.is_const(k):
                    return vals[int(tm.cval(k))]
                v = vals[-1]
                for q in range(len(vals) - 2, -1, -1):
                    v = vite(tm.eq(k, tm.const(q)), vals[q], v)
                return v
            return it.new(Frame(rows, ax, at))
        unsup("DataFrame of a concrete dictionary")
    if c is None:
        if ix is None or cx is None:
            unsup("empty DataFrame")
        return it.new(Frame(ix, cx, lambda r, k: NAN))
    if isinstance(c, (Num, BoolV)):
        return it.new(Frame(ix, cx, lambda r, k: c))
    if isinstance(c, Seq):
        j = tm.fresh("j", "I", c.n)
        e = it.D(c.at(j))
        if isinstance(e, Series):
            # rows from a list of Series: their names become the index; only with explicit index
            if j in _axis_fv(e.axis):
                unsup("DataFrame from series with different indices")
            rows = ix or unsup("index of a DataFrame built from a list of Series")
            check_len(it, rows, c.n)
            return it.new(Frame(rows, e.axis, lambda r, k: c.at(tm.sub(r, rows.off)).at(k)))
    a = arr_of(it, c)
    if a.ndim == 1:
        a0 = a
        a = Arr((a0.shape[0], ONE), lambda i, j: a0.at(i), a0.kind)
    if a.ndim != 2:
        unsup("DataFrame from an array that is not two-dimensional")
    rows = ix or pos_axis(a.shape[0])
    cols = cx or pos_axis(a.shape[1])
    rows, cols = it.affine(rows), it.affine(cols)
    check_len(it, rows, a.shape[0])
    check_len(it, cols, a.shape[1])
    al = [data.id] if isinstance(data, Ref) else []
    return it.new(Frame(rows, cols, lambda r, k: a.at(tm.sub(r, rows.off), tm.sub(k, cols.off)), a.kind), al)


def _axis_fv(ax):
    s = set()
    if ax.off is not None:
        s |= ax.off.fv | ax.n.fv
    if ax._has is not None:
        s |= ax._has.body()[1].fv
    return s


def check_len(it, ax, n):
    if ax.n is n:
        return
    c = tm.eq(ax.n, n)
    d = it.decide(c)
    if d is True:
        return
    if d is None and it.prove(c, timeout=3000, unfold=1):
        return
    it.raise_if(Not(c), "ValueError")


def frame_of_dict(it, d, ix=None):
    """{label: Series | dict | array}: columns are the keys, rows the union of the inner labels (or the given rows)"""
    l = tm.fresh("l")
    pc0 = list(it.pc)
    it.pc = it.pc + [d.axis.has(l)]
    try:
        e = it.D(d.at(l))
        if isinstance(e, Opaque) and e.kind == "dict":
            e = e.d["content"]
    finally:
        it.pc = pc0
    if isinstance(e, Series):
        if l in _axis_fv(e.axis):
            if ix is None or ix.space != e.axis.space:
                unsup("series with different indices")

            def cut(r, k):
                s = it.D(d.at(k))
                return vite(s.axis.has(r), s.at(r), missing_like(s.kind))
            return Frame(ix, d.axis, cut, e.kind)
        return Frame(e.axis, d.axis, lambda r, k: it.D(d.at(k)).at(r), e.kind)
    if isinstance(e, SymDict):
        if l in _axis_fv(e.axis):
            unsup("dictionaries with different keys")
        x = tm.fresh("l")
        ev = it.D(e.at(x))
        kind = "num" if isinstance(ev, Num) else "obj"

        def at(r, k):
            v = it.D(it.D(d.at(k)).at(r))
            return v if kind == "num" else cell(v)
        return Frame(e.axis, d.axis, at, kind)
    if isinstance(e, Arr) and e.ndim == 1:
        rows = pos_axis(e.shape[0])
        return Frame(rows, d.axis, lambda r, k: it.D(d.at(k)).at(r), e.kind)
    unsup(f"DataFrame of a dictionary of {type(e).__name__}")


def reindex(it, f, rows, cols):
    if same_axis(it, rows, f.rows):
        rows2, rmiss = f.rows, None
    else:
        rows2, rmiss = rows, f.rows
    if same_axis(it, cols, f.cols):
        cols2, cmiss = f.cols, None
    else:
        cols2, cmiss = cols, f.cols
    if rmiss is None and cmiss is None:
        return Frame(f.rows, f.cols, f.fn, f.kind)
    if (rmiss is not None and rmiss.space != rows2.space) or (cmiss is not None and cmiss.space != cols2.space):
        return Frame(rows2, cols2, lambda r, k: missing_like(f.kind), f.kind)

    def at(r, k):
        c = And(TRUE if rmiss is None else rmiss.has(r), TRUE if cmiss is None else cmiss.has(k))
        return vite(c, f.at(r, k), missing_like(f.kind))
    return Frame(rows2, cols2, at, f.kind)


@lib("pandas.Series")
def series(it, args, kw):
    data = args[0] if args else kw.get("data")
    index = kw.get("index", args[1] if len(args) > 1 else None)
    for k in kw:
        if k not in ("data", "index", "dtype", "name"):
            unsup(f"Series keyword {k}")
    c = it.D(data)
    ix = None if it.D(index) is None else axis_of(it, index)
    al = [data.id] if isinstance(data, Ref) else []
    if isinstance(c, Series):
        if ix is None or same_axis(it, ix, c.axis):
            return it.new(Series(c.axis, c.fn, c.kind), al)
        if ix.space != c.axis.space:
            return it.new(Series(ix, lambda l: missing_like(c.kind), c.kind))
        return it.new(Series(ix, lambda l: vite(c.axis.has(l), c.at(l), missing_like(c.kind)), c.kind))
    if isinstance(c, SymDict):
        l = tm.fresh("l")
        e = it.D(c.at(l))
        kind = "num" if isinstance(e, Num) else "bool" if isinstance(e, BoolV) else "obj"
        s = Series(c.axis, lambda l: it.D(c.at(l)) if kind != "obj" else cell(it.D(c.at(l))), kind)
        if ix is not None and not same_axis(it, ix, c.axis):
            return it.new(Series(ix, lambda l: vite(c.axis.has(l), s.at(l), missing_like(kind)), kind))
        return it.new(s)
    if isinstance(c, DictV):
        if c.items and all(isinstance(k, str) for k, _ in c.items):
            ax = StrAxis(tuple(k for k, _ in c.items))
            a = arr_of(it, ListV([v for _, v in c.items]))
            return it.new(Series(ax, lambda l: a.at(l)))
        unsup("Series from a dictionary")
    if isinstance(c, (Num, BoolV)) or c is None:
        if ix is None:
            unsup("Series of a scalar")
        v = NAN if c is None else c
        return it.new(Series(ix, lambda l: v))
    if isinstance(c, Seq):
        e = it.D(c.fn.body()[1])
        if isinstance(e, Arr) and e.ndim:      # one array per element: a column of objects
            c2 = c if c.cond is None or c.full() else it.compact(c)
            ax = it.affine(ix) if ix is not None else pos_axis(c2.n)
            check_len(it, ax, c2.n)
            return it.new(Series(ax, lambda l: cell(it.D(c2.at(tm.sub(l, ax.off)))), "obj"))
    a = arr_of(it, c)
    if a.ndim == 0:
        # zero-dimensional array: broadcast like a scalar
        ix is None and unsup("Series of a scalar")
        return it.new(Series(ix, lambda l: a.at()))
    if a.ndim != 1:
        it.raise_if(TRUE, "ValueError")
    ax = it.affine(ix) if ix is not None else pos_axis(a.shape[0])
    if ix is not None:
        check_len(it, ax, a.shape[0])
    return it.new(Series(ax, lambda l: a.at(tm.sub(l, ax.off)), a.kind), al)


@lib("pandas.Index", "pandas.DatetimeIndex")
def _(it, args, kw):
    return it.new(Idx(axis_of(it, args[0])))


# ---------------------------------------------------------------- elementwise and alignment
def elementwise(it, f, cs, kind=None):
    frames = [c for c in cs if isinstance(c, Frame)]
    if any(isinstance(c, (Frame, Series)) and c.kind == "obj" for c in cs):
        return obj_elementwise(it, f, cs)
    if frames:
        rows, cols = frames[0].rows, frames[0].cols
        for g in frames[1:]:
            rows, cols = union(it, rows, g.rows), union(it, cols, g.cols)
        for c in cs:
            if isinstance(c, Series):
                cols = union(it, cols, c.axis)
        get = []
        for c in cs:
            if isinstance(c, Frame):
                get.append(lambda r, k, c=c: vite(And(have(rows, c.rows, r), have(cols, c.cols, k)), c.at(r, k), NAN))
            elif isinstance(c, Series):
                get.append(lambda r, k, c=c: vite(have(cols, c.axis, k), c.at(k), NAN))
            elif isinstance(c, (Num, BoolV)):
                get.append(lambda r, k, c=c: c)
            elif c is None:
                get.append(lambda r, k: NAN)
            else:
                a = arr_of(it, c)
                ra, ca = it.affine(rows), it.affine(cols)
                if a.ndim == 0:
                    get.append(lambda r, k, a=a: a.at())
                    continue
                want = (ra.n, ca.n)
                broadcast(it, [want, a.shape])
                if a.ndim == 1:
                    if not same_dim(it, a.shape[0], ca.n):
                        unsup("array does not match the columns")
                    get.append(lambda r, k, a=a, ca=ca: a.at(tm.sub(k, ca.off)))
                else:
                    get.append(lambda r, k, a=a, ra=ra, ca=ca: a.at(ZERO if a.shape[0] is ONE else tm.sub(r, ra.off), ZERO if a.shape[1] is ONE else tm.sub(k, ca.off)))
        res = Frame(rows, cols, lambda r, k: f(*[g(r, k) for g in get]))
        b = res.fn.body()[1]
        res.kind = kind or ("bool" if isinstance(b, BoolV) else "num")
        return it.new(res)
    sers = [c for c in cs if isinstance(c, Series)]
    ax = sers[0].axis
    for s in sers[1:]:
        ax = union(it, ax, s.axis)
    get = []
    for c in cs:
        if isinstance(c, Series):
            get.append(lambda l, c=c: vite(have(ax, c.axis, l), c.at(l), NAN))
        elif isinstance(c, (Num, BoolV)):
            get.append(lambda l, c=c: c)
        else:
            a = arr_of(it, c)
            aa = it.affine(ax)
            if a.ndim == 0:
                get.append(lambda l, a=a: a.at())
            elif a.ndim == 1:
                if not same_dim(it, a.shape[0], aa.n):
                    unsup("array does not match the series")
                get.append(lambda l, a=a, aa=aa: a.at(ZERO if a.shape[0] is ONE else tm.sub(l, aa.off)))
            else:
                unsup("series with a matrix")
    res = Series(ax, lambda l: f(*[g(l) for g in get]))
    b = res.fn.body()[1]
    res.kind = kind or ("bool" if isinstance(b, BoolV) else "num")
    return it.new(res)


def obj_elementwise(it, f, cs):
    """object Series (arrays in cells) with scalars / number arrays / number Series"""
    objs = [c for c in cs if isinstance(c, (Frame, Series)) and c.kind == "obj"]
    if len(objs) != 1 or not isinstance(objs[0], Series):
        unsup("arithmetic on object tables")
    s = objs[0]
    ax = it.affine(s.axis)
    get = []
    for c in cs:
        if c is s:
            get.append(lambda l: uncell(it, s.at(l)))
        elif isinstance(c, Series):
            if not same_axis(it, c.axis, ax):
                unsup("alignment of object series")
            get.append(lambda l, c=c: c.at(l))
        elif isinstance(c, (Num, BoolV)):
            get.append(lambda l, c=c: c)
        else:
            a = arr_of(it, c)
            if a.ndim == 0:
                get.append(lambda l, a=a: a.at())
            elif a.ndim == 1 and same_dim(it, a.shape[0], ax.n):
                get.append(lambda l, a=a: a.at(tm.sub(l, ax.off)))
            else:
                unsup("object series with a matrix")

    def at(l):
        vals = [g(l) for g in get]
        arrs = [it.D(v) for v in vals]
        if any(isinstance(x, (Frame, Series)) for x in arrs):
            r = it.D(elementwise(it, f, arrs))
        else:
            ar = [arr_of(it, x) for x in arrs]
            shape = broadcast(it, [a.shape for a in ar])
            nd = len(shape)
            r = Arr(shape, lambda *i: f(*[a.at(*bidx(a.shape, nd, i)) for a in ar]))
        return cell(r)
    return it.new(Series(ax, at, "obj"))


def binop(it, op, a, b, ca, cb):
    if isinstance(ca, Idx) or isinstance(cb, Idx):
        unsup("index arithmetic")
    if op == "MatMult":
        return pd_matmul(it, ca, cb)
    if op in ("BitAnd", "BitOr"):
        g = (lambda x, y: BoolV(And(as_bool(x), as_bool(y)))) if op == "BitAnd" else (lambda x, y: BoolV(Or(as_bool(x), as_bool(y))))
        return elementwise(it, g, [ca, cb])
    f = N_OPS.get(op)
    if f is None or isinstance(ca, (tuple, DictV)) or isinstance(cb, (tuple, DictV)) or isinstance(ca, Opaque) or isinstance(cb, Opaque):
        return None
    return elementwise(it, lambda x, y: f(as_num(x), as_num(y)), [ca, cb])


def compare(it, op, ca, cb):
    if isinstance(ca, Idx) or isinstance(cb, Idx):
        from .lib_np import UNORDERED
        if op not in ("Eq", "NotEq") and any(axis_of(it, x).space in UNORDERED for x in (ca, cb) if isinstance(x, Idx)):
            unsup("order of asset labels")
        if isinstance(ca, Idx) and isinstance(cb, Label):
            return it.new(Arr((axis_len(it, ca.axis),), lambda i: n_cmp(op, Num(tm.add(it.affine(ca.axis).off, i)), Num(cb.t)), "bool"))
        xa, xb = axis_of(it, ca), axis_of(it, cb)
        if xa.space == xb.space and op in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"):
            aa, ab = it.affine(xa), it.affine(xb)
            it.raise_if(Not(tm.eq(aa.n, ab.n)), "ValueError")
            return it.new(Arr((aa.n,), lambda i: n_cmp(op, Num(tm.add(aa.off, i)), Num(tm.add(ab.off, i))), "bool"))
        unsup("index comparison")
    return elementwise(it, lambda x, y: n_cmp(op, as_num(x), as_num(y)), [ca, cb], "bool")


def pd_matmul(it, ca, cb):
    a, b = (values(it, ca) if isinstance(ca, (Frame, Series)) else arr_of(it, ca)), (values(it, cb) if isinstance(cb, (Frame, Series)) else arr_of(it, cb))
    if isinstance(ca, (Frame, Series)) and isinstance(cb, (Frame, Series)):
        x = ca.cols if isinstance(ca, Frame) else ca.axis
        y = cb.rows if isinstance(cb, Frame) else cb.axis
        if not same_axis(it, x, y):
            unsup("matrix product of tables with different labels")
    r = it.D(matmul(it, a, b))
    if isinstance(r, Num):
        return r
    rows = it.affine(ca.rows) if isinstance(ca, Frame) else (pos_axis(a.shape[0]) if a.ndim == 2 else None)
    cols = it.affine(cb.cols) if isinstance(cb, Frame) else (pos_axis(b.shape[1]) if b.ndim == 2 else None)
    if not isinstance(ca, Frame) and not isinstance(cb, Frame):
        return it.new(r)               # a Series with an array: an array
    if r.ndim == 2:
        return it.new(Frame(rows, cols, lambda p, q: r.at(tm.sub(p, rows.off), tm.sub(q, cols.off))))
    if isinstance(ca, Frame) and isinstance(cb, (Series, Arr)):
        return it.new(Series(rows, lambda p: r.at(tm.sub(p, rows.off))))
    ax = rows if b.ndim == 1 else cols
    return it.new(Series(ax, lambda p: r.at(tm.sub(p, ax.off))))


# ---------------------------------------------------------------- attributes
@attr("Frame", "values")
def _(it, o):
    return it.view(values(it, it.D(o)), o)


@attr("Series", "values")
def _(it, o):
    return it.view(values(it, it.D(o)), o)


@attr("Idx", "values")
def _(it, o):
    return it.view(values(it, it.D(o)), o)


@method("Frame", "to_numpy")
def _(it, o, args, kw):
    return it.view(values(it, it.D(o)), o)


@method("Series", "to_numpy")
def _(it, o, args, kw):
    return it.view(values(it, it.D(o)), o)


@attr("Frame", "index")
def _(it, o):
    return it.new(Idx(it.D(o).rows))


@attr("Frame", "columns")
def _(it, o):
    return it.new(Idx(it.D(o).cols))


@attr("Series", "index")
def _(it, o):
    return it.new(Idx(it.D(o).axis))


@attr("Frame", "shape")
def _(it, o):
    c = it.D(o)
    return (Num(axis_len(it, c.rows)), Num(axis_len(it, c.cols)))


@attr("Series", "shape")
def _(it, o):
    return (Num(axis_len(it, it.D(o).axis)),)


@attr("Series", "size")
def _(it, o):
    return Num(axis_len(it, it.D(o).axis))


@attr("Idx", "size")
def _(it, o):
    return Num(axis_len(it, it.D(o).axis))


@attr("Idx", "shape")
def _(it, o):
    return (Num(axis_len(it, it.D(o).axis)),)


def transpose(it, o):
    c = it.D(o)
    return it.view(Frame(c.cols, c.rows, lambda r, k: c.at(k, r), c.kind), o)


@attr("Frame", "T")
def _(it, o):
    return transpose(it, o)


@method("Frame", "transpose")
def _(it, o, args, kw):
    return transpose(it, o)


@attr("Series", "T")
def _(it, o):
    return o


def set_axis(it, o, c, name, v):
    if isinstance(c, Frame):
        old = it.affine(c.rows if name == "index" else c.cols)
        new = it.affine(axis_of(it, v))
        check_len(it, new, old.n)
        d = tm.sub(old.off, new.off)
        if name == "index":
            it.write(o, Frame(new, c.cols, lambda r, k: c.at(tm.add(r, d), k), c.kind), "row labels")
        else:
            it.write(o, Frame(c.rows, new, lambda r, k: c.at(r, tm.add(k, d)), c.kind), "column labels")
    else:
        old, new = it.affine(c.axis), it.affine(axis_of(it, v))
        check_len(it, new, old.n)
        d = tm.sub(old.off, new.off)
        it.write(o, Series(new, lambda l: c.at(tm.add(l, d)), c.kind), "labels")


# ---------------------------------------------------------------- indexers
for _k in ("loc", "iloc", "at", "iat"):
    for _c in ("Frame", "Series"):
        ATTRS[(_c, _k)] = (lambda k: lambda it, o: Opaque("indexer", mode=("iloc" if k in ("iloc", "iat") else "loc"), obj=o))(_k)


def sel_label(it, ax, x):
    """loc selection on an axis: ('one', coord) or ('axis', Axis, map coord->source coord)"""
    x = it.D(x) if not isinstance(x, SliceV) else x
    if isinstance(x, SliceV):
        lo, hi = it.D(x.lo) if x.lo is not None else None, it.D(x.hi) if x.hi is not None else None
        if x.step is not None:
            unsup("label slice step")
        if lo is None and hi is None:
            return ("axis", ax, None)
        cs = []
        if lo is not None:
            l0 = label_coord(it, ax, lo, False)
            cs.append(lambda l: tm.ge(l, l0))
        if hi is not None:
            h0 = label_coord(it, ax, hi, False)
            cs.append(lambda l: tm.le(l, h0))
        return ("axis", it.filter_axis(ax, lambda l: And(*[c(l) for c in cs])), None)
    if isinstance(x, (Idx, Seq, ListV, Series, tuple)) or (isinstance(x, Arr) and x.kind == "label"):
        if isinstance(x, Series) and x.kind == "bool":
            return ("axis", it.filter_axis(ax, lambda l: And(x.axis.has(l), as_bool(x.at(l)))), None)
        new = axis_of(it, x)
        if new.space != ax.space:
            unsup("selection with labels of another kind")
        l = tm.fresh("l")
        if not subset(it, new, ax):
            nn = new
            ok = it.prove(ax.has(l), [nn.has(l)])
            if not ok:
                it.raise_if(Not(tm.Forall(l, ZERO, TRUE)) if False else _not_subset(new, ax), "KeyError")
        return ("axis", new, None)
    if isinstance(x, Arr) and x.kind == "bool":
        a = it.affine(ax)
        return ("axis", it.filter_axis(ax, lambda l: as_bool(x.at(tm.sub(l, a.off)))), None)
    return ("one", label_coord(it, ax, x))


def _not_subset(new, ax):
    if new.off is None:
        unsup("selection of labels that may be absent")
    v = tm.fresh("q", "I", new.n)
    return tm.Exists(v, new.n, Not(ax.has(tm.add(new.off, v))))


def sel_pos(it, ax, x):
    a = it.affine(ax)
    x = it.D(x) if not isinstance(x, SliceV) else x
    if isinstance(x, SliceV):
        if x.lo is None and x.hi is None and x.step is None:
            return ("axis", ax, None)
        if x.step is not None:
            unsup("positional slice step")
        lo, n = lib_np.slice_bounds(it, x, a.n)
        return ("axis", Axis(a.space, tm.add(a.off, lo), n), None)
    if isinstance(x, Num):
        p = lib_np.pos_index(it, x, a.n)
        lib_np.bounds_ok(it, p, a.n, "position")
        return ("one", tm.add(a.off, p))
    if isinstance(x, (ListV, Seq, Range)):
        s = axis_of(it, x)
        return ("axis", Axis(a.space, tm.add(a.off, s.off), s.n), None)
    unsup(f"positional selection by {type(x).__name__}")


def index_get(it, ind, i):
    o = ind.obj
    c = it.D(o)
    sel = sel_label if ind.mode == "loc" else sel_pos
    if isinstance(c, Series):
        r = sel(it, c.axis, i if not (isinstance(i, tuple) and len(i) == 1) else i[0])
        if r[0] == "one":
            x = c.at(r[1])
            return uncell(it, x) if c.kind == "obj" else x
        return it.view(Series(r[1], c.fn, c.kind), o)
    if not isinstance(i, tuple):
        i = (i, SliceV(None, None, None))
    a = sel(it, c.rows, i[0])
    b = sel(it, c.cols, i[1])
    if a[0] == "one" and b[0] == "one":
        x = c.at(a[1], b[1])
        return uncell(it, x) if c.kind == "obj" else x
    if a[0] == "one":
        return it.view(Series(b[1], lambda k: c.at(a[1], k), c.kind), o)
    if b[0] == "one":
        return it.view(Series(a[1], lambda r: c.at(r, b[1]), c.kind), o)
    return it.view(Frame(a[1], b[1], c.fn, c.kind), o)


def index_set(it, ind, i, v):
    from .interp import FStore
    o = ind.obj
    c = it.D(o)
    sel = sel_label if ind.mode == "loc" else sel_pos
    if isinstance(c, Series):
        r = sel(it, c.axis, i)
        val = it.D(v)
        if r[0] == "one":
            it.write(o, Series(c.axis, lambda l: vite(tm.eq(l, r[1]), as_num(val), c.at(l)), c.kind), "series element")
            return
        unsup("series slice assignment")
    if not isinstance(i, tuple):
        i = (i, SliceV(None, None, None))
    a = sel(it, c.rows, i[0])
    b = sel(it, c.cols, i[1])
    val = it.D(v)
    if a[0] == "one" and b[0] == "axis" and b[1] is c.cols:
        if isinstance(val, Series):
            if not same_axis(it, val.axis, c.cols):
                unsup("row assignment with other labels")
            row = Series(c.cols, val.fn)
        elif isinstance(val, (Num, BoolV)):
            row = Series(c.cols, lambda k: val)
        else:
            ar = arr_of(it, val)
            ca = it.affine(c.cols)
            row = Series(c.cols, lambda k: ar.at(tm.sub(k, ca.off)) if ar.ndim else ar.at())
        it.write(o, FStore(c, a[1], row), "table row")
        return
    if isinstance(val, (Num, BoolV)):
        ra = (lambda r: tm.eq(r, a[1])) if a[0] == "one" else (lambda r: have(c.rows, a[1], r))
        ca2 = (lambda k: tm.eq(k, b[1])) if b[0] == "one" else (lambda k: have(c.cols, b[1], k))
        it.write(o, Frame(c.rows, c.cols, lambda r, k: vite(And(ra(r), ca2(k)), val, c.at(r, k)), c.kind), "table element")
        return
    unsup("table assignment")


def getitem(it, o, i):
    c = it.D(o)
    if isinstance(c, Frame):
        x = it.D(i) if not isinstance(i, (tuple, SliceV)) else i
        if isinstance(x, Frame) and x.kind == "bool":
            return elementwise(it, lambda m, v: vite(as_bool(m), v, NAN), [x, c])
        if isinstance(x, Series) and x.kind == "bool":
            r = sel_label(it, c.rows, x)
            return it.new(Frame(r[1], c.cols, c.fn, c.kind))
        if isinstance(x, SliceV):
            r = sel_pos(it, c.rows, x)
            return it.view(Frame(r[1], c.cols, c.fn, c.kind), o)
        r = sel_label(it, c.cols, x)
        if r[0] == "one":
            return it.view(Series(c.rows, lambda l: c.at(l, r[1]), c.kind), o)
        return it.view(Frame(c.rows, r[1], c.fn, c.kind), o)
    if isinstance(c, Series):
        x = it.D(i) if not isinstance(i, (tuple, SliceV)) else i
        if isinstance(x, SliceV):
            lo = it.D(x.lo) if x.lo is not None else None
            hi = it.D(x.hi) if x.hi is not None else None
            if isinstance(lo, Label) or isinstance(hi, Label):
                r = sel_label(it, c.axis, x)
            else:
                r = sel_pos(it, c.axis, x)
        elif isinstance(x, Num) and c.axis.space != "int":
            r = sel_pos(it, c.axis, x)
        else:
            r = sel_label(it, c.axis, x)
        if r[0] == "one":
            v = c.at(r[1])
            return uncell(it, v) if c.kind == "obj" else v
        return it.view(Series(r[1], c.fn, c.kind), o)
    if isinstance(c, Idx):
        a = c.axis
        x = it.D(i) if not isinstance(i, SliceV) else i
        r = sel_pos(it, a, x)
        if r[0] == "one":
            return mklabel(a, r[1])
        return it.new(Idx(r[1]))
    unsup("selection")


def setitem(it, o, i, v):
    c = it.D(o)
    if isinstance(c, Frame):
        x = it.D(i) if not isinstance(i, (tuple, SliceV)) else i
        if isinstance(x, Label) and x.space == c.cols.space:
            val = it.D(v)
            s = val if isinstance(val, Series) else None
            if s is None:
                if isinstance(val, (Num, BoolV)):
                    s = Series(c.rows, lambda l: val)
                else:
                    s = to_series(it, val, it.affine(c.rows))
            it.write(o, Frame(c.rows, c.cols, lambda r, k: vite(tm.eq(k, x.t), vite(have(c.rows, s.axis, r), s.at(r), NAN), c.at(r, k)), c.kind), "table column")
            return
        if isinstance(x, Frame) and x.kind == "bool":
            val = it.D(v)
            it.write(o, Frame(c.rows, c.cols, lambda r, k: vite(as_bool(x.at(r, k)), as_num(val), c.at(r, k)), c.kind), "table elements")
            return
        unsup("column assignment")
    if isinstance(c, Series):
        x = it.D(i) if not isinstance(i, SliceV) else i
        val = it.D(v)
        if isinstance(x, Series) and x.kind == "bool":
            it.write(o, Series(c.axis, lambda l: vite(as_bool(x.at(l)), as_num(val), c.at(l)), c.kind), "series elements")
            return
        t = label_coord(it, c.axis, x, False)
        it.write(o, Series(c.axis, lambda l: vite(tm.eq(l, t), as_num(val), c.at(l)), c.kind), "series element")
        return
    unsup("assignment")


# ---------------------------------------------------------------- methods
def _opt(it, kw, args, name, pos, dflt=None):
    if name in kw:
        return it.D(kw[name])
    if len(args) > pos:
        return it.D(args[pos])
    return dflt


def _ax(it, kw, args, pos, dflt=0):
    v = _opt(it, kw, args, "axis", pos, None)
    if v is None:
        return dflt
    if isinstance(v, str):
        return 0 if v in ("index", "rows") else 1
    return int(tm.cval(v.r))


def map_table(it, o, f, kind=None):
    c = it.D(o)
    if isinstance(c, Frame):
        return it.new(Frame(c.rows, c.cols, lambda r, k: f(c.at(r, k)), kind or c.kind))
    return it.new(Series(c.axis, lambda l: f(c.at(l)), kind or c.kind))


def _ewm_stat(it, o, stat):
    """weighted mean (or standard deviation, bias corrected) of all values so far, the weights decaying exponentially into the
    past (complete data)"""
    e = it.D(o)
    c = it.D(e.obj)
    frame = isinstance(c, Frame)
    a = it.affine(c.rows if frame else c.axis)
    q = [tm.fresh("i", "I", a.n)] + ([tm.fresh("i")] if frame else [])
    v = c.at(tm.add(a.off, q[0]), *q[1:])
    ok = [tm.ge(q[0], ZERO), tm.lt(q[0], a.n)]
    if not isinstance(v, Num) or it.simp(Or(v.nan, v.inf), ok) is not FALSE:
        unsup("ewm of missing values")

    def f(r, *k):
        n = tm.add(tm.sub(r, a.off), ONE)
        s, u = tm.fresh("s", "I", n), tm.fresh("s", "I", n)
        w = lambda s: tm.exp(tm.mul(e.rate, tm.sub(tm.sub(r, a.off), s)))
        tot = tm.mk_sum(u, n, w(u))
        x = lambda s: c.at(tm.add(a.off, s), *k).r
        mean = tm.div(tm.mk_sum(s, n, tm.mul(w(s), x(s))), tot)
        few = tm.lt(n, e.least) if not tm.is_const(e.least) or tm.cval(e.least) > 1 else FALSE
        if stat == "mean":
            return Num(mean, few)
        s2, u2 = tm.fresh("s", "I", n), tm.fresh("s", "I", n)
        dev = tm.sub(x(s2), mean)
        spread = tm.mk_sum(s2, n, tm.mul(w(s2), dev, dev))
        left = tm.sub(tm.ipow(tot, 2), tm.mk_sum(u2, n, tm.ipow(w(u2), 2)))
        v = Num(tm.div(tm.mul(tot, spread), left), Or(tm.le(n, ONE), few))          # left > 0 from two values on
        lib_np.nonneg_values.add(v.r)          # a mean of squares
        return Num(tm.sqrt(v.r), v.nan, v.inf) if stat == "std" else v
    return it.new(Frame(a, c.cols, f) if frame else Series(a, f))


for _st in ("mean", "std", "var"):
    def _(it, o, args, kw, _st=_st):
        if args or kw:
            unsup("ewm options")
        return _ewm_stat(it, o, _st)
    method("ewm", _st)(_)


for _c in ("Frame", "Series"):
    method(_c, "isna", "isnull")(lambda it, o, args, kw: map_table(it, o, lambda x: BoolV(is_missing(x)), "bool"))
    method(_c, "notna", "notnull")(lambda it, o, args, kw: map_table(it, o, lambda x: BoolV(Not(is_missing(x))), "bool"))
    method(_c, "copy")(lambda it, o, args, kw: map_table(it, o, lambda x: x))
    method(_c, "astype")(lambda it, o, args, kw: unsup("conversion to truth values") if it.element_type == "bool" else map_table(it, o, lambda x: _number_cell(it, x), "num" if getattr(it.D(o), "kind", "num") == "obj" else None))
    method(_c, "abs")(lambda it, o, args, kw: map_table(it, o, lambda x: lib_np.n_abs(as_num(x))))

    @method(_c, "bfill", "backfill")
    def _(it, o, args, kw):
        c = it.D(o)
        frame = isinstance(c, Frame)
        ix = [tm.fresh("l"), tm.fresh("c")][:2 if frame else 1]
        inside = [a.has(x) for a, x in zip((c.rows, c.cols) if frame else (c.axis,), ix)]
        if not args and not kw and it.simp(is_missing(c.at(*ix)), inside) is FALSE:
            return map_table(it, o, lambda x: x)
        unsup("filling missing values backwards")

    @method(_c, "ffill", "pad")
    def _(it, o, args, kw):
        """missing values replaced by the last known one above (at most `limit` rows above)"""
        c = it.D(o)
        frame = isinstance(c, Frame)
        ix = [tm.fresh("l"), tm.fresh("c")][:2 if frame else 1]
        inside = [a.has(x) for a, x in zip((c.rows, c.cols) if frame else (c.axis,), ix)]
        lim = it.D(kw["limit"]) if "limit" in kw else None
        if args or any(k != "limit" and not (k == "axis" and as_num(it.D(v)).r is ZERO) for k, v in kw.items()):
            unsup("filling missing values")
        if it.simp(is_missing(c.at(*ix)), inside) is FALSE:
            return map_table(it, o, lambda x: x)
        if getattr(c, "kind", "num") != "num":
            unsup("filling missing values")
        a = it.affine(c.rows if frame else c.axis)
        if lim is not None:
            if not isinstance(lim, Num) or not tm.is_const(lim.r) or not 0 < tm.cval(lim.r) <= 4:
                unsup("filling missing values")

            def cell(r, rest, m):
                x = c.at(r, *rest)
                if m == 0:
                    return x
                return vite(And(x.nan, tm.gt(r, a.off)), cell(tm.sub(r, ONE), rest, m - 1), x)
            at = lambda r, *rest: cell(r, rest, int(tm.cval(lim.r)))
        else:
            from .interp import make_rec
            k, cols = tm.fresh("k", "I"), ix[1:]
            x0, x = c.at(a.off, *cols), c.at(tm.add(a.off, k), *cols)
            if it.simp(x.inf, []) is not FALSE or it.simp(x0.inf, []) is not FALSE:
                unsup("filling infinite values")
            nm = f"ph!{next(tm._fresh)}"
            f = make_rec(k, list(cols), x0.r, tm.ite(x.nan, tm._app(nm, tuple(cols), "R"), x.r), nm)

            def at(r, *rest):
                q = tm.sub(r, a.off)
                s = tm.fresh("s", "I", tm.add(q, ONE))
                return Num(f(q, rest), tm.Forall(s, tm.add(q, ONE), c.at(tm.add(a.off, s), *rest).nan))
        return it.new(Frame(a, c.cols, at) if frame else Series(a, at))

    @method(_c, "clip")
    def _(it, o, args, kw):
        lo, hi = _opt(it, kw, args, "lower", 0), _opt(it, kw, args, "upper", 1)
        for k in kw:
            if k not in ("lower", "upper", "axis"):
                unsup("clip options")
        axis = _ax(it, kw, args, 2, None)
        if isinstance(it.D(o), Frame) and axis != 1 and any(isinstance(it.D(x), Series) for x in (lo, hi)):
            unsup("clip by a series along the rows")

        def f(x, *b):
            b = list(b)
            r = as_num(x)
            # missing values stay; NaN thresholds mean no clipping
            y = r
            if lo is not None:
                l = as_num(b.pop(0))
                y = vite(Not(l.nan), lib_np.n_max(y, Num(l.r, FALSE, l.inf)), y)
            if hi is not None:
                h = as_num(b.pop(0))
                y = vite(Not(h.nan), lib_np.n_min(y, Num(h.r, FALSE, h.inf)), y)
            return y
        return elementwise(it, f, [it.D(o)] + [x for x in (lo, hi) if x is not None])

    @method(_c, "fillna")
    def _(it, o, args, kw):
        v = _opt(it, kw, args, "value", 0)
        for k in kw:
            if k != "value":
                unsup("fillna options")
        if not isinstance(v, Num):
            if isinstance(v, Series):
                return elementwise(it, lambda x, y: vite(as_num(x).nan, y, x), [it.D(o), v])
            unsup("fillna value")
        r = map_table(it, o, lambda x: vite(x.nan, v, x))
        from .interp import let_table
        return it.new(let_table(it, it.D(r)))

    @method(_c, "shift")
    def _(it, o, args, kw):
        p = _opt(it, kw, args, "periods", 0, num(1))
        if any(k != "periods" for k in kw):
            unsup("shift options")
        c = it.D(o)
        t = as_num(p).r
        if isinstance(c, Frame):
            a = it.affine(c.rows)
            return it.new(Frame(a, c.cols, lambda r, k: vite(And(tm.ge(tm.sub(r, t), a.off), tm.lt(tm.sub(r, t), tm.add(a.off, a.n))), c.at(tm.sub(r, t), k), missing_like(c.kind)), c.kind))
        a = it.affine(c.axis)
        return it.new(Series(a, lambda r: vite(And(tm.ge(tm.sub(r, t), a.off), tm.lt(tm.sub(r, t), tm.add(a.off, a.n))), c.at(tm.sub(r, t)), missing_like(c.kind)), c.kind))

    @method(_c, "ewm")
    def _(it, o, args, kw):
        kw = dict(kw)
        if args:
            kw["com"] = args[0]
        least = it.D(kw.pop("min_periods", None))
        if len(args) > 1 or len(kw) != 1 or least is not None and (not isinstance(least, Num) or least.r.sort != "I"):
            unsup("ewm options")
        (k, v), = kw.items()
        x = as_num(v).r
        if k == "com":
            g = tm.div(x, tm.add(ONE, x))
        elif k == "span":
            g = tm.div(tm.sub(x, ONE), tm.add(x, ONE))
        elif k == "alpha":
            g = tm.sub(ONE, x)
        elif k == "halflife":
            g = None
        else:
            unsup("ewm options")
        rate = tm.div(tm.log(tm.const(Fraction(1, 2))), x) if g is None else tm.log(g)
        if k in ("com", "halflife"):
            it.raise_if(tm.le(x, ZERO) if k == "halflife" else tm.lt(x, ZERO), "ValueError")
        return Opaque("ewm", obj=o, rate=rate, least=ZERO if least is None else least.r)

    @method(_c, "truncate")
    def _(it, o, args, kw):
        lo, hi = kw.get("before", args[0] if args else None), kw.get("after", args[1] if len(args) > 1 else None)
        c = it.D(o)
        r = sel_label(it, c.rows if isinstance(c, Frame) else c.axis, SliceV(lo, hi, None))
        if isinstance(c, Frame):
            return it.new(Frame(r[1], c.cols, c.fn, c.kind))
        return it.new(Series(r[1], c.fn, c.kind))

    @method(_c, "head")
    def _(it, o, args, kw):
        return index_get(it, Opaque("indexer", mode="iloc", obj=o), SliceV(None, _opt(it, kw, args, "n", 0, num(5)), None))

    @method(_c, "tail")
    def _(it, o, args, kw):
        k = as_num(_opt(it, kw, args, "n", 0, num(5))).r
        if not it.prove(tm.ge(k, ONE)):
            unsup("tail of no rows")
        c = it.D(o)
        ax = c.rows if isinstance(c, Frame) else c.axis
        lo = tm.tmax(ZERO, tm.sub(it.affine(ax).n, k))
        return index_get(it, Opaque("indexer", mode="iloc", obj=o), SliceV(Num(lo), None, None))

    @method(_c, "dot")
    def _(it, o, args, kw):
        return it.binop("MatMult", o, args[0])

    for _m, _op in (("sub", "Sub"), ("subtract", "Sub"), ("add", "Add"), ("mul", "Mult"), ("multiply", "Mult"), ("div", "Div"), ("divide", "Div"), ("truediv", "Div"), ("pow", "Pow")):
        def _arith(it, o, args, kw, _op=_op):
            ax = _opt(it, kw, args, "axis", 1, None)
            c, b = it.D(o), it.D(args[0])
            if isinstance(c, Frame) and isinstance(b, Series) and (ax in ("index", "rows") or (isinstance(ax, Num) and tm.is_const(ax.r) and tm.cval(ax.r) == 0)):
                return transpose(it, it.binop(_op, transpose(it, o), args[0]))
            if any(k not in ("axis",) for k in kw):
                unsup("arithmetic method options")
            return it.binop(_op, o, args[0])
        method(_c, _m)(_arith)

    def _where(it, o, args, kw, keep):
        if any(k not in ("other", "cond") for k in kw):
            unsup("where/mask options")
        args = list(args) or [kw["cond"]]
        other = args[1] if len(args) > 1 else kw.get("other", NAN)
        if isinstance(it.D(args[0]), Fn):
            unsup("where with a function")
        return elementwise(it, lambda x, c, y: vite(as_bool(c) if keep else Not(as_bool(c)), x, as_num(y)),
                           [it.D(o), it.D(args[0]), it.D(other)])

    method(_c, "where")(lambda it, o, args, kw: _where(it, o, args, kw, True))
    method(_c, "mask")(lambda it, o, args, kw: _where(it, o, args, kw, False))


@method("Frame", "dropna")
def _(it, o, args, kw):
    c = it.D(o)
    how = _opt(it, kw, [], "how", 0, "any")
    axis = _ax(it, kw, args, 0, 0)
    for k in kw:
        if k not in ("how", "axis"):
            unsup("dropna options")
    if axis == 1:
        return transpose(it, METHODS[("Frame", "dropna")](it, transpose(it, o), [], {"how": how}))

    def cond(l):
        ca = it.affine(c.cols)
        v = tm.fresh("c", "I", ca.n)
        x = is_missing(c.at(l, tm.add(ca.off, v)))
        return tm.Exists(v, ca.n, Not(x)) if how == "all" else tm.Forall(v, ca.n, Not(x))
    return it.new(Frame(it.filter_axis(c.rows, cond), c.cols, c.fn, c.kind))


@method("Series", "dropna")
def _(it, o, args, kw):
    c = it.D(o)
    return it.new(Series(it.filter_axis(c.axis, lambda l: Not(is_missing(c.at(l)))), c.fn, c.kind))


def reduce_frame(it, c, axis, red):
    """red(v, n, x) over rows (axis 0) or columns (axis 1)"""
    if axis == 0:
        a = it.affine(c.rows)

        def f(k):
            v = tm.fresh("r", "I", a.n)
            return red(v, a.n, c.at(tm.add(a.off, v), k))
        return it.new(Series(c.cols, f))
    a = it.affine(c.cols)

    def f(r):
        v = tm.fresh("c", "I", a.n)
        return red(v, a.n, c.at(r, tm.add(a.off, v)))
    return it.new(Series(c.rows, f))


def reduce_series(it, c, red):
    a = it.affine(c.axis)
    v = tm.fresh("l", "I", a.n)
    return red(v, a.n, c.at(tm.add(a.off, v)))


def _mkred(name, red, kind=None):
    @method("Frame", name)
    def g(it, o, args, kw):
        r = reduce_frame(it, it.D(o), _ax(it, kw, args, 0, 0), red)
        if kind:
            it.D(r).kind = kind
        return r

    @method("Series", name)
    def h(it, o, args, kw):
        c = it.D(o)
        if "axis" in kw or args:                       # a series has one axis
            ax = it.D(kw["axis"] if "axis" in kw else args[0])
            if not (isinstance(ax, Num) and ax.r is ZERO) and ax != "index":
                unsup("axis of a series")
        if name == "sum" and not args and not kw:
            v = tm.fresh("l", "I", it.affine(c.axis).n)
            x = it.D(c.at(tm.add(it.affine(c.axis).off, v)))
            if isinstance(x, Arr) or isinstance(x, Opaque) and x.kind == "cell":       # a column of arrays
                return lib_np.BUILTINS["builtins.sum"](it, [o], {})
        return reduce_series(it, c, red)


_mkred("sum", lib_np.red_nansum)
_mkred("any", lib_np.red_any, "bool")
_mkred("all", lib_np.red_all, "bool")


def np_sum(it, o, axis):
    c = it.D(o)
    if isinstance(c, Series):
        return reduce_series(it, c, lib_np.red_nansum)
    if axis is None:
        axis = 0
    return reduce_frame(it, c, axis, lib_np.red_nansum)


def red_nanmean(v, n, x):
    x = as_num(x)
    if x.inf is not FALSE:
        unsup("mean of infinite values")
    if x.nan is FALSE:
        return lib_np.n_div(Num(tm.mk_sum(v, n, x.r)), Num(n))
    cnt = tm.mk_sum(v, n, tm.ite(x.nan, ZERO, ONE))
    return lib_np.n_div(Num(tm.mk_sum(v, n, tm.ite(x.nan, ZERO, x.r))), Num(cnt))


_mkred("mean", red_nanmean)


def red_std(v, n, x):
    x = as_num(x)
    if x.inf is not FALSE or x.nan is not FALSE:
        unsup("standard deviation with missing values")
    m = tm.div(tm.mk_sum(v, n, x.r), n)
    d = tm.sub(x.r, m)
    return lib_np.n_sqrt(lib_np.n_div(Num(tm.mk_sum(v, n, tm.mul(d, d))), Num(tm.sub(n, ONE))))


_mkred("std", red_std)


@method("Frame", "items", "iteritems")
def _(it, o, args, kw):
    c = it.D(o)
    a = it.affine(c.cols)
    return Seq(a.n, lambda k: (mklabel(a, tm.add(a.off, k)), Series(c.rows, lambda r, k=k: c.at(r, tm.add(a.off, k)), c.kind) if c.kind != "obj" else Series(c.rows, (lambda kk: lambda r: c.at(r, tm.add(a.off, kk)))(k), "obj")))


@method("Frame", "iterrows")
def _(it, o, args, kw):
    c = it.D(o)
    a = it.affine(c.rows)
    return Seq(a.n, lambda k: (mklabel(a, tm.add(a.off, k)), Series(c.cols, (lambda kk: lambda r: c.at(tm.add(a.off, kk), r))(k), c.kind)))


@method("Series", "items", "iteritems")
def _(it, o, args, kw):
    c = it.D(o)
    a = it.affine(c.axis)
    return Seq(a.n, lambda k: (mklabel(a, tm.add(a.off, k)), uncell(it, c.at(tm.add(a.off, k)))))


@method("Frame", "keys")
def _(it, o, args, kw):
    return it.new(Idx(it.D(o).cols))


@method("Series", "keys")
def _(it, o, args, kw):
    return it.new(Idx(it.D(o).axis))


@method("Idx", "equals")
def _(it, o, args, kw):
    a, x = it.D(o).axis, it.D(args[0])
    if not isinstance(x, (Idx, Seq)):
        unsup("index compared to " + type(x).__name__)
    b = axis_of(it, x)
    if a.same(b):
        return BoolV(TRUE)
    if a.space != b.space:
        return BoolV(FALSE)
    a, b = it.affine(a), it.affine(b)
    return BoolV(And(tm.eq(a.n, b.n), Or(tm.eq(a.off, b.off), tm.le(a.n, ZERO))))


@method("Idx", "get_loc")
def _(it, o, args, kw):
    a = it.affine(it.D(o).axis)
    t = label_coord(it, a, args[0])
    return Num(tm.sub(t, a.off))


@method("Idx", "tolist", "to_list")
def _(it, o, args, kw):
    return it.new(it.as_seq(o))


@method("Idx", "intersection")
def _(it, o, args, kw):
    return it.new(Idx(inter(it, it.D(o).axis, axis_of(it, args[0]))))


@method("Idx", "union")
def _(it, o, args, kw):
    return it.new(Idx(union(it, it.D(o).axis, axis_of(it, args[0]))))


@method("Idx", "copy")
def _(it, o, args, kw):
    return it.new(Idx(it.D(o).axis))


@method("Frame", "reindex")
def _(it, o, args, kw):
    c = it.D(o)
    ix = kw.get("index", args[0] if args else None)
    cx = kw.get("columns")
    if any(k not in ("index", "columns") for k in kw):
        unsup("reindex options")
    return it.new(reindex(it, c, c.rows if ix is None else axis_of(it, ix), c.cols if cx is None else axis_of(it, cx)))


@method("Series", "reindex")
def _(it, o, args, kw):
    c = it.D(o)
    ax = axis_of(it, args[0] if args else kw["index"])
    return it.new(Series(ax, lambda l: vite(have(ax, c.axis, l), c.at(l), missing_like(c.kind)), c.kind))


@method("Series", "to_dict")
def _(it, o, args, kw):
    c = it.D(o)
    return it.new(SymDict(c.axis, lambda l: uncell(it, c.at(l))))


@method("Frame", "to_dict")
def _(it, o, args, kw):
    c = it.D(o)
    if args or kw:
        unsup("to_dict orientation")
    return it.new(SymDict(c.cols, lambda k: SymDict(c.rows, lambda r: uncell(it, c.at(r, k)))))


@method("Series", "to_frame")
def _(it, o, args, kw):
    c = it.D(o)
    return it.new(Frame(c.axis, pos_axis(ONE), lambda r, k: c.at(r), c.kind))


@lib("pandas.concat")
def _(it, args, kw):
    items = it.concrete_items(args[0] if args else kw.get("objs"))
    axis = _ax(it, kw, args, 1, 0)
    for k in kw:
        if k not in ("objs", "axis"):
            unsup("concat options")
    fs = [it.D(x) for x in items] if items else []
    if axis != 1 or not fs or not all(isinstance(f, Frame) for f in fs):
        unsup("concat")
    if not all(same_axis(it, f.rows, fs[0].rows) for f in fs[1:]):
        unsup("concat of tables with different rows")
    # side by side; labels may repeat, so the columns are only known by position
    cols = [it.affine(f.cols) for f in fs]
    starts = [ZERO]
    for a in cols:
        starts.append(tm.add(starts[-1], a.n))

    def at(r, k):
        v = None
        for q in range(len(fs) - 1, -1, -1):
            x = fs[q].at(r, tm.add(tm.sub(k, starts[q]), cols[q].off))
            v = x if v is None else vite(tm.lt(k, starts[q + 1]), x, v)
        return v
    return it.new(Frame(fs[0].rows, Axis(f"joined{next(tm._fresh)}", ZERO, starts[-1]), at, "num" if all(f.kind == "num" for f in fs) else "obj"))


@lib("pandas.isna", "pandas.isnull")
def _(it, args, kw):
    c = it.D(args[0])
    if isinstance(c, (Frame, Series)):
        return map_table(it, args[0], lambda x: BoolV(is_missing(x)), "bool")
    return lib_np.elementwise(it, lambda x: BoolV(as_num(x).nan), args, "bool")


def _mkopaque(op):
    """reductions without laws, missing values skipped"""
    @method("Frame", op)
    def g(it, o, args, kw):
        q = op == "quantile"
        return reduce_frame(it, it.D(o), _ax(it, kw, args[1:] if q else args, 0, 0), lib_np.red_opaque(op, True, lib_np._par(it, op, kw, args if q else [], True)))

    @method("Series", op)
    def h(it, o, args, kw):
        return reduce_series(it, it.D(o), lib_np.red_opaque(op, True, lib_np._par(it, op, kw, args if op == "quantile" else [], True)))


for _op in ("max", "min", "median", "var", "quantile", "prod"):
    _mkopaque(_op)
