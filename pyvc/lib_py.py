"""Python containers and builtins."""
from __future__ import annotations

from . import terms as tm
from . import prove as pv
from .terms import TRUE, FALSE, And, Not, Or, ZERO, ONE
from .values import *
from .interp import BUILTINS, METHODS, ATTRS, CONSTS, Acc, EXC, Outcome
from .lib_np import lib, method, attr, as_num, as_bool, arr_of
from . import lib_np, lib_pd


# ---------------------------------------------------------------- subscripts
def getitem(it, o, i):
    c = it.D(o)
    if isinstance(c, Opaque) and c.kind == "indexer":
        return lib_pd.index_get(it, c, i)
    if isinstance(c, (Frame, Series, Idx)):
        return lib_pd.getitem(it, o, i)
    if (type(c).__name__, "getitem") in METHODS:
        return METHODS[(type(c).__name__, "getitem")](it, o, [i], {})
    if isinstance(c, Arr):
        return lib_np.getitem(it, o, i)
    if isinstance(c, Acc):
        return acc_getitem(it, o, c, i)
    if isinstance(c, (tuple, ListV, NT)):
        items = list(c) if isinstance(c, tuple) else list(c.vals if isinstance(c, NT) else c.items)
        if isinstance(i, SliceV):
            lo = None if i.lo is None else int(tm.cval(it.D(i.lo).r))
            hi = None if i.hi is None else int(tm.cval(it.D(i.hi).r))
            st = None if i.step is None else int(tm.cval(it.D(i.step).r))
            r = items[slice(lo, hi, st)]
            return tuple(r) if isinstance(c, tuple) else it.new(ListV(r))
        x = it.D(i)
        if isinstance(x, Num) and tm.is_const(x.r):
            k = int(tm.cval(x.r))
            if not -len(items) <= k < len(items):
                it.raise_if(TRUE, "IndexError")
            return items[k]
        if isinstance(x, Num):
            s = it.as_seq(ListV(items))
            p = lib_np.pos_index(it, x, s.n)
            lib_np.bounds_ok(it, p, s.n, "list index")
            return s.at(p)
        unsup("list index")
    if isinstance(c, Range):
        x = it.D(i)
        n = tm.sub(c.hi, c.lo)
        p = lib_np.pos_index(it, x, n)
        return Num(tm.add(c.lo, p))
    if isinstance(c, Seq):
        if c.cond is not None and not c.full():
            c = compact(it, c)
        if isinstance(i, SliceV):
            if i.step is not None:
                st = it.D(i.step)
                if tm.is_const(st.r) and tm.cval(st.r) == -1 and i.lo is None and i.hi is None:
                    n = c.n
                    return it.new(Seq(n, lambda k: c.at(tm.sub(tm.sub(n, ONE), k))))
                unsup("list slice step")
            lo, n = lib_np.slice_bounds(it, i, c.n)
            return it.new(Seq(n, lambda k: c.at(tm.add(lo, k))))
        x = it.D(i)
        p = lib_np.pos_index(it, x, c.n)
        lib_np.bounds_ok(it, p, c.n, "list index")
        v = c.at(p)
        if getattr(c, "fresh", False) and isinstance(o, Ref):
            v = it.new(v)
            it.elem[v.id] = (o, p)
        return v
    if isinstance(c, SymDict):
        t = lib_pd.label_coord(it, c.axis, it.text_label(i))
        return fetch(it, o, c.at(t), t)
    if isinstance(c, DictV):
        x = it.D(i) if not isinstance(i, tuple) else i
        for k, v in c.items:
            if ident(it.D(k) if isinstance(k, Ref) else k, x):
                return v
        if isinstance(x, str) and all(isinstance(k, str) for k, _ in c.items):
            it.raise_if(TRUE, "KeyError")
        if isinstance(x, Label):
            for k, v in c.items:
                k = it.D(k) if isinstance(k, Ref) else k
                d = it.decide(tm.eq(k.t, x.t)) if isinstance(k, Label) and k.space == x.space else None
                if d is True:
                    return v
                if d is None:
                    break
        unsup("dictionary lookup")
    unsup(f"subscript of {type(c).__name__}")


def acc_getitem(it, o, c, i):
    """reading a container that is being filled in a loop"""
    x = it.D(i) if not isinstance(i, SliceV) else unsup("slice of a list under construction")
    if c.kind == "dict" and isinstance(c.base, SymDict) and isinstance(x, Label) and x.space == c.base.axis.space:
        for cond, key, v in reversed(c.adds):
            if cond is TRUE and isinstance(key, Label) and key.t is x.t:
                return v
            unsup("reading a dictionary after changing it in the same iteration")
        c.reads.append(x)
        return fetch(it, o, c.base.at(lib_pd.label_coord(it, c.base.axis, x)))
    if c.kind == "list" and isinstance(x, Num):
        # element -1 = the last one appended (index len(base)+j-1)
        n0 = tm.const(len(c.base.items))
        if not c.adds:
            cur = tm.add(n0, c.j)
        else:
            unsup("reading a list after appending to it in the same iteration")
        p = lib_np.pos_index(it, x, cur)
        if not c.base.items:
            unsup("reading an empty list under construction")
        b0 = it.freeze(c.base.items[-1])
        if isinstance(b0, Arr):
            return it.new(Arr(b0.shape, lambda *q: Num(tm._app(c.ph + "@", (p,) + q, "R")), b0.kind))
        if isinstance(b0, Num):
            return Num(tm._app(c.ph + "@", (p,), "R"))
    unsup("reading a container under construction")


def setitem(it, o, i, v):
    c = it.D(o)
    if isinstance(c, Opaque) and c.kind == "indexer":
        return lib_pd.index_set(it, c, i, v)
    if isinstance(c, (Frame, Series)):
        return lib_pd.setitem(it, o, i, v)
    if isinstance(c, Arr):
        return lib_np.setitem(it, o, i, v)
    if isinstance(c, Acc):
        if c.kind != "dict":
            unsup("item assignment on a list under construction")
        r = Acc(c.base, c.kind)
        r.ph, r.j = c.ph, c.j
        if hasattr(c, "reads"):
            r.reads = c.reads
        key = it.D(i) if not isinstance(i, (tuple, str)) else i
        r.adds = c.adds + ((TRUE, key, it.freeze(v)),)
        it.write(o, r, "dictionary")
        return
    if isinstance(c, ListV):
        x = it.D(i)
        if isinstance(x, Num) and tm.is_const(x.r):
            items = list(c.items)
            items[int(tm.cval(x.r))] = v
            it.write(o, ListV(items), "list")
            return
        unsup("list item assignment")
    if isinstance(c, SymDict):
        key = it.text_label(it.D(i) if not isinstance(i, (tuple, str)) else i)
        if not isinstance(key, Label) or key.space != c.axis.space:
            unsup("key of a dictionary")
        if it.writes is not None:
            if not isinstance(o, Ref):
                unsup("in-place update of an entry")
            raise NeedCarry((o.id, None))
        if not it.prove(c.axis.has(key.t), timeout=3000, unfold=1):
            unsup("new key of a dictionary")
        v = it.freeze(v)
        it.write(o, SymDict(c.axis, lambda l: vite(tm.eq(l, key.t), it.D(v), it.D(c.at(l)))), "dictionary")
        return
    if isinstance(c, DictV):
        if it.writes is not None and not isinstance(i, str):
            # may be inside a symbolic loop: carry as accumulator when the key is symbolic
            pass
        key = it.D(i) if not isinstance(i, (tuple, str)) else i
        items = list(c.items)
        for n, (k, _) in enumerate(items):
            if ident(k, key):
                items[n] = (k, v)
                it.write(o, DictV(items), "dictionary")
                return
        if items and not isinstance(key, str):
            unsup("dictionary item assignment")
        if isinstance(key, (Label, Num, StrV)) and it.writes is not None:
            # inside a loop body: needs the accumulator treatment
            raise NeedCarry((o.id, None))
        it.write(o, DictV(items + [(key, v)]), "dictionary")
        return
    unsup(f"item assignment on {type(c).__name__}")


def compact(it, s):
    """filtered sequence as a plain one (filter must be a final segment)"""
    j = tm.fresh("l")
    ax = it.filter_axis(lib_pd.Axis("pos", ZERO, s.n), lambda l: s.present(l))
    a = it.affine(ax)
    return Seq(a.n, lambda k: s.at(tm.add(a.off, k)))


def _interp_compact(self, s):
    return compact(self, s)


from .interp import Interp  # noqa: E402

Interp.compact = _interp_compact


def contains(it, cont, x):
    c = it.D(cont)
    v = it.D(x)
    if isinstance(c, (tuple, ListV)):
        items = c if isinstance(c, tuple) else c.items
        ts = []
        for y in items:
            ts.append(it.truth(it.compare("Eq", y, v)))
        return Or(*ts)
    if isinstance(c, DictV):
        ts = []
        for k, _ in c.items:
            ts.append(it.truth(it.compare("Eq", k, v)))
        return Or(*ts)
    ax = None
    if isinstance(c, SymDict):
        ax = c.axis
    elif isinstance(c, Idx):
        ax = c.axis
    elif isinstance(c, Series):
        ax = c.axis
    elif isinstance(c, Frame):
        ax = c.cols
    elif isinstance(c, Opaque) and c.kind == "keys":
        ax = c.axis
    elif isinstance(c, Seq):
        ax = lib_pd.axis_of(it, c)
    if ax is not None:
        if isinstance(v, Label) and v.space != ax.space:
            return FALSE
        t = lib_pd.label_coord(it, ax, v, False)
        return ax.has(t)
    unsup(f"membership in {type(c).__name__}")


def compare(it, op, ca, cb):
    if op not in ("Eq", "NotEq"):
        unsup("ordering of containers")
    t = None

    def ax(c):
        if isinstance(c, Opaque) and c.kind == "keys":
            return c.axis
        return None
    if ax(ca) is not None and ax(cb) is not None:
        a, b = ax(ca), ax(cb)
        if a.same(b):
            t = TRUE
        elif a.space == b.space and a.off is not None and b.off is not None:
            t = And(tm.eq(a.off, b.off), tm.eq(a.n, b.n))
            t = Or(t, And(tm.le(a.n, ZERO), tm.le(b.n, ZERO)))
        else:
            unsup("comparison of key sets")
    else:
        try:
            sa, sb = it.as_seq(ca), it.as_seq(cb)
        except Unsupported:
            raise
        if (sa.cond is not None and not sa.full()) or (sb.cond is not None and not sb.full()):
            unsup("comparison of filtered sequences")
        v = tm.fresh("q", "I", sa.n)
        e = it.truth(it.compare("Eq", sa.at(v), sb.at(v))) if not (sa.n is ZERO or sb.n is ZERO) else TRUE
        t = And(tm.eq(sa.n, sb.n), tm.Forall(v, sa.n, e))
    return BoolV(t if op == "Eq" else Not(t))


def seq_binop(it, op, a, b, ca, cb):
    if op == "Add":
        if isinstance(ca, (ListV, tuple)) and isinstance(cb, (ListV, tuple)):
            ia, ib = (ca if isinstance(ca, tuple) else ca.items), (cb if isinstance(cb, tuple) else cb.items)
            r = tuple(ia) + tuple(ib)
            return r if isinstance(ca, tuple) else it.new(ListV(r))
        if isinstance(ca, (ListV, Seq)) and isinstance(cb, (ListV, Seq)):
            sa, sb = it.as_seq(ca), it.as_seq(cb)
            if (sa.cond is not None and not sa.full()):
                sa = compact(it, sa)
            if (sb.cond is not None and not sb.full()):
                sb = compact(it, sb)
            if sa.n is ZERO:
                return it.new(sb)
            if sb.n is ZERO:
                return it.new(sa)
            # two runs of consecutive labels
            try:
                j = tm.fresh("j")
                x, y = sa.at(j), sb.at(j)
                if isinstance(x, Label) and isinstance(y, Label) and x.space == y.space:
                    lx, ly = tm._lin_in(x.t, j), tm._lin_in(y.t, j)
                    if lx and ly and lx[0] == ly[0] == 1:
                        cont = tm.eq(tm.add(lx[1], sa.n), ly[1])
                        if it.decide(Or(cont, tm.le(sa.n, ZERO), tm.le(sb.n, ZERO))) is True:
                            off = lx[1]
                            if it.decide(Or(cont, tm.le(sb.n, ZERO))) is not True:
                                off = tm.sub(ly[1], sa.n)      # the first run may be empty
                            return it.new(Seq(tm.add(sa.n, sb.n), lambda k: Label(x.space, tm.add(off, k))))
            except Unsupported:
                pass
            na = sa.n
            return it.new(Seq(tm.add(na, sb.n), lambda k: vite(tm.lt(k, na), sa.at(k), sb.at(tm.sub(k, na)))))
    if op == "Mult":
        x, n = (ca, cb) if isinstance(cb, Num) else (cb, ca)
        if isinstance(n, Num) and isinstance(x, ListV) and len(x.items) == 1:
            e = it.freeze(x.items[0])
            return it.new(Seq(tm.tmax(n.r, ZERO), lambda k: e))
    return None


def unzip(it, v):
    """zip(*seq of tuples)"""
    s = it.as_seq(v)
    j = tm.fresh("j", "I", s.n)
    e = s.at(j)
    if not isinstance(e, (tuple, NT)):
        unsup("zip(*...) of non-tuples")
    m = len(e) if isinstance(e, tuple) else len(e.vals)
    cols = [Seq(s.n, lambda k, q=q: (s.at(k) if isinstance(s.at(k), tuple) else s.at(k).vals)[q], s.cond) for q in range(m)]
    return tuple(cols)


# ---------------------------------------------------------------- builtins
@lib("builtins.len")
def _(it, args, kw):
    c = it.D(args[0])
    if isinstance(c, (tuple,)):
        return num(len(c))
    if isinstance(c, (ListV, DictV)):
        return num(len(c.items))
    if isinstance(c, NT):
        return num(len(c.vals))
    if isinstance(c, str):
        return num(len(c))
    if isinstance(c, Seq):
        if c.cond is not None and not c.full():
            return Num(compact(it, c).n)
        return Num(c.n)
    if isinstance(c, Arr):
        it.no_one(c)
        return Num(c.shape[0])
    if isinstance(c, (SymDict, Series, Idx)):
        return Num(lib_pd.axis_len(it, c.axis))
    if isinstance(c, Frame):
        return Num(lib_pd.axis_len(it, c.rows))
    if isinstance(c, Opaque) and c.kind == "keys":
        return Num(lib_pd.axis_len(it, c.axis))
    if isinstance(c, Range):
        return Num(tm.tmax(tm.sub(c.hi, c.lo), ZERO))
    if isinstance(c, Opaque) and c.kind == "wsize":
        return c
    unsup(f"len of {type(c).__name__}")


def wsize_compare(it, op, c, n):
    t = n.r
    if tm.is_const(t) and tm.cval(t) == 0 and op in ("Gt", "NotEq"):
        return BoolV(c.ex)
    if tm.is_const(t) and tm.cval(t) == 0 and op in ("Eq", "LtE"):
        return BoolV(Not(c.ex))
    if tm.is_const(t) and tm.cval(t) == 1 and op == "GtE":
        return BoolV(c.ex)
    unsup("size of an index set")


_old_compare = lib_np.compare


def _compare(it, op, a, b):
    ca, cb = it.D(a), it.D(b)
    if isinstance(ca, Opaque) and ca.kind == "wsize" and isinstance(cb, Num):
        return wsize_compare(it, op, ca, cb)
    return _old_compare(it, op, a, b)


lib_np.compare = _compare


@lib("builtins.range")
def _(it, args, kw):
    xs = [as_num(it.D(a)).r for a in args]
    if len(xs) == 1:
        return Range(ZERO, xs[0])
    if len(xs) == 2:
        return Range(xs[0], xs[1])
    if tm.is_const(xs[2]) and tm.cval(xs[2]) == 1:
        return Range(xs[0], xs[1])
    return step_range(it, *xs)


def step_range(it, lo, hi, step):
    """range(lo, hi, step), step >= 1: element k is lo + k step, ceil((hi - lo) / step) elements"""
    if step.sort != "I" or it.decide(tm.ge(step, ONE)) is not True:
        unsup("range step")
    top = tm.add(hi, tm.scale(lo, -1), step, tm.const(-1))
    n = tm._app("floordiv", (top, step), "I")
    it.hyps.append(And(tm.le(tm.mul(n, step), top), tm.lt(top, tm.mul(tm.add(n, ONE), step))))
    if it.decide(tm.ge(hi, lo)) is not True:
        n = tm.tmax(n, ZERO)
    else:
        it.hyps.append(tm.ge(n, ZERO))

    def at(k):
        x = tm.add(lo, tm.mul(k, step))
        it.hyps.append(tm.Implies(And(tm.ge(k, ZERO), tm.lt(k, n)), And(tm.lt(x, hi), tm.ge(x, lo))))
        return Num(x)
    return Seq(n, at)


@lib("builtins.enumerate")
def _(it, args, kw):
    st = as_num(it.D(args[1] if len(args) > 1 else kw.get("start", num(0)))).r
    conc = it.concrete_items(args[0])
    if conc is not None:
        return tuple((Num(tm.add(st, tm.const(k))), v) for k, v in enumerate(conc))
    s = it.as_seq(args[0])
    if s.cond is not None and not s.full():
        s = compact(it, s)
    return Seq(s.n, lambda k: (Num(tm.add(st, k)), s.at(k)))


@lib("builtins.zip")
def _(it, args, kw):
    conc = [it.concrete_items(a) for a in args]
    if all(c is not None for c in conc):
        return tuple(zip(*conc))
    seqs = [it.as_seq(a) for a in args]
    seqs = [compact(it, s) if s.cond is not None and not s.full() else s for s in seqs]
    n = seqs[0].n
    for s in seqs[1:]:
        if s.n is not n:
            d = it.decide(tm.le(n, s.n))
            if d is True:
                continue
            if it.decide(tm.le(s.n, n)) is True:
                n = s.n
            else:
                n = tm.tmin(n, s.n)
    return Seq(n, lambda k: tuple(s.at(k) for s in seqs))


@lib("builtins.list", "builtins.iter")
def _(it, args, kw):
    if not args:
        return it.new(ListV(()))
    c = it.D(args[0])
    if isinstance(c, (tuple, ListV)):
        return it.new(ListV(c if isinstance(c, tuple) else c.items))
    if isinstance(c, DictV):
        return it.new(ListV([k for k, _ in c.items]))
    return it.new(unowned(it, args[0]))


def unowned(it, o):
    """the elements of a list, now also reachable from elsewhere"""
    s = it.as_seq(o)
    if getattr(s, "fresh", False):
        if isinstance(o, Ref):
            it.stored.add(o.id)
        return Seq(s.n, s.fn, s.cond)
    return s


@lib("builtins.set", "builtins.frozenset")
def _(it, args, kw):
    return Opaque("setof", ax=lib_pd.axis_of(it, args[0]))


@method("setof", "issubset")
def _(it, o, args, kw):
    a = it.D(o).ax
    x = it.D(args[0])
    b = x.ax if isinstance(x, Opaque) and x.kind == "setof" else lib_pd.axis_of(it, x)
    if lib_pd.subset(it, a, b):
        return BoolV(TRUE)
    if a.space != b.space:
        return BoolV(FALSE)
    return BoolV(Not(lib_pd._not_subset(a, b)))


@method("setof", "issuperset")
def _(it, o, args, kw):
    x = it.D(args[0])
    return METHODS[("setof", "issubset")](it, Opaque("setof", ax=x.ax if isinstance(x, Opaque) and x.kind == "setof" else lib_pd.axis_of(it, x)), [o], {})


@lib("builtins.sorted")
def _(it, args, kw):
    if args and getattr(it.D(args[0]), "appearance", False):
        unsup("labels in order")
    if kw:
        unsup("sorted options")
    s = it.as_seq(args[0])
    j = tm.fresh("j", "I", s.n)
    e = s.at(j)
    if isinstance(e, Label):
        from .lib_np import UNORDERED
        lin = tm._lin_in(e.t, j)
        if lin and lin[0] == 1 and e.space not in UNORDERED:
            return it.new(s)
    unsup("sorted")


@lib("builtins.tuple")
def _(it, args, kw):
    c = it.D(args[0]) if args else ()
    if isinstance(c, tuple):
        return c
    if isinstance(c, ListV):
        return tuple(c.items)
    return it.as_seq(args[0])


@lib("builtins.dict", "collections.OrderedDict")
def _(it, args, kw):
    if kw:
        return it.new(DictV([(k, v) for k, v in kw.items()]))
    if not args:
        return it.new(DictV())
    c = it.D(args[0])
    if isinstance(c, (DictV, SymDict)):
        return it.new(c)
    if isinstance(c, (tuple, ListV)):
        items = c if isinstance(c, tuple) else c.items
        return it.new(DictV([tuple(it.unpack(x, 2)) for x in items]))
    if isinstance(c, Series):
        return it.new(SymDict(c.axis, lambda l: lib_pd.uncell(it, c.at(l))))
    return it.new(it.dict_of_seq(it.as_seq(args[0])))


def reduce_add(it, start, seq):
    """start + sum of a sequence of numbers / arrays / tables"""
    if seq.cond is not None and not seq.full():
        seq = compact(it, seq)
    v = tm.fresh("k", "I", seq.n)
    pc0 = list(it.pc)
    it.pc = it.pc + [tm.lt(v, seq.n)]
    e = it.D(seq.at(v))
    it.pc = pc0
    if isinstance(e, (Num, BoolV)):
        return lib_np.n_add(as_num(start), lib_np.fsum(v, seq.n, as_num(e)))
    if isinstance(e, Arr):
        for s in e.shape:
            if v in s.fv:
                unsup("sum of arrays of different shapes")
        n = seq.n
        # an empty sum is the number 0
        if it.decide(tm.ge(n, ONE)) is not True:
            it.obs.append(("assume", "python sum over at least one array"))

        def at(*i):
            w = tm.fresh("k", "I", n)
            return lib_np.fsum(w, n, as_num(it.D(seq.at(w)).at(*i)))
        r = it.new(Arr(e.shape, at))
        if isinstance(start, Num) and start.r is ZERO and start.nan is FALSE:
            return r
        return it.binop("Add", start, r)
    if isinstance(e, (Frame, Series)):
        if v in lib_pd._axis_fv(e.rows if isinstance(e, Frame) else e.axis):
            unsup("sum of tables with different labels")
        n = seq.n

        def at2(*i):
            w = tm.fresh("k", "I", n)
            return lib_np.fsum(w, n, as_num(it.D(seq.at(w)).at(*i)))
        if isinstance(e, Frame):
            return it.new(Frame(e.rows, e.cols, at2))
        return it.new(Series(e.axis, at2))
    unsup(f"sum of {type(e).__name__}")


@lib("builtins.sum")
def _(it, args, kw):
    start = it.D(args[1]) if len(args) > 1 else it.D(kw.get("start", num(0)))
    conc = it.concrete_items(args[0])
    if conc is not None:
        r = start
        for x in conc:
            r = it.binop("Add", r, x)
        return r
    c = it.D(args[0])
    if isinstance(c, Series):
        s = lib_pd.seq_of_series(it, c)
    else:
        s = it.as_seq(args[0])
    return reduce_add(it, start, s)


def _minmax(name, f):
    @lib("builtins." + name)
    def g(it, args, kw):
        if kw:
            unsup("min/max options")
        if len(args) == 1:
            c = it.concrete_items(args[0])
            if c is None:
                unsup("min/max of a symbolic sequence")
            args = c
        r = as_num(it.D(args[0]))
        for x in args[1:]:
            y = as_num(it.D(x))
            # python min/max keep the first on ties / unordered; equal for finite numbers
            if r.nan is not FALSE or y.nan is not FALSE:
                unsup("min/max of NaN")
            t = f(r, y)
            d = it.decide(tm.le(r.r, y.r)) if r.inf is FALSE and y.inf is FALSE else None
            if d is True:
                t = r if name == "min" else y
            elif d is None and r.inf is FALSE and y.inf is FALSE and it.decide(tm.ge(r.r, y.r)) is True:
                t = y if name == "min" else r
            r = t
        return r


_minmax("min", lib_np.n_min)
_minmax("max", lib_np.n_max)


@lib("builtins.abs")
def _(it, args, kw):
    return lib_np.elementwise(it, lambda x: lib_np.n_abs(as_num(x)), args)


@lib("builtins.float")
def _(it, args, kw):
    c = it.D(args[0])
    if isinstance(c, str):
        return {"nan": NAN, "inf": CONSTS["np.inf"]}.get(c) or unsup("float of a string")
    if isinstance(c, Arr):
        return c.at(*[ZERO] * c.ndim)
    return as_num(c)


@lib("builtins.int")
def _(it, args, kw):
    x = as_num(it.D(args[0]))
    if x.r.sort == "I":
        return x
    unsup("truncation to an integer")


@lib("builtins.bool")
def _(it, args, kw):
    return BoolV(it.truth(args[0]))


@lib("builtins.str", "builtins.repr")
def _(it, args, kw):
    c = it.D(args[0])
    return c if isinstance(c, (str, StrV)) else StrV((c,))


@lib("builtins.print")
def _(it, args, kw):
    """dropped, unless the contract at hand is about what is printed"""
    out = getattr(it, "printed", None)
    if out is not None:
        if kw:
            unsup("printing with options")
        line = []
        for k, a in enumerate(args):
            c = it.D(a)
            if not isinstance(c, (str, StrV)):
                unsup(f"printing {type(c).__name__}")
            line += ([" "] if k else []) + (list(c.parts) if isinstance(c, StrV) else [c])
        if it.loops:
            it.call_method(out[-1], "append", [StrV(line)], {})      # the lines of a loop: a sequence
        else:
            out += [line, it.new(ListV(()))]
    return None


def formatted(it, v, spec):
    """one replacement field of a format string"""
    c = it.D(v) if isinstance(v, Ref) else v
    if not spec:
        return [c] if not isinstance(c, StrV) else list(c.parts)
    return [StrV(("\0fmt:" + spec, c))]


@method("str", "format")
def _(it, o, args, kw):
    t = it.D(o)
    if not isinstance(t, str):
        return StrV((t,))
    import string
    parts, auto = [], 0
    for lit, name, spec, conv in string.Formatter().parse(t):
        if lit:
            parts.append(lit)
        if name is None:
            continue
        if conv or "{" in (spec or ""):
            unsup("format string with conversions")
        if name == "":
            name, auto = str(auto), auto + 1
        if name.isdigit() and int(name) < len(args):
            v = args[int(name)]
        elif name in kw:
            v = kw[name]
        else:
            head, dot, rest = name.partition(".")
            v = args[int(head)] if head.isdigit() and int(head) < len(args) else kw.get(head)
            if v is None or not dot or not rest.replace("_", "").isalnum():
                unsup(f"format field {name}")
            v = it.getattr(v, rest)
        parts += formatted(it, v, spec)
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    return StrV(parts)


@lib("builtins.any")
def _(it, args, kw):
    c = it.concrete_items(args[0])
    if c is not None:
        return BoolV(Or(*[it.truth(x) for x in c]))
    s = it.as_seq(args[0])
    v = tm.fresh("k", "I", s.n)
    return BoolV(tm.Exists(v, s.n, And(s.present(v), it.truth(s.at(v)))))


@lib("builtins.all")
def _(it, args, kw):
    c = it.concrete_items(args[0])
    if c is not None:
        return BoolV(And(*[it.truth(x) for x in c]))
    s = it.as_seq(args[0])
    v = tm.fresh("k", "I", s.n)
    return BoolV(tm.Forall(v, s.n, Or(Not(s.present(v)), it.truth(s.at(v)))))


TYPES = {"dict": (DictV, SymDict), "list": (ListV, Seq), "tuple": (tuple, NT), "int": (), "float": (), "str": (str, StrV), "np.ndarray": (Arr,),
         "pd.DataFrame": (Frame,), "pd.Series": (Series,), "pd.Index": (Idx,)}


@lib("builtins.isinstance")
def _(it, args, kw):
    c = it.D(args[0])
    t = args[1]
    ts = t if isinstance(t, tuple) else (t,)
    res = False
    for x in ts:
        x = it.D(x)
        nm = x.name.replace("builtins.", "") if isinstance(x, Builtin) else (x.name if isinstance(x, (ModuleV, ClassV)) else None)
        if nm in ("int", "float") and isinstance(c, Num):
            unsup("numeric type test")
        if nm in TYPES:
            if isinstance(c, TYPES[nm]):
                res = True
        elif isinstance(x, ClassV) and isinstance(c, Inst):
            res = res or c.cls is x
        elif isinstance(x, ClassV):
            pass
        else:
            unsup("isinstance")
    return BoolV(TRUE if res else FALSE)


@lib("builtins.map")
def _(it, args, kw):
    conc = it.concrete_items(args[1])
    if conc is not None:
        return tuple(it.call(args[0], [x], {}) for x in conc)
    s = it.as_seq(args[1])
    f = args[0]
    return Seq(s.n, lambda k: it.freeze(it.call(f, [s.at(k)], {})), s.cond)


@lib("builtins.next")
def _(it, args, kw):
    unsup("next")


def first_of(it, o):
    """next(iter(o))"""
    c = it.D(o)
    x = c if isinstance(c, tuple) else c.items if isinstance(c, ListV) else [k for k, _ in c.items] if isinstance(c, DictV) else None
    if x is not None:
        it.raise_if(TRUE if not x else FALSE, "StopIteration")
        return x[0]
    s = it.as_seq(o)
    if not s.full():
        unsup("next")
    it.raise_if(tm.eq(s.n, ZERO), "StopIteration")
    return s.at(ZERO)


@lib("builtins.super")
def _(it, args, kw):
    unsup("super")


@lib("collections.namedtuple")
def _(it, args, kw):
    name = it.D(args[0])
    f = it.D(args[1])
    if isinstance(f, str):
        fields = f.replace(",", " ").split()
    else:
        fields = [it.D(x) for x in (f if isinstance(f, tuple) else f.items)]
    return NTClass(name, fields)


@lib("copy.deepcopy", "copy.copy")
def _(it, args, kw):
    return it.new(it.D(args[0])) if isinstance(args[0], Ref) else args[0]


@lib("warnings.filterwarnings", "warnings.simplefilter")
def _(it, args, kw):
    return None


@lib("tqdm.trange")
def _(it, args, kw):
    return BUILTINS["builtins.range"](it, args, {})


@lib("cvx.linalg.pca")
def _(it, args, kw):
    c = it.contracts.get("cvx.linalg:pca")
    return c(it, *args, **kw) if c else unsup("pca has no contract here")


@lib("tqdm.tqdm")
def _(it, args, kw):
    return args[0]


# ---------------------------------------------------------------- methods of containers
def fetch(it, o, v, key=None):
    """an entry of a dictionary; entries of an input dictionary are inputs, changes of other entries change the dictionary"""
    if isinstance(v, (Frame, Series, Arr, SymDict)):
        r = it.new(v)
        if isinstance(o, Ref) and o.id in it.inputs:
            it.inputs.add(r.id)
        elif isinstance(o, Ref):
            it.elem[r.id] = (o, ("entry", key))
        return r
    return v


def keys_of(it, c):
    if isinstance(c, SymDict):
        return Opaque("keys", axis=c.axis)
    if isinstance(c, DictV):
        return tuple(k for k, _ in c.items)


@method("SymDict", "keys")
def _(it, o, args, kw):
    c = it.D(o)
    return Opaque("keys", axis=c.axis)


@method("SymDict", "values")
def _(it, o, args, kw):
    c = it.D(o)
    a = it.affine(c.axis)
    return Seq(a.n, lambda k: c.at(tm.add(a.off, k)))


@method("SymDict", "items")
def _(it, o, args, kw):
    c = it.D(o)
    a = it.affine(c.axis)
    return Seq(a.n, lambda k: (lib_pd.mklabel(a, tm.add(a.off, k)), c.at(tm.add(a.off, k))))


@method("SymDict", "copy")
def _(it, o, args, kw):
    return it.new(it.D(o))


@method("SymDict", "get")
def _(it, o, args, kw):
    c = it.D(o)
    t = lib_pd.label_coord(it, c.axis, args[0], False)
    d = args[1] if len(args) > 1 else None
    h = c.axis.has(t)
    if it.decide(h) is True:
        return fetch(it, o, c.at(t))
    unsup("dict.get of a possibly absent key")


@method("DictV", "keys")
def _(it, o, args, kw):
    return tuple(k for k, _ in it.D(o).items)


@method("DictV", "values")
def _(it, o, args, kw):
    return tuple(v for _, v in it.D(o).items)


@method("DictV", "items")
def _(it, o, args, kw):
    return tuple((k, v) for k, v in it.D(o).items)


@method("DictV", "get")
def _(it, o, args, kw):
    for k, v in it.D(o).items:
        if ident(k, it.D(args[0]) if isinstance(args[0], Ref) else args[0]):
            return v
    return args[1] if len(args) > 1 else None


@method("DictV", "copy")
def _(it, o, args, kw):
    return it.new(it.D(o))


@method("DictV", "update")
def _(it, o, args, kw):
    src = it.D(args[0]) if args else DictV(())
    if not isinstance(src, DictV):
        unsup("dict.update")
    if it.writes is not None and it.in_loop(o):
        raise NeedCarry((o.id, None))
    items = list(it.D(o).items)
    for k, v in list(src.items) + list(kw.items()):
        for n, (k0, _) in enumerate(items):
            if ident(k0, k):
                items[n] = (k0, v)
                break
        else:
            items.append((k, v))
    it.write(o, DictV(tuple(items)), "dictionary")


def keep(it, v):
    """content of an object that is stored in a list"""
    if isinstance(v, Ref):
        it.stored.add(v.id)
    return it.freeze(v)


@method("ListV", "append")
def _(it, o, args, kw):
    c = it.D(o)
    if it.writes is not None and it.in_loop(o):
        raise NeedCarry((o.id, None))
    it.write(o, ListV(c.items + (args[0],)), "list")


@method("ListV", "extend")
def _(it, o, args, kw):
    c = it.D(o)
    if it.writes is not None and it.in_loop(o):
        raise NeedCarry((o.id, None))
    xs = it.concrete_items(args[0])
    if xs is None:
        if c.items:
            unsup("extend")
        it.write(o, it.as_seq(args[0]), "list")
        return
    it.write(o, ListV(c.items + tuple(xs)), "list")


@method("ListV", "copy")
def _(it, o, args, kw):
    return it.new(it.D(o))


@method("Seq", "copy")
def _(it, o, args, kw):
    return it.new(unowned(it, o))


@method("Seq", "append")
def _(it, o, args, kw):
    c = it.D(o)
    if it.writes is not None and it.in_loop(o):
        unsup("append to a sequence in a loop")
    v = keep(it, args[0])
    n = c.n
    it.write(o, Seq(tm.add(n, ONE), lambda k: vite(tm.lt(k, n), c.at(k), v)), "list")


@method("Acc", "append")
def _(it, o, args, kw):
    c = it.D(o)
    r = Acc(c.base, c.kind)
    r.ph, r.j = c.ph, c.j
    v = args[0]
    r.own = getattr(c, "own", True) and isinstance(v, Ref) and not it.in_loop(v) and v.id not in it.stored and not it.alias.get(v.id)
    r.adds = c.adds + ((TRUE, keep(it, v)),)
    it.write(o, r, "list")


@method("keys", "copy")
def _(it, o, args, kw):
    return it.D(o)


@method("str", "join", "lower", "upper", "strip")
def _(it, o, args, kw):
    if getattr(it, "printed", None) is not None:
        unsup("text rebuilt before it is printed")
    return StrV((it.D(o),))


_as_seq = Interp.as_seq


def as_seq(self, itv):
    c = self.D(itv)
    if isinstance(c, Opaque) and c.kind == "keys":
        a = self.affine(c.axis)
        return Seq(a.n, lambda k: lib_pd.mklabel(a, tm.add(a.off, k)))
    if isinstance(c, (Idx, SymDict)) or isinstance(c, Frame):
        a = self.affine(c.cols if isinstance(c, Frame) else c.axis)
        return Seq(a.n, lambda k: lib_pd.mklabel(a, tm.add(a.off, k)))
    if isinstance(c, Series):
        return lib_pd.seq_of_series(self, c)
    return _as_seq(self, itv)


Interp.as_seq = as_seq
_conc = Interp.concrete_items


def concrete_items(self, itv):
    c = self.D(itv)
    ax = None
    if isinstance(c, Idx):
        ax = c.axis
    elif isinstance(c, Opaque) and c.kind == "keys":
        ax = c.axis
    if isinstance(ax, lib_pd.StrAxis):
        return list(ax.names)
    return _conc(self, itv)


Interp.concrete_items = concrete_items


def in_loop(self, o):
    """o existed before the innermost symbolic loop started"""
    return o.id <= getattr(self, "loop_nid", 0)


Interp.in_loop = in_loop


# ---------------------------------------------------------------- worker processes
@lib("multiprocessing.Pool", "multiprocessing.pool.Pool")
def _(it, args, kw):
    return Opaque("pool")


@method("pool", "starmap")
def _(it, o, args, kw):
    return it.new(it.tasks(args[0], args[1]))


@method("pool", "map", "imap")
def _(it, o, args, kw):
    s = it.as_seq(args[1])
    return it.new(it.tasks(args[0], Seq(s.n, lambda k: (s.at(k),), s.cond)))


@method("pool", "close", "join", "terminate")
def _(it, o, args, kw):
    return None
