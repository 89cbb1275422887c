"""Assumed contracts on numpy (trusted, listed in the evidence): each library function is described
by its mathematical effect on arrays of extended reals."""
from __future__ import annotations

from . import terms as tm
from . import prove as pv
from .terms import TRUE, FALSE, And, Not, Or, ZERO, ONE
from .values import *
from . import strict
from .interp import BUILTINS, METHODS, ATTRS, BINOPS, CONSTS, canon

used: set = set()       # library names actually used in this run (evidence)


def lib(*names):
    def deco(f):
        for n in names:
            c = canon(n)

            def g(it, args, kw, f=f, c=c):
                used.add(c)
                if not args and not kw:
                    return f(it, args, kw)
                return strict.guarded(c, lambda a, k: f(it, a, k), it, args, kw)
            BUILTINS[c] = g
        return f
    return deco


def method(cls, *names):
    def deco(f):
        for n in names:
            def g(it, o, args, kw, f=f, n=n):
                used.add(f"{cls}.{n}")
                if not args and not kw:
                    return f(it, o, args, kw)
                return strict.guarded(n if n == "astype" else f"{cls}.{n}", lambda a, k: f(it, o, a, k), it, args, kw)
            METHODS[(cls, n)] = g
        return f
    return deco


def attr(cls, *names):
    def deco(f):
        for n in names:
            ATTRS[(cls, n)] = f
        return f
    return deco


# ---------------------------------------------------------------- scalar arithmetic on extended reals
def sgn(r):
    return tm.ite(tm.lt(r, ZERO), tm.const(-1), ONE)


def n_add(a, b):
    if a.inf is FALSE and b.inf is FALSE:
        return Num(tm.add(a.r, b.r), Or(a.nan, b.nan))
    opp = And(a.inf, b.inf, Not(tm.eq(sgn(a.r), sgn(b.r))))
    return Num(tm.ite(a.inf, a.r, tm.ite(b.inf, b.r, tm.add(a.r, b.r))), Or(a.nan, b.nan, opp), And(Or(a.inf, b.inf), Not(opp)))


def n_neg(a):
    return Num(tm.neg(a.r), a.nan, a.inf)


def n_sub(a, b):
    return n_add(a, n_neg(b))


def n_mul(a, b):
    if a.inf is FALSE and b.inf is FALSE:
        return Num(tm.mul(a.r, b.r), Or(a.nan, b.nan))
    z = Or(And(a.inf, Not(b.inf), tm.eq0(b.r)), And(b.inf, Not(a.inf), tm.eq0(a.r)))
    inf = And(Or(a.inf, b.inf), Not(z))
    return Num(tm.ite(Or(a.inf, b.inf), tm.mul(sgn(a.r), sgn(b.r)), tm.mul(a.r, b.r)), Or(a.nan, b.nan, z), inf)


def n_div(a, b):
    nan0 = Or(a.nan, b.nan)
    z = tm.eq0(b.r) if b.inf is FALSE else And(Not(b.inf), tm.eq0(b.r))
    if z is FALSE and a.inf is FALSE and b.inf is FALSE:
        return Num(tm.div(a.r, b.r), nan0)
    if z is TRUE:
        za = tm.eq0(a.r)
        return Num(sgn(a.r), Or(nan0, And(za, Not(a.inf))), And(Not(nan0), Or(a.inf, Not(za))))
    q = tm.div(a.r, b.r)
    if a.inf is FALSE and b.inf is FALSE:
        za = tm.eq0(a.r)
        inf = And(z, Not(za), Not(nan0))
        return Num(q if inf is FALSE else tm.ite(z, sgn(a.r), q), Or(nan0, And(z, za)), inf)
    za = And(Not(a.inf), tm.eq0(a.r))
    r = tm.ite(z, sgn(a.r), tm.ite(a.inf, tm.mul(sgn(a.r), sgn(b.r)), tm.ite(b.inf, ZERO, q)))
    return Num(r, Or(nan0, And(a.inf, b.inf), And(z, za)), And(Not(nan0), Or(And(z, Not(za)), And(a.inf, Not(b.inf)))))


def n_pow(a, b):
    if a.inf is not FALSE or b.inf is not FALSE:
        if tm.is_const(b.r) and tm.cval(b.r) == 2 and b.nan is FALSE:
            return n_mul(a, a)
        unsup("power of an infinite value")
    if tm.is_const(b.r) and tm.cval(b.r) < 0:
        return n_div(num(1), n_pow(a, Num(tm.neg(b.r))))
    return Num(tm.power(a.r, b.r), Or(a.nan, b.nan))


nonneg_values: set = set()     # terms that are not negative where they are not missing (mean squares)


def n_sqrt(a):
    neg_ = FALSE if a.r in nonneg_values else tm.lt(a.r, ZERO)
    return Num(tm.ite(a.inf, a.r, tm.sqrt(a.r)) if a.inf is not FALSE else tm.sqrt(a.r), Or(a.nan, neg_), a.inf if neg_ is FALSE else And(a.inf, Not(neg_)))


def n_abs(a):
    return Num(tm.tabs(a.r) if a.inf is FALSE else tm.ite(a.inf, ONE, tm.tabs(a.r)), a.nan, a.inf)


def n_log(a):
    if a.inf is not FALSE:
        unsup("log of an infinite value")
    if pv.is_pos(a.r):
        return Num(tm.log(a.r), a.nan)
    z = tm.eq0(a.r)
    return Num(tm.log(a.r) if z is FALSE else tm.ite(z, tm.const(-1), tm.log(a.r)), Or(a.nan, tm.lt(a.r, ZERO)), And(z, Not(a.nan)))


def n_exp(a):
    if a.inf is not FALSE:
        unsup("exp of an infinite value")
    return Num(tm.exp(a.r), a.nan)


def n_max(a, b):
    if a.inf is FALSE and b.inf is FALSE:
        return Num(tm.tmax(a.r, b.r), Or(a.nan, b.nan))
    c = lt_(b, a)
    return Num(tm.ite(c, a.r, b.r), Or(a.nan, b.nan), tm.ite(c, a.inf, b.inf))


def n_min(a, b):
    if a.inf is FALSE and b.inf is FALSE:
        return Num(tm.tmin(a.r, b.r), Or(a.nan, b.nan))
    c = lt_(a, b)
    return Num(tm.ite(c, a.r, b.r), Or(a.nan, b.nan), tm.ite(c, a.inf, b.inf))


def n_clip(a, lo, hi):
    r = a
    if lo is not None:
        r = n_max(r, lo)
    if hi is not None:
        r = n_min(r, hi)
    return r


def lt_(a, b):
    """a < b ignoring NaN"""
    if a.inf is FALSE and b.inf is FALSE:
        return tm.lt(a.r, b.r)
    an, ap = And(a.inf, tm.lt(a.r, ZERO)), And(a.inf, tm.gt(a.r, ZERO))
    bn, bp = And(b.inf, tm.lt(b.r, ZERO)), And(b.inf, tm.gt(b.r, ZERO))
    return Or(And(an, Not(bn)), And(bp, Not(ap)), And(Not(a.inf), Not(b.inf), tm.lt(a.r, b.r)))


def n_cmp(op, a, b):
    ok = Not(Or(a.nan, b.nan))
    if op == "Lt":
        return BoolV(And(ok, lt_(a, b)))
    if op == "Gt":
        return BoolV(And(ok, lt_(b, a)))
    if op == "LtE":
        return BoolV(And(ok, Not(lt_(b, a))))
    if op == "GtE":
        return BoolV(And(ok, Not(lt_(a, b))))
    if a.inf is FALSE and b.inf is FALSE:
        e = tm.eq(a.r, b.r)
    else:
        e = And(Not(lt_(a, b)), Not(lt_(b, a)))
    if op == "Eq":
        return BoolV(And(ok, e))
    if op == "NotEq":
        return BoolV(Not(And(ok, e)))
    unsup("comparison " + op)


N_OPS = {"Add": n_add, "Sub": n_sub, "Mult": n_mul, "Div": n_div, "Pow": n_pow}


def as_num(v):
    if isinstance(v, Num):
        return v
    if isinstance(v, BoolV):
        return Num(tm.ite(v.t, ONE, ZERO))
    if isinstance(v, (int, float)):
        return num(v)
    if v is None:
        return NAN
    if isinstance(v, Label):
        x = label_number(v)
        if x is not None:
            return x
    unsup(f"number expected, got {type(v).__name__}")


def as_bool(v):
    if isinstance(v, BoolV):
        return v.t
    if isinstance(v, Num):
        return Or(v.nan, Not(tm.eq0(v.r)))
    unsup("boolean expected")


# ---------------------------------------------------------------- arrays
def same_dim(it, a, b):
    if a is b:
        return True
    d = it.decide(tm.eq(a, b))
    return d is True


def broadcast(it, shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        dims = [s[len(s) - nd + k] for s in shapes if len(s) - nd + k >= 0]
        cur = ONE
        for d in dims:
            if d is ONE:
                continue
            if cur is ONE:
                cur = d
            elif not same_dim(it, cur, d):
                unsup(f"shapes do not match: {cur} and {d}")
        out.append(cur)
    return tuple(out)


def bidx(shape, nd, idx):
    off = nd - len(shape)
    return tuple(ZERO if s is ONE else idx[off + k] for k, s in enumerate(shape))


def arr_of(it, v, one=False):
    """view a value as array content"""
    c = it.D(v)
    if isinstance(c, OneArr) and not one:
        unsup("a value that is a number on one path and a one-element array on another")
    if isinstance(c, Arr):
        return c
    if isinstance(c, (Num, BoolV)):
        return Arr((), lambda: c, "num" if isinstance(c, Num) else "bool")
    if c is None:
        return Arr((), lambda: NAN)
    if isinstance(c, (tuple, ListV)):
        items = list(c if isinstance(c, tuple) else c.items)
        subs = [arr_of(it, x) for x in items]
        if not subs:
            return Arr((ZERO,), lambda i: num(0))
        sh = subs[0].shape
        for s in subs[1:]:
            if len(s.shape) != len(sh) or any(not same_dim(it, a, b) for a, b in zip(s.shape, sh)):
                unsup("ragged array")

        def f(k, *i):
            v = subs[-1].at(*i)
            if tm.is_const(k):
                return subs[int(tm.cval(k))].at(*i)
            for j in range(len(subs) - 2, -1, -1):
                v = vite(tm.eq(k, tm.const(j)), subs[j].at(*i), v)
            return v
        return Arr((tm.const(len(subs)),) + tuple(sh), f, subs[0].kind)
    if isinstance(c, Range):
        n = tm.sub(c.hi, c.lo)
        return Arr((n,), lambda k: Num(tm.add(c.lo, k)))
    if isinstance(c, Seq):
        if c.cond is not None and not c.full():
            c2 = it.compact(c)
        else:
            c2 = c
        e = c2.fn.body()[1]
        e = it.D(e)
        if isinstance(e, (Num, BoolV, Label)):
            return Arr((c2.n,), lambda k: c2.at(k), "bool" if isinstance(e, BoolV) else ("label" if isinstance(e, Label) else "num"))
        ea = arr_of(it, e)
        for s in ea.shape:
            if c2.fn.body()[0][0] in s.fv:
                unsup("ragged array")
        return Arr((c2.n,) + ea.shape, lambda k, *i: arr_of(it, c2.at(k)).at(*i), ea.kind)
    if isinstance(c, (Frame, Series, Idx)):
        from . import lib_pd
        return lib_pd.values(it, c)
    if isinstance(c, Opaque) and c.kind == "dictvals":
        return arr_of(it, c.seq)
    unsup(f"array from {type(c).__name__}")


def elementwise(it, f, vals, kind=None):
    cs = [it.D(v) for v in vals]
    if any(isinstance(c, (Frame, Series)) for c in cs):
        from . import lib_pd
        return lib_pd.elementwise(it, f, cs, kind)
    if all(isinstance(c, (Num, BoolV)) or c is None for c in cs):
        return f(*[NAN if c is None else c for c in cs])
    arrs = [arr_of(it, c, True) for c in cs]
    if any(a.kind == "obj" for a in arrs):
        unsup("arithmetic on object arrays")
    flat = [a for a in arrs if isinstance(a, FlatArr)]
    if flat and all(isinstance(a, FlatArr) and all(x is y for x, y in zip(a.src.shape, flat[0].src.shape)) or a.ndim == 0 for a in arrs):
        r = it.D(elementwise(it, f, [a.src if isinstance(a, FlatArr) else a for a in arrs], kind))
        return it.new(FlatArr(r))
    shape = broadcast(it, [a.shape for a in arrs])
    nd = len(shape)
    r = Arr(shape, lambda *i: f(*[a.at(*bidx(a.shape, nd, i)) for a in arrs]))
    if kind is None:
        b = r.fn.body()[1]
        kind = "bool" if isinstance(b, BoolV) else "num"
    r.kind = kind
    if any(isinstance(a, OneArr) for a in arrs) and nd == 1 and shape[0] is ONE:
        f1 = r.fn
        r = OneArr(f1, kind)
    return it.new(r)


def fsum(v, n, x):
    """sum over v < n of Num x"""
    if x.inf is not FALSE:
        unsup("sum of possibly infinite values")
    nan = FALSE if x.nan is FALSE else tm.Exists(v, n, x.nan)
    return Num(tm.mk_sum(v, n, x.r), nan)


def clean(it, x, rng, unfold=1):
    """simplify NaN / infinity flags"""
    if x.nan in (TRUE, FALSE) and x.inf in (TRUE, FALSE):
        return x
    from . import logic
    hy = list(it.known()) + list(rng)
    inf = x.inf
    if inf not in (TRUE, FALSE) and logic.prove(hy, Not(inf), 1500, unfold):
        inf = FALSE
    return Num(x.r if inf is not FALSE else logic.simplify(x.r, hy) if x.inf is not FALSE else x.r, x.nan, inf)


def finite(it, x, rng):
    """drop an infinity flag that cannot be raised (and a NaN flag that comes with it)"""
    if not isinstance(x, Num) or x.inf is FALSE:
        return x
    y = clean(it, x, rng)
    if y.inf is not FALSE:
        return x
    from . import logic
    hy = list(it.known()) + list(rng)
    if y.nan not in (TRUE, FALSE) and logic.prove(hy, Not(y.nan), 1500, 1):
        y = Num(logic.simplify(y.r, hy), FALSE, FALSE)
    return y


def matmul(it, a, b):
    if a.ndim == 0 or b.ndim == 0:
        unsup("matmul of scalars")
    if not same_dim(it, a.shape[-1], b.shape[0 if b.ndim == 1 else -2]):
        unsup(f"matmul shapes {a.shape} {b.shape}")
    n = a.shape[-1]

    def dot(fa, fb):
        v = tm.fresh("k", "I", n)
        return fsum(v, n, finite(it, n_mul(fa(v), fb(v)), [tm.lt(v, n)]))
    if a.ndim == 1 and b.ndim == 1:
        return dot(lambda v: a.at(v), lambda v: b.at(v))
    if a.ndim == 2 and b.ndim == 1:
        return it.new(Arr((a.shape[0],), lambda i: dot(lambda v: a.at(i, v), lambda v: b.at(v))))
    if a.ndim == 1 and b.ndim == 2:
        return it.new(Arr((b.shape[1],), lambda j: dot(lambda v: a.at(v), lambda v: b.at(v, j))))
    if a.ndim == 2 and b.ndim == 2:
        return it.new(Arr((a.shape[0], b.shape[1]), lambda i, j: dot(lambda v: a.at(i, v), lambda v: b.at(v, j))))
    if a.ndim == 3 and b.ndim == 3 and same_dim(it, a.shape[0], b.shape[0]):
        return it.new(Arr((a.shape[0], a.shape[1], b.shape[2]), lambda t, i, j: dot(lambda v: a.at(t, i, v), lambda v: b.at(t, v, j))))
    unsup("matmul of these ranks")


def binop(it, op, a, b, ca, cb):
    if type(ca).__name__ == "Records" or type(cb).__name__ == "Records":
        from . import lib_rec
        return lib_rec.binop(it, op, a, b)
    if isinstance(ca, Label) or isinstance(cb, Label):          # labels that are numbers
        ca, cb = (label_number(z) or z if isinstance(z, Label) else z for z in (ca, cb))
    if isinstance(ca, (str, StrV)) or isinstance(cb, (str, StrV)):
        if op == "Add":
            pa = ca.parts if isinstance(ca, StrV) else (ca,)
            pb = cb.parts if isinstance(cb, StrV) else (cb,)
            if all(isinstance(x, str) for x in pa + pb):
                return "".join(pa + pb)
            return StrV(pa + pb)
        if op == "Mod":
            if getattr(it, "printed", None) is not None:
                unsup("percent formatting")
            return StrV((ca, cb))
        return None
    if isinstance(ca, (Frame, Series, Idx)) or isinstance(cb, (Frame, Series, Idx)):
        from . import lib_pd
        return lib_pd.binop(it, op, a, b, ca, cb)
    if op == "MatMult":
        return matmul(it, arr_of(it, ca), arr_of(it, cb))
    if isinstance(ca, ListV) or isinstance(cb, ListV) or isinstance(ca, tuple) or isinstance(cb, tuple) or isinstance(ca, Seq) or isinstance(cb, Seq):
        from . import lib_py
        r = lib_py.seq_binop(it, op, a, b, ca, cb)
        if r is not None:
            return r
    if isinstance(ca, Opaque) or isinstance(cb, Opaque):
        from . import lib_cvx
        return lib_cvx.binop(it, op, a, b, ca, cb)
    if isinstance(ca, Label):
        ca = label_number(ca)
    if isinstance(cb, Label):
        cb = label_number(cb)
    num_like = (Num, BoolV, Arr, ListV, Seq)
    if not isinstance(ca, num_like) or not isinstance(cb, num_like):
        return None
    if op in ("BitAnd", "BitOr"):
        g = (lambda x, y: BoolV(And(as_bool(x), as_bool(y)))) if op == "BitAnd" else (lambda x, y: BoolV(Or(as_bool(x), as_bool(y))))
        return elementwise(it, g, [ca, cb])
    if op == "FloorDiv":
        if isinstance(ca, Num) and isinstance(cb, Num) and tm.is_const(cb.r):
            return floordiv(it, ca, cb)
        return None
    if op == "Mod":
        return None
    f = N_OPS.get(op)
    if f is None:
        return None
    return elementwise(it, lambda x, y: f(as_num(x), as_num(y)), [ca, cb])


BINOPS.append(binop)


def floordiv(it, a, b):
    k = tm.cval(b.r)
    q = tm.scale(a.r, 1 / k)
    if q.sort == "I":
        return Num(q)
    t = tm._app("floordiv", (a.r, b.r), "I")
    if k > 0 and a.r.sort == "I":
        # n(n+1)/2 is an integer
        it.hyps.append(And(tm.le(tm.scale(t, k), a.r), tm.lt(a.r, tm.scale(tm.add(t, ONE), k))))
    return Num(t)


def compare(it, op, a, b):
    ca, cb = it.D(a), it.D(b)
    if op not in ("Is", "IsNot") and (type(ca).__name__ in ("CE", "Con") or type(cb).__name__ in ("CE", "Con")):
        from . import lib_cvx
        return lib_cvx.compare(it, op, a, b)
    if isinstance(ca, Opaque) and ca.kind == "recidx" and isinstance(cb, Label) and op == "Eq":
        return Opaque("recmask", t=cb.t, obj=ca.obj)
    if op in ("Is", "IsNot"):
        if ca is None or cb is None:
            o = cb if ca is None else ca
            t = o.none.t if isinstance(o, Opaque) and o.kind == "maybe" else TRUE if o is None else FALSE
            return BoolV(t if op == "Is" else Not(t))
        if isinstance(ca, BoolV) and isinstance(cb, BoolV):
            t = tm.Iff(ca.t, cb.t)
            return BoolV(t if op == "Is" else Not(t))
        unsup("identity comparison")
    if op in ("In", "NotIn"):
        from . import lib_py
        t = lib_py.contains(it, b, a)
        return BoolV(t if op == "In" else Not(t))
    if ca is None or cb is None:
        if op in ("Eq", "NotEq") and not isinstance(ca, (Arr, Frame, Series)) and not isinstance(cb, (Arr, Frame, Series)):
            r = ca is None and cb is None
            return BoolV(TRUE if r == (op == "Eq") else FALSE)
        unsup("comparison with None")
    if isinstance(ca, (Frame, Series, Idx)) or isinstance(cb, (Frame, Series, Idx)):
        from . import lib_pd
        return lib_pd.compare(it, op, ca, cb)
    if isinstance(ca, Label) != isinstance(cb, Label):
        x, y = (label_number(z) if isinstance(z, Label) and not isinstance(w, str) else z for z, w in ((ca, cb), (cb, ca)))
        if x is not None and y is not None:
            ca, cb = x, y
    if isinstance(ca, Label) and isinstance(cb, Label):
        if ca.space != cb.space:
            unsup("labels of different kinds compared")
        if op not in ("Eq", "NotEq") and ca.space in UNORDERED and label_number(ca) is None:
            unsup(f"order of {ca.space} labels")
        x, y = Num(ca.t), Num(cb.t)
        if op not in ("Eq", "NotEq") and label_number(ca) is not None:
            x, y = label_number(ca), label_number(cb)
        return n_cmp(op, x, y)
    if isinstance(ca, str) or isinstance(cb, str):
        if isinstance(ca, str) and isinstance(cb, str):
            r = {"Eq": ca == cb, "NotEq": ca != cb}.get(op)
            if r is not None:
                return BoolV(TRUE if r else FALSE)
        lab, text = (ca, cb) if isinstance(ca, Label) else (cb, ca)
        named = getattr(it, "named", {})
        if isinstance(lab, Label) and lab.space in named and isinstance(text, str) and op in ("Eq", "NotEq"):      # which label carries this name, if any
            k = named[lab.space].get(text)
            t = tm.FALSE if k is None else tm.eq(lab.t, k)
            return BoolV(t if op == "Eq" else Not(t))
        unsup("string comparison")
    if isinstance(ca, Opaque) and ca.kind == "keys" or isinstance(ca, (tuple, ListV, Seq, DictV, SymDict)):
        from . import lib_py
        return lib_py.compare(it, op, ca, cb)
    if isinstance(ca, BoolV) and isinstance(cb, BoolV) and op in ("Eq", "NotEq"):
        t = tm.Iff(ca.t, cb.t)
        return BoolV(t if op == "Eq" else Not(t))
    return elementwise(it, lambda x, y: n_cmp(op, as_num(x), as_num(y)), [ca, cb], "bool")


# spaces whose labels may come in any order (position says nothing about how two labels compare)
UNORDERED = ("asset", "expert", "pred", "factor", "name", "key", "lag", "halflife")


# ---------------------------------------------------------------- indexing
def pos_index(it, i, n):
    """python index -> position term"""
    t = i.r if isinstance(i, Num) else i
    if t.sort != "I":
        unsup("non-integer index")
    if tm.is_const(t) and tm.cval(t) < 0:
        return tm.add(n, t)
    if tm.is_const(t):
        return t
    d = it.decide(tm.ge(t, ZERO))
    if d is True:
        return t
    if d is False:
        return tm.add(n, t)
    return tm.ite(tm.ge(t, ZERO), t, tm.add(n, t))


def slice_bounds(it, s, n):
    """(start, count) for step +1 ; negative bounds resolved, clamped to [0, n]"""
    def clampb(x, dflt):
        if x is None:
            return dflt
        t = as_num(it.D(x)).r
        d = it.decide(tm.ge(t, ZERO))
        if d is False:
            t = tm.add(n, t)
            if it.decide(tm.ge(t, ZERO)) is not True:
                t = tm.tmax(t, ZERO)
        elif d is None:
            t = tm.ite(tm.ge(t, ZERO), t, tm.tmax(tm.add(n, t), ZERO))
        e = it.decide(tm.le(t, n))
        if e is False:
            return n
        if e is None:
            t = tm.tmin(t, n)
        return t
    lo = clampb(s.lo, ZERO)
    hi = clampb(s.hi, n)
    c = tm.sub(hi, lo)
    d = it.decide(tm.ge(c, ZERO))
    if d is False:
        c = ZERO
    elif d is None:
        c = tm.tmax(c, ZERO)
    return lo, c


def bounds_ok(it, p, n, what):
    """index within bounds: IndexError otherwise"""
    c = And(tm.ge(p, ZERO), tm.lt(p, n))
    if c is TRUE:
        return
    it.raise_if(Not(c), "IndexError")


def getitem(it, o, i):
    c = it.D(o)
    i0 = it.D(i)
    if isinstance(i0, Opaque) and i0.kind in ("triu", "tril") or isinstance(i0, Arr) and i0.kind == "bool" and i0.ndim == c.ndim > 1:
        return it.new(MaskArr(c, mask_of(c, i0)))
    if isinstance(i0, Opaque) and i0.kind == "diagidx":
        return it.new(Arr((c.shape[0],), lambda k: c.at(k, k), c.kind))
    idx = i if isinstance(i, tuple) else (i,)
    idx = [it.D(x) for x in idx]
    if any(x is Ellipsis for x in idx):
        k = [x is Ellipsis for x in idx].index(True)
        fill = c.ndim - (len([x for x in idx if x is not None]) - 1)
        idx = idx[:k] + [SliceV(None, None, None)] * fill + idx[k + 1:]
    shape = []
    maps = []      # per source dim: function of result idx tuple -> term
    dim = 0
    nres = 0
    adv = None
    for x in idx:
        if x is None:
            shape.append(ONE)
            nres += 1
            continue
        if dim >= c.ndim:
            unsup("too many indices")
        n = c.shape[dim]
        if isinstance(x, Num):
            p = pos_index(it, x, n)
            bounds_ok(it, p, n, "array index")
            maps.append(lambda r, p=p: p)
        elif isinstance(x, SliceV):
            st = it.D(x.step) if x.step is not None else None
            if st is not None and tm.is_const(st.r) and tm.cval(st.r) == -1 and x.lo is None and x.hi is None:
                shape.append(n)
                maps.append(lambda r, q=nres, n=n: tm.sub(tm.sub(n, ONE), r[q]))
                nres += 1
            elif st is None or (tm.is_const(st.r) and tm.cval(st.r) == 1):
                lo, cnt = slice_bounds(it, x, n)
                shape.append(cnt)
                maps.append(lambda r, q=nres, lo=lo: tm.add(lo, r[q]))
                nres += 1
            else:
                unsup("slice step")
        elif isinstance(x, Arr) and x.kind == "num" and x.ndim == 1 and len(idx) == 1:
            shape.append(x.shape[0])
            maps.append(lambda r, q=nres, x=x: x.at(r[q]).r)
            nres += 1
        elif isinstance(x, Opaque) and x.kind == "where":
            unsup("selection of a data-dependent number of elements")
        elif isinstance(x, Opaque) and x.kind in ("triu", "tril", "diagidx"):
            unsup("index set selection")
        elif isinstance(x, Arr) and x.kind == "num" and x.ndim == 1 and sum(isinstance(y, Arr) for y in idx) == 1:
            shape.append(x.shape[0])
            maps.append(lambda r, q=nres, x=x: x.at(r[q]).r)
            nres += 1
        else:
            unsup(f"array index {type(x).__name__}")
        dim += 1
    for d in range(dim, c.ndim):
        shape.append(c.shape[d])
        maps.append(lambda r, q=nres: r[q])
        nres += 1
    if not shape:
        return c.at(*[m(()) for m in maps])
    r = Arr(shape, lambda *r: c.at(*[m(r) for m in maps]), c.kind)
    return it.view(r, o)


def setitem(it, o, i, v):
    """a[i] = v for the patterns used: whole rows, index sets, masks, single elements, slices"""
    from .interp import Store
    c = it.D(o)
    i = it.D(i) if not isinstance(i, tuple) else tuple(it.D(x) for x in i)
    va = it.D(v)
    if va is None:
        va = NAN
    if isinstance(i, Opaque) and i.kind == "where":
        # rows where cond holds
        val = arr_of(it, va)
        if val.ndim:
            unsup("assignment of an array to an index set")
        x = val.at()
        it.write(o, Arr(c.shape, lambda *k: vite(as_bool(i.cond.at(k[0])), x, c.at(*k)), c.kind), "array element")
        return
    if isinstance(i, Arr) and i.kind == "bool":
        val = arr_of(it, va)
        if val.ndim:
            return set_mask(it, o, c, i, val)
        x = val.at()
        nd = i.ndim
        it.write(o, Arr(c.shape, lambda *k: vite(as_bool(i.at(*k[:nd])), x, c.at(*k)), c.kind), "array element")
        return
    if isinstance(i, Opaque) and i.kind in ("triu", "tril", "diagidx"):
        _set_tri(it, o, c, i, va)
        return
    if isinstance(i, Num):
        p = pos_index(it, i, c.shape[0])
        bounds_ok(it, p, c.shape[0], "row store")
        val = arr_of(it, va)
        sub = c.shape[1:]
        if not sub:
            it.write(o, Store(c, p, val.at(*[ZERO] * val.ndim) if all(d is ONE for d in val.shape) else unsup("array element")), "array element")
            return
        bs = broadcast(it, [sub, val.shape])
        nd = len(sub)
        row = Arr(sub, lambda *k: as_numlike(val.at(*bidx(val.shape, nd, k))))
        it.write(o, Store(c, p, row), "array row")
        return
    idx = i if isinstance(i, tuple) else (i,)
    conds = []
    dims = []      # result dims -> source offset
    d = 0
    for x in idx:
        n = c.shape[d]
        if isinstance(x, Num):
            p = pos_index(it, x, n)
            bounds_ok(it, p, n, "store")
            conds.append(lambda k, d=d, p=p: tm.eq(k[d], p))
        elif isinstance(x, SliceV) and x.step is None:
            lo, cnt = slice_bounds(it, x, n)
            conds.append(lambda k, d=d, lo=lo, cnt=cnt: And(tm.ge(k[d], lo), tm.lt(k[d], tm.add(lo, cnt))))
            dims.append((d, lo, cnt))
        else:
            unsup("store index")
        d += 1
    for q in range(d, c.ndim):
        dims.append((q, ZERO, c.shape[q]))
    val = arr_of(it, va)
    if val.ndim > len(dims):
        unsup("store shape")
    off = len(dims) - val.ndim

    def f(*k):
        cond = And(*[g(k) for g in conds])
        if cond is FALSE:
            return c.at(*k)
        vi = [ZERO if val.shape[q] is ONE else tm.sub(k[dims[off + q][0]], dims[off + q][1]) for q in range(val.ndim)]
        return vite(cond, val.at(*vi), c.at(*k))
    it.write(o, Arr(c.shape, f, c.kind), "array element")


def as_numlike(v):
    return v


class MaskArr(Arr):
    """src[mask] for a mask over all dimensions: the selected entries in row-major order; only read back through the same mask"""

    def __init__(self, src, mask):
        self.src, self.mask = src, mask
        super().__init__((tm.fresh("cnt", "I"),), lambda *k: unsup("element of a masked selection"), src.kind)


def mask_of(c, i):
    """index set as a boolean table"""
    if isinstance(i, Arr):
        return i
    if i.kind == "triu":
        f = lambda r, s: tm.le(tm.add(r, i.k), s)
    elif i.kind == "tril":
        f = lambda r, s: tm.le(s, tm.add(r, i.k))
    elif i.kind == "diagidx":
        f = lambda r, s: tm.eq(r, s)
    else:
        unsup("index set")
    return Arr((i.n, i.n), lambda r, s: BoolV(f(r, s)), "bool")


def same_mask(it, a, b):
    ks = [tm.fresh("k", "I", n) for n in a.shape]
    x, y = as_bool(a.at(*ks)), as_bool(b.at(*ks))
    if x is y:
        return True
    from . import logic
    hy = list(it.hyps) + list(it.pc)
    return logic.prove(hy + [x], y) and logic.prove(hy + [y], x)


def tri_of(it, i, n):
    """positions when the mask is the upper (lower) triangle with the diagonal"""
    up = Arr((n, n), lambda r, s: BoolV(tm.le(r, s)), "bool")
    lo = Arr((n, n), lambda r, s: BoolV(tm.le(s, r)), "bool")
    if same_mask(it, i, up):
        return lambda r, s: tri_pos(n, r, s)
    if same_mask(it, i, lo):
        return lambda r, s: tm.add(tm.div(tm.mul(r, tm.add(r, ONE)), tm.const(2)), s)
    unsup("entries selected by a mask of another form")


def set_mask(it, o, c, i, val):
    if i.ndim != c.ndim:
        unsup("mask over some dimensions")
    if isinstance(val, MaskArr):
        if not same_mask(it, i, val.mask):
            unsup("entries moved between different masks")
        at = lambda *k: val.src.at(*k)
    else:
        if c.ndim != 2 or not same_dim(it, c.shape[0], c.shape[1]):
            unsup("masked assignment of an array")
        pos = tri_of(it, i, c.shape[0])
        at = lambda r, s: val.at(pos(r, s))
    it.write(o, Arr(c.shape, lambda *k: vite(as_bool(i.at(*k)), at(*k), c.at(*k)), c.kind), "array element")


def _set_tri(it, o, c, i, va):
    val = arr_of(it, va)
    if i.kind == "diagidx":
        def f(r, s):
            return vite(tm.eq(r, s), val.at(r) if val.ndim else val.at(), c.at(r, s))
        it.write(o, Arr(c.shape, f, c.kind), "array element")
        return
    m = mask_of(c, i)
    if val.ndim == 0:
        it.write(o, Arr(c.shape, lambda r, s: vite(as_bool(m.at(r, s)), val.at(), c.at(r, s)), c.kind), "array element")
    else:
        set_mask(it, o, c, m, val)


def tri_pos(n, r, s, k=ZERO):
    """position of (r, s), r+k <= s, in the row-wise upper triangle of an n x n matrix"""
    if k is not ZERO:
        unsup("triangle offset")
    # sum_{q<r} (n-q) + (s-r) = r n - r(r-1)/2 + s - r
    half = tm.div(tm.mul(r, tm.sub(r, ONE)), tm.const(2))
    return tm.add(tm.mul(r, n), tm.neg(half), tm.sub(s, r))


# ---------------------------------------------------------------- constants
CONSTS["np.nan"] = NAN
CONSTS["np.inf"] = Num(ONE, FALSE, TRUE)
CONSTS["np.newaxis"] = None
CONSTS["np.pi"] = Num(tm.Var("pi", "R"))
pv.positive.add(tm.Var("pi", "R"))


def _dtype_only(kw, *ok):
    for k in kw:
        if k not in ok and k not in ("dtype", "copy", "order"):
            unsup(f"keyword {k}")


# ---------------------------------------------------------------- functions
def _unary(names, f):
    @lib(*names)
    def g(it, args, kw):
        if kw:
            unsup("keywords of a numpy function")
        return elementwise(it, lambda x: f(as_num(x)), args)


_unary(["numpy.sqrt"], n_sqrt)
_unary(["numpy.log", "math.log"], n_log)
_unary(["numpy.exp", "math.exp"], n_exp)
_unary(["numpy.abs", "numpy.absolute", "numpy.fabs"], n_abs)
_unary(["numpy.square"], lambda x: n_mul(x, x))
_unary(["numpy.negative"], n_neg)
_unary(["math.sqrt"], n_sqrt)


def _binary(names, f):
    @lib(*names)
    def g(it, args, kw):
        if kw:
            unsup("keywords of a numpy function")
        return elementwise(it, lambda x, y: f(as_num(x), as_num(y)), args)


_binary(["numpy.power", "numpy.float_power"], n_pow)
_binary(["numpy.maximum"], n_max)
_binary(["numpy.minimum"], n_min)
_binary(["numpy.multiply"], n_mul)
_binary(["numpy.divide", "numpy.true_divide"], n_div)
_binary(["numpy.add"], n_add)
_binary(["numpy.subtract"], n_sub)


@lib("numpy.isnan")
def _(it, args, kw):
    return elementwise(it, lambda x: BoolV(as_num(x).nan), args, "bool")


@lib("numpy.isfinite")
def _(it, args, kw):
    return elementwise(it, lambda x: BoolV(And(Not(as_num(x).nan), Not(as_num(x).inf))), args, "bool")


@lib("numpy.isinf")
def _(it, args, kw):
    return elementwise(it, lambda x: BoolV(And(Not(as_num(x).nan), as_num(x).inf)), args, "bool")


@lib("numpy.logical_or", "numpy.bitwise_or")
def _(it, args, kw):
    return elementwise(it, lambda x, y: BoolV(Or(as_bool(x), as_bool(y))), args, "bool")


@lib("numpy.logical_and", "numpy.bitwise_and")
def _(it, args, kw):
    return elementwise(it, lambda x, y: BoolV(And(as_bool(x), as_bool(y))), args, "bool")


@lib("numpy.logical_not", "numpy.invert")
def _(it, args, kw):
    return elementwise(it, lambda x: BoolV(Not(as_bool(x))), args, "bool")


@lib("numpy.clip")
def _(it, args, kw):
    a = list(args)
    lo = a[1] if len(a) > 1 else kw.get("a_min", kw.get("min"))
    hi = a[2] if len(a) > 2 else kw.get("a_max", kw.get("max"))
    lo0, hi0 = it.D(lo) is None, it.D(hi) is None
    vals = [a[0]] + ([] if lo0 else [lo]) + ([] if hi0 else [hi])

    def f(x, *b):
        b = list(b)
        l = None if lo0 else as_num(b.pop(0))
        h = None if hi0 else as_num(b.pop(0))
        return n_clip(as_num(x), l, h)
    return elementwise(it, f, vals)


@lib("numpy.where")
def _(it, args, kw):
    if len(args) == 3:
        return elementwise(it, lambda c, x, y: vite(as_bool(c), as_num(x), as_num(y)), args)
    c = arr_of(it, args[0])
    if c.ndim == 1:
        return (Opaque("where", cond=c),)
    unsup("where of a matrix")


@lib("numpy.nan_to_num")
def _(it, args, kw):
    nv = as_num(it.D(kw.get("nan", num(0))))

    def f(x):
        x = as_num(x)
        if x.inf is not FALSE:
            unsup("nan_to_num of infinite values")
        return vite(x.nan, nv, x) if x.nan is not FALSE else x
    return elementwise(it, f, args[:1])


@lib("numpy.outer")
def _(it, args, kw):
    a, b = [ravel(it, arr_of(it, x)) for x in args]
    return it.new(Arr((a.shape[0], b.shape[0]), lambda i, j: n_mul(a.at(i), b.at(j))))


def ravel(it, a):
    if a.ndim == 1:
        return a
    if a.ndim == 0:
        return Arr((ONE,), lambda i: a.at(), a.kind)
    if a.ndim == 2 and a.shape[1] is ONE:
        return Arr((a.shape[0],), lambda i: a.at(i, ZERO), a.kind)
    if a.ndim == 2 and a.shape[0] is ONE:
        return Arr((a.shape[1],), lambda i: a.at(ZERO, i), a.kind)
    big = [k for k, d in enumerate(a.shape) if d is not ONE]
    if len(big) <= 1:
        return Arr((a.shape[big[0]] if big else ONE,), lambda i: a.at(*[i if k in big else ZERO for k in range(a.ndim)]), a.kind)
    if len(big) == 2:
        x, y = big
        return FlatArr(Arr((a.shape[x], a.shape[y]), lambda i, j: a.at(*[i if k == x else j if k == y else ZERO for k in range(a.ndim)]), a.kind))
    if a.ndim == 2:
        return FlatArr(a)
    unsup("flattening")


class FlatArr(Arr):
    """row-major flattening of a 2-D array; element at(p) via row/column of p"""

    def __init__(self, src):
        self.src = src
        n, m = src.shape

        def f(p):
            # p = i*m + j recognised syntactically
            ij = split_flat(p, m)
            return src.at(*ij)
        super().__init__((tm.mul(n, m),), f, src.kind)

    def subst(self, m):
        return FlatArr(vsubst(self.src, m))


def split_flat(p, m):
    """p = i*m + j, 0 <= j < m, when visible in the polynomial"""
    if m is ONE:
        return p, ZERO
    i, rest = {}, {}
    mv = tm.poly(m)
    if len(mv) == 1:
        (mm, mc), = mv.items()
        if mc == 1 and mm:
            for mono, c in tm.poly(p).items():
                d = dict(mono)
                if all(d.get(a, 0) >= e for a, e in mm):
                    for a, e in mm:
                        d[a] -= e
                    i[tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].id))] = c
                else:
                    rest[mono] = c
            j = tm._mkpoly(rest)
            i = tm._mkpoly(i)
            if tm.known_nonneg(j) and tm.known_nonneg(tm.sub(tm.sub(m, ONE), j)):
                return i, j
    return tm._app("fdiv", (p, m), "I"), tm._app("fmod", (p, m), "I")


@lib("numpy.matmul")
def _(it, args, kw):
    return it.binop("MatMult", args[0], args[1])


@lib("numpy.dot")
def _(it, args, kw):
    a, b = (plain(it, x) for x in args[:2])
    if a.ndim == 0 or b.ndim == 0:
        return it.binop("Mult", it.new(a), it.new(b))
    return it.binop("MatMult", it.new(a), it.new(b))


def plain(it, v):
    """the array of a table's values"""
    c = it.D(v)
    if isinstance(c, (Frame, Series)):
        from . import lib_pd
        return lib_pd.values(it, c)
    return arr_of(it, v)


@lib("numpy.array", "numpy.asarray", "numpy.copy", "numpy.asfarray")
def _(it, args, kw):
    _dtype_only(kw)
    a = arr_of(it, args[0])
    if BUILTINS and False:
        return None
    return it.new(Arr(a.shape, a.fn, a.kind))


def _shape_arg(it, s):
    c = it.D(s)
    if isinstance(c, Num):
        return (c.r,)
    if isinstance(c, (tuple, ListV)):
        return tuple(as_num(it.D(x)).r for x in (c if isinstance(c, tuple) else c.items))
    unsup("shape")


@lib("numpy.zeros")
def _(it, args, kw):
    if it.element_type == "bool":
        return it.new(Arr(_shape_arg(it, args[0] if args else kw["shape"]), lambda *i: BoolV(FALSE), "bool"))
    return it.new(Arr(_shape_arg(it, args[0] if args else kw["shape"]), lambda *i: num(0)))


@lib("numpy.ones")
def _(it, args, kw):
    if it.element_type == "bool":
        return it.new(Arr(_shape_arg(it, args[0] if args else kw["shape"]), lambda *i: BoolV(TRUE), "bool"))
    return it.new(Arr(_shape_arg(it, args[0] if args else kw["shape"]), lambda *i: num(1)))


@lib("numpy.empty")
def _(it, args, kw):
    n = tm.fresh("empty")
    return it.new(Arr(_shape_arg(it, args[0] if args else kw["shape"]), lambda *i: Num(tm._app("uninit" + n.args[0], i, "R"))))


@lib("numpy.full")
def _(it, args, kw):
    v = args[1] if len(args) > 1 else kw["fill_value"]
    a = arr_of(it, v)
    sh = _shape_arg(it, args[0] if args else kw["shape"])
    return it.new(Arr(sh, lambda *i: a.at(*bidx(a.shape, len(sh), i))))


def _like(val):
    def f(it, args, kw):
        c = it.D(args[0])
        if isinstance(c, (Num, BoolV)):
            return num(val)
        if isinstance(c, (Frame, Series)):
            from . import lib_pd
            v = lib_pd.values(it, c)
            return it.new(Arr(v.shape, lambda *i: num(val)))
        a = arr_of(it, args[0])
        return it.new(Arr(a.shape, lambda *i: num(val)))
    return f


lib("numpy.zeros_like")(_like(0))
lib("numpy.ones_like")(_like(1))


@lib("numpy.full_like")
def _(it, args, kw):
    a = arr_of(it, args[0])
    v = arr_of(it, args[1] if len(args) > 1 else kw["fill_value"])
    return it.new(Arr(a.shape, lambda *i: v.at(*bidx(v.shape, len(a.shape), i))))


@lib("numpy.eye", "numpy.identity")
def _(it, args, kw):
    n = as_num(it.D(args[0])).r
    return it.new(Arr((n, n), lambda i, j: Num(tm.ite(tm.eq(i, j), ONE, ZERO))))


@lib("numpy.arange")
def _(it, args, kw):
    xs = [as_num(it.D(a)).r for a in args]
    lo, hi = (ZERO, xs[0]) if len(xs) == 1 else (xs[0], xs[1])
    if len(xs) > 2:
        st = tm.cval(xs[2]) if tm.is_const(xs[2]) else None
        if st == -1:
            return it.new(Arr((tm.sub(lo, hi),), lambda k: Num(tm.sub(lo, k))))
        if st != 1:
            unsup("arange step")
    return it.new(Arr((tm.sub(hi, lo),), lambda k: Num(tm.add(lo, k))))


@lib("numpy.diag", "numpy.diagonal")
def _(it, args, kw):
    a = arr_of(it, args[0])
    if len(args) == 1 and set(kw) == {"axis1", "axis2"} and a.ndim == 3:
        ax = [int(tm.cval(as_num(it.D(kw[k])).r)) % 3 for k in ("axis1", "axis2")]
        rest = [q for q in range(3) if q not in ax]
        if len(rest) != 1 or not same_dim(it, a.shape[ax[0]], a.shape[ax[1]]):
            unsup("diagonal of a stack")

        def at(t, i):
            k = [i, i, i]
            k[rest[0]] = t
            return a.at(*k)
        return it.view(Arr((a.shape[rest[0]], a.shape[ax[0]]), at, a.kind), args[0])
    if len(args) > 1 or kw:
        unsup("diag offset")
    if a.ndim == 2:
        if not same_dim(it, a.shape[0], a.shape[1]):
            unsup("diagonal of a non-square matrix")
        return it.view(Arr((a.shape[0],), lambda i: a.at(i, i), a.kind), args[0])
    if a.ndim == 1:
        n = a.shape[0]
        return it.new(Arr((n, n), lambda i, j: vite(tm.eq(i, j), a.at(i), num(0))))
    unsup("diag")


@lib("numpy.fill_diagonal")
def _(it, args, kw):
    c = it.D(args[0])
    v = arr_of(it, args[1])
    it.write(args[0], Arr(c.shape, lambda i, j: vite(tm.eq(i, j), v.at(*([i] if v.ndim else [])), c.at(i, j)), c.kind), "array diagonal")
    return None


@lib("numpy.diag_indices")
def _(it, args, kw):
    n = as_num(it.D(args[0])).r
    return Opaque("diagidx", n=n)


@lib("numpy.tril_indices")
def _(it, args, kw):
    k = as_num(it.D(args[1])).r if len(args) > 1 else as_num(it.D(kw["k"])).r if "k" in kw else ZERO
    return Opaque("tril", n=as_num(it.D(args[0])).r, k=k)


@lib("numpy.triu_indices")
def _(it, args, kw):
    n = as_num(it.D(args[0])).r
    k = as_num(it.D(args[1])).r if len(args) > 1 else (as_num(it.D(kw["k"])).r if "k" in kw else ZERO)
    return Opaque("triu", n=n, k=k)


@lib("numpy.transpose")
def _(it, args, kw):
    if len(args) > 1 or "axes" in kw:
        return permute(it, args[0], args[1] if len(args) > 1 else kw["axes"])
    return transpose(it, args[0])


@lib("numpy.swapaxes")
def _(it, args, kw):
    n = arr_of(it, args[0]).ndim
    x, y = [int(tm.cval(as_num(it.D(q)).r)) % n for q in args[1:3]]
    p = list(range(n))
    p[x], p[y] = p[y], p[x]
    return permute(it, args[0], tuple(num(q) for q in p))


@method("Arr", "transpose")
def _(it, o, args, kw):
    return permute(it, o, args[0] if len(args) == 1 else tuple(args)) if args else transpose(it, o)


@method("Arr", "swapaxes")
def _(it, o, args, kw):
    return BUILTINS[canon("numpy.swapaxes")](it, [o] + list(args), kw)


def permute(it, o, axes):
    a = arr_of(it, o)
    ax = it.D(axes)
    ax = ax.items if isinstance(ax, ListV) else ax
    p = [as_num(it.D(x)).r for x in ax]
    if len(p) != a.ndim or not all(tm.is_const(x) for x in p):
        unsup("transpose")
    p = [int(tm.cval(x)) % a.ndim for x in p]
    if sorted(p) != list(range(a.ndim)):
        unsup("transpose")
    return it.view(Arr(tuple(a.shape[q] for q in p), lambda *i: a.at(*[i[p.index(d)] for d in range(a.ndim)]), a.kind), o)


def transpose(it, o):
    a = it.D(o)
    if isinstance(a, Arr):
        if a.ndim <= 1:
            return o
        if a.ndim == 2:
            return it.view(Arr((a.shape[1], a.shape[0]), lambda i, j: a.at(j, i), a.kind), o)
    if isinstance(a, Frame):
        from . import lib_pd
        return lib_pd.transpose(it, o)
    unsup("transpose")


@attr("Arr", "T")
def _(it, o):
    return transpose(it, o)


@attr("Arr", "shape")
def _(it, o):
    return tuple(Num(s) for s in it.D(o).shape)


@attr("Arr", "size")
def _(it, o):
    c = it.D(o)
    return Num(tm.mul(*c.shape) if c.shape else ONE)


@attr("Arr", "ndim")
def _(it, o):
    return num(it.D(o).ndim)


@attr("Arr", "values")
def _(it, o):
    unsup("values of an array")


@attr("where", "size")
def _(it, o):
    c = it.D(o)
    # number of selected positions: only its sign is known
    j = tm.fresh("w", "I", c.cond.shape[0])
    ex = tm.Exists(j, c.cond.shape[0], as_bool(c.cond.at(j)))
    n = tm.ite(ex, ONE, ZERO)
    return Num(tm.mul(n, tm.add(ONE, count_of(it, c)))) if False else Opaque("wsize", ex=ex)


def count_of(it, c):
    return ZERO


def _axis(it, kw, args, pos=0):
    v = kw.get("axis", args[pos] if len(args) > pos else None)
    v = it.D(v) if v is not None else None
    if v is None:
        return None
    return int(tm.cval(v.r)) if isinstance(v, Num) else v


def _reduce(it, a, axis, red, keep=False):
    """red(v, n, x): reduce Num x over v<n"""
    if isinstance(a, FlatArr) and red is red_sum and axis in (None, 0, -1) and not keep:
        a, axis = a.src, None
    if axis is None:
        vs = [tm.fresh("k", "I", s) for s in a.shape]
        x = finite(it, a.at(*vs), [tm.lt(v, n) for v, n in zip(vs, a.shape)])
        for v, n in reversed(list(zip(vs, a.shape))):
            x = red(v, n, x)
        return x
    if axis < 0:
        axis += a.ndim
    n = a.shape[axis]
    sh = a.shape[:axis] + ((ONE,) if keep else ()) + a.shape[axis + 1:]

    def f(*i):
        v = tm.fresh("k", "I", n)
        rest = i[:axis] + (v,) + (i[axis + 1:] if keep else i[axis:])
        return red(v, n, finite(it, a.at(*rest), [tm.lt(k, m) for k, m in zip(rest, a.shape)]))
    if not sh:
        return f()
    return it.new(Arr(sh, f))


def red_sum(v, n, x):
    return fsum(v, n, as_num(x))


def red_any(v, n, x):
    return BoolV(tm.Exists(v, n, as_bool(x)))


def red_all(v, n, x):
    return BoolV(tm.Forall(v, n, as_bool(x)))


def red_nansum(v, n, x):
    x = as_num(x)
    if x.inf is not FALSE:
        unsup("sum of infinite values")
    return Num(tm.mk_sum(v, n, x.r if x.nan is FALSE else tm.ite(x.nan, ZERO, x.r)))


def _keep(it, kw):
    k = it.D(kw.get("keepdims")) if "keepdims" in kw else None
    return isinstance(k, BoolV) and k.t is TRUE


def np_sum(it, a, axis, keep=False):
    if a.kind == "obj":
        unsup("sum of objects")
    return _reduce(it, a, axis, red_sum, keep)


@lib("numpy.sum")
def _(it, args, kw):
    c = it.D(args[0])
    if isinstance(c, (Frame, Series)):
        from . import lib_pd
        return lib_pd.np_sum(it, args[0], _axis(it, kw, args, 1))
    return np_sum(it, arr_of(it, args[0]), _axis(it, kw, args, 1), _keep(it, kw))


def running(it, what, n, cell, rng=()):
    """k -> sum (product) of the cells 0..k of a sequence without missing values"""
    k = tm.fresh("k", "I")
    tm.lower_bound[k] = 0
    x = finite(it, as_num(cell(k)), [tm.ge(k, ZERO), tm.lt(k, n), *rng])
    if it.simp(Or(x.nan, x.inf), [tm.ge(k, ZERO), tm.lt(k, n), *rng]) is not FALSE:
        unsup(f"{what} of missing values")
    if what == "cumsum":
        def f(i):
            v = tm.fresh("k", "I", n)
            return Num(tm.mk_sum(v, tm.add(i, ONE), tm.subst(x.r, {k: v})))
        return f
    from . import interp as ip
    q, ph = tm.fresh("k", "I"), f"cp!{next(tm._fresh)}"
    tm.lower_bound[q] = 1
    g = ip.make_rec(q, [], ONE, tm.mul(tm._app(ph, (), "R"), tm.subst(x.r, {k: tm.sub(q, ONE)})), ph)
    return lambda i: Num(g(tm.add(i, ONE), ()))


def accumulated(it, what, o, axis):
    c = it.D(o)
    if isinstance(c, (Frame, Series)):
        if axis not in (None, 0):
            unsup(f"{what} along the columns")
        a = it.affine(c.rows if isinstance(c, Frame) else c.axis)
        if isinstance(c, Series):
            f = running(it, what, a.n, lambda k: c.at(tm.add(a.off, k)))
            return it.new(Series(a, lambda r: f(tm.sub(r, a.off))))
        return it.new(Frame(a, c.cols, lambda r, j: running(it, what, a.n, lambda k: c.at(tm.add(a.off, k), j))(tm.sub(r, a.off))))
    a = arr_of(it, o)
    if a.ndim not in (1, 2) or (a.ndim == 2 and axis != 0) or axis not in (None, 0):
        unsup(f"{what} of this array")
    if a.ndim == 1:
        f = running(it, what, a.shape[0], a.at)
        return it.new(Arr(a.shape, f))
    return it.new(Arr(a.shape, lambda i, j: running(it, what, a.shape[0], lambda k: a.at(k, j))(i)))


for _what in ("cumsum", "cumprod"):
    def _acc(what):
        @lib(f"numpy.{what}")
        def _(it, args, kw):
            return accumulated(it, what, args[0], _axis(it, kw, args, 1))
        for _c in ("Arr", "Series", "Frame"):
            @method(_c, what)
            def _(it, o, args, kw):
                return accumulated(it, what, o, _axis(it, kw, args))
    _acc(_what)


@lib("numpy.nansum")
def _(it, args, kw):
    return _reduce(it, arr_of(it, args[0]), _axis(it, kw, args, 1), red_nansum, _keep(it, kw))


@lib("numpy.nanmean")
def _(it, args, kw):
    from . import lib_pd
    return _reduce(it, arr_of(it, args[0]), _axis(it, kw, args, 1), lib_pd.red_nanmean, _keep(it, kw))


@method("Arr", "sum")
def _(it, o, args, kw):
    return np_sum(it, it.D(o), _axis(it, kw, args), _keep(it, kw))


def np_mean(it, a, axis):
    s = _reduce(it, a, axis, red_sum)
    n = tm.mul(*a.shape) if axis is None else a.shape[axis]
    return it.binop("Div", s, Num(n))


@lib("numpy.mean")
def _(it, args, kw):
    return np_mean(it, arr_of(it, args[0]), _axis(it, kw, args, 1))


@method("Arr", "mean")
def _(it, o, args, kw):
    return np_mean(it, it.D(o), _axis(it, kw, args))


@method("Arr", "all")
def _(it, o, args, kw):
    return _reduce(it, it.D(o), _axis(it, kw, args), red_all)


@method("Arr", "any")
def _(it, o, args, kw):
    return _reduce(it, it.D(o), _axis(it, kw, args), red_any)


@lib("numpy.all")
def _(it, args, kw):
    return _reduce(it, arr_of(it, args[0]), _axis(it, kw, args, 1), red_all)


@lib("numpy.any")
def _(it, args, kw):
    return _reduce(it, arr_of(it, args[0]), _axis(it, kw, args, 1), red_any)


@method("Arr", "clip")
def _(it, o, args, kw):
    return BUILTINS["np.clip"](it, [o] + list(args), kw)


@method("Arr", "copy", "astype")
def _(it, o, args, kw):
    a = it.D(o)
    ty = args[0] if args else kw.get("dtype")
    if it.element_type == "bool" and a.kind == "num":
        def nz(*k):
            x = as_num(a.at(*k))
            return BoolV(Or(x.nan, x.inf, Not(tm.eq0(x.r))))
        return it.new(Arr(a.shape, nz, "bool"))
    if it.element_type == "float" and a.kind == "bool":
        return it.new(Arr(a.shape, lambda *k: as_num(a.at(*k)), "num"))
    return it.new(Arr(a.shape, a.fn, a.kind))


@method("Arr", "tolist")
def _(it, o, args, kw):
    a = it.D(o)
    return it.new(Seq(a.shape[0], lambda k: a.at(k))) if a.ndim == 1 else unsup("tolist")


@method("Arr", "flatten", "ravel")
def _(it, o, args, kw):
    a = it.D(o)
    return it.view(ravel(it, a), o)


@lib("numpy.ravel")
def _(it, args, kw):
    return it.view(ravel(it, arr_of(it, args[0])), args[0])


@method("Arr", "dot")
def _(it, o, args, kw):
    return it.binop("MatMult", o, args[0])


@method("Arr", "item")
def _(it, o, args, kw):
    a = it.D(o)
    return a.at(*[ZERO] * a.ndim)


def reshape(it, o, shape):
    a = it.D(o)
    if not isinstance(a, Arr):
        a = arr_of(it, o)
    neg1 = [k for k, s in enumerate(shape) if tm.is_const(s) and tm.cval(s) == -1]
    src = [s for s in a.shape if s is not ONE]
    tgt = [s for k, s in enumerate(shape) if s is not ONE]
    # remove/insert unit dimensions (and infer -1)
    want = list(shape)
    if neg1:
        k = neg1[0]
        others = [s for j, s in enumerate(shape) if j != k and s is not ONE]
        rem = list(src)
        for s in others:
            hit = [r for r in rem if same_dim(it, r, s)]
            if not hit:
                unsup("reshape")
            rem.remove(hit[0])
        want[k] = tm.mul(*rem) if rem else ONE
        if len(rem) > 1:
            if len([s for s in want if s is not ONE]) == 1:
                f = ravel(it, a)
                keep = [q for q, s in enumerate(want) if s is not ONE][0]
                return it.view(Arr(tuple(want), lambda *i: f.at(i[keep]), a.kind), o)
            unsup("reshape merging dimensions")
    tgt = [s for s in want if s is not ONE]
    if len(src) != len(tgt) or any(not same_dim(it, x, y) for x, y in zip(src, tgt)):
        if len(tgt) == len(src):
            unsup("reshape")
        # dims that are provably one
        unsup("reshape")
    spos = [k for k, s in enumerate(a.shape) if s is not ONE]
    tpos = [k for k, s in enumerate(want) if s is not ONE]

    def f(*i):
        j = [ZERO] * a.ndim
        for s, t in zip(spos, tpos):
            j[s] = i[t]
        return a.at(*j)
    return it.view(Arr(tuple(want), f, a.kind), o)


@method("Arr", "reshape")
def _(it, o, args, kw):
    sh = _shape_arg(it, args[0]) if len(args) == 1 else tuple(as_num(it.D(x)).r for x in args)
    return reshape(it, o, sh)


@lib("numpy.reshape")
def _(it, args, kw):
    return reshape(it, args[0], _shape_arg(it, args[1]))


@lib("numpy.squeeze")
def _(it, args, kw):
    a = arr_of(it, args[0])
    return reshape(it, args[0], tuple(s for s in a.shape if s is not ONE))


@lib("numpy.expand_dims")
def _(it, args, kw):
    a = arr_of(it, args[0])
    ax = _axis(it, kw, args, 1)
    if ax < 0:
        ax += a.ndim + 1
    return reshape(it, args[0], a.shape[:ax] + (ONE,) + a.shape[ax:])


@lib("numpy.column_stack")
def _(it, args, kw):
    a = stackable(it, args[0])
    if a.ndim != 2:
        unsup("column_stack of matrices")
    return it.new(Arr((a.shape[1], a.shape[0]), lambda i, j: a.at(j, i), a.kind))


def two_d(a):
    if a.ndim == 0:
        return Arr((ONE, ONE), lambda i, j: a.at(), a.kind)
    if a.ndim == 1:
        return Arr((ONE, a.shape[0]), lambda i, j: a.at(j), a.kind)
    return a


@lib("numpy.vstack")
def _(it, args, kw):
    c = it.D(args[0])
    if isinstance(c, (tuple, ListV)):
        parts = [two_d(arr_of(it, x)) for x in (c if isinstance(c, tuple) else c.items)]
        for p in parts:
            if p.ndim != 2:
                unsup("vstack of stacks")
            if not same_dim(it, p.shape[1], parts[0].shape[1]):
                unsup("vstack of different widths")
        return it.new(concat(parts, 0))
    a = stackable(it, args[0])
    if a.ndim == 2:
        return it.new(Arr(a.shape, a.fn, a.kind))
    return it.new(unstack(it, a))


def unstack(it, a):
    """arrays a[0], a[1], ... of equal shape joined along their first axis"""
    if a.ndim == 2:
        return FlatArr(a)
    p = a.shape[1]

    def at(i, *r):
        q, m = split_flat(i, p)
        return a.at(q, m, *r)
    return Arr((tm.mul(a.shape[0], p),) + a.shape[2:], at, a.kind)


@lib("numpy.stack")
def _(it, args, kw):
    a = stackable(it, args[0])
    ax = _axis(it, kw, args, 1) or 0
    if ax == 0:
        return it.new(Arr(a.shape, a.fn, a.kind))
    if ax in (1, -1) and a.ndim == 2:
        return it.new(Arr((a.shape[1], a.shape[0]), lambda i, j: a.at(j, i), a.kind))
    unsup("stack axis")


def stackable(it, v):
    c = it.D(v)
    if isinstance(c, Series):
        from . import lib_pd
        return arr_of(it, lib_pd.seq_of_series(it, c))
    return arr_of(it, v)


@lib("numpy.hstack", "numpy.concatenate")
def _(it, args, kw):
    c = it.D(args[0])
    ax = _axis(it, kw, args, 1)
    parts = [arr_of(it, x) for x in (c if isinstance(c, tuple) else c.items)] if isinstance(c, (tuple, ListV)) else None
    if parts is None:
        a = stackable(it, args[0])
        if ax not in (None, 0) or a.ndim < 2:
            unsup("concatenation of a symbolic number of arrays")
        return it.new(unstack(it, a))
    nd = parts[0].ndim
    if any(p.ndim != nd for p in parts):
        unsup("concatenate")
    if ax is None:
        ax = 0 if nd == 1 else (1 if "hstack" in str(kw) else 0)
    return it.new(concat(parts, ax))


def concat(parts, ax):
    ends = []
    acc = ZERO
    for p in parts:
        acc = tm.add(acc, p.shape[ax])
        ends.append(acc)
    sh = parts[0].shape[:ax] + (acc,) + parts[0].shape[ax + 1:]

    def f(*i):
        v = None
        st = [ZERO] + ends[:-1]
        for p, s, e in reversed(list(zip(parts, st, ends))):
            x = p.at(*(i[:ax] + (tm.sub(i[ax], s),) + i[ax + 1:]))
            v = x if v is None else vite(tm.lt(i[ax], e), x, v)
        return v
    return Arr(sh, f, parts[0].kind)


@lib("numpy.block")
def _(it, args, kw):
    def rows(v):
        c = it.D(v)
        return list(c) if isinstance(c, tuple) else list(c.items) if isinstance(c, ListV) else None
    outer = rows(args[0])
    if not outer or any(not rows(x) for x in outer):
        unsup("blocks other than a list of rows of matrices")
    parts = [[arr_of(it, y) for y in rows(x)] for x in outer]
    if any(p.ndim != 2 for r in parts for p in r):
        unsup("blocks other than matrices")
    return it.new(concat([concat(r, 1) for r in parts], 0))


@lib("numpy.hstack")
def _(it, args, kw):
    c = it.D(args[0])
    if not isinstance(c, (tuple, ListV)):
        unsup("hstack")
    parts = [arr_of(it, x) for x in (c if isinstance(c, tuple) else c.items)]
    return it.new(concat(parts, 0 if parts[0].ndim == 1 else 1))


@lib("numpy.corrcoef")
def _(it, args, kw):
    """matrix of correlations of two samples; a constant sample (zero variance) gives missing values"""
    if len(args) != 2 or kw:
        unsup("options of corrcoef")
    x, y = (arr_of(it, v) for v in args)
    if x.ndim != 1 or y.ndim != 1:
        unsup("corrcoef of tables")
    if not same_dim(it, x.shape[0], y.shape[0]):
        it.raise_if(Not(tm.eq(x.shape[0], y.shape[0])), "ValueError")
    mean = lambda a: as_num(it.D(np_mean(it, a, None)))
    dev = [it.D(elementwise(it, lambda u, m: n_sub(as_num(u), as_num(m)), [it.new(a), mean(a)])) for a in (x, y)]
    prod = lambda a, b: as_num(it.D(_reduce(it, it.D(elementwise(it, lambda u, v: n_mul(as_num(u), as_num(v)), [it.new(a), it.new(b)])), None, red_sum)))
    cells = [[n_div(prod(a, b), n_mul(n_sqrt(prod(a, a)), n_sqrt(prod(b, b)))) for b in dev] for a in dev]

    def at(i, j):
        pick = lambda row: vite(tm.eq(j, ZERO), row[0], row[1])
        return vite(tm.eq(i, ZERO), pick(cells[0]), pick(cells[1]))
    return it.new(Arr((tm.const(2), tm.const(2)), at))


@lib("numpy.append")
def _(it, args, kw):
    if len(args) != 2 or kw:
        unsup("numpy.append along an axis")
    return it.new(concat([ravel(it, arr_of(it, x)) for x in args], 0))


@lib("numpy.sort", "numpy.argsort", "numpy.percentile")
def _(it, args, kw):
    unsup("numpy reduction outside the subset")


def red_opaque(op, skip, par=0.0):
    """a reduction without laws: equal lists of values give the same result"""
    def red(v, n, x):
        import hashlib
        x = as_num(x)
        if x.inf is not FALSE:
            unsup(f"{op} of possibly infinite values")
        iv = tm.Var("$mi", "I")
        nan = x.nan if skip else FALSE
        m = tm.ite(nan, ONE, ZERO)
        (body, miss, dim), params, pvars = tm.abstract([tm.subst(x.r, {v: iv}), tm.subst(m, {v: iv}), n], [iv])
        key = f"RED{op}{par}" + body.s + "|" + miss.s + "|" + dim.s + "|" + ",".join(q.sort for q in pvars)
        name = f"RED{op}" + hashlib.md5(key.encode()).hexdigest()[:8]
        matfns[name] = ("red", tuple(pvars), iv, (op, par, miss), body, dim)
        integer = op.startswith("arg")
        missing = tm.le(n, ZERO) if not op.startswith("s") else tm.le(n, ONE) if par else tm.le(n, ZERO)
        if tm.known_nonneg(tm.sub(n, ONE)) and not par:
            missing = FALSE
        if x.nan is not FALSE:
            missing = tm.Or(missing, tm.Forall(v, n, x.nan) if skip else tm.Exists(v, n, x.nan))
        return Num(tm._app(name, tuple(params), "I" if integer else "R"), missing)
    return red


def _par(it, op, kw, args, pandas):
    if op in ("std", "var"):
        d = kw.get("ddof")
        if d is None:
            return 1.0 if pandas else 0.0
        d = as_num(it.D(d)).r
        if not tm.is_const(d):
            unsup("degrees of freedom")
        return float(tm.cval(d))
    if op == "quantile":
        q = kw.get("q", args[0] if args else None)
        q = num(0.5) if q is None else it.D(q)
        if not isinstance(q, Num) or not tm.is_const(q.r):
            unsup("quantile level")
        return float(tm.cval(q.r))
    return 0.0


def np_var(it, a, ax, ddof, keep, root):
    """mean squared deviation from the mean along the axis (or over everything), the count lowered by ddof; or its root"""
    if ax is not None and ax < 0:
        ax += a.ndim
    m = np_mean(it, a, ax)
    if ax is None:
        mean = lambda i: as_num(it.D(m))
        ns = list(a.shape)
    else:
        mc = it.D(m)
        mean = lambda i: as_num(mc.at(*(i[:ax] + i[ax + 1:]))) if isinstance(mc, Arr) else as_num(mc)
        ns = [a.shape[ax]]
    dev = Arr(a.shape, lambda *i: (lambda d: n_mul(d, d))(n_sub(as_num(a.at(*i)), mean(i))), a.kind)
    tot = _reduce(it, dev, ax, red_sum, keep)
    den = Num(tm.sub(tm.mul(*ns) if len(ns) > 1 else ns[0], tm.const(ddof)))

    def fin(x):
        v = n_div(as_num(x), den)
        return Num(tm.sqrt(v.r), v.nan, v.inf) if root else v          # a mean of squares is not negative
    if ddof not in (0, 1):
        unsup("degrees of freedom")
    t = it.D(tot)
    return it.new(Arr(t.shape, lambda *i: fin(t.at(*i)))) if isinstance(t, Arr) else fin(t)


def _np_red(op):
    def g(it, args, kw):
        a = arr_of(it, args[0])
        ax = _axis(it, {k: v for k, v in kw.items() if k == "axis"}, args[:1] if op == "quantile" else args, 1)
        if op in ("std", "var"):
            d = kw.get("ddof")
            d = as_num(it.D(d)).r if d is not None else ZERO
            if not tm.is_const(d) and it.prove(Or(tm.eq(d, ZERO), tm.eq(d, ONE))):
                # ddof is zero or one
                x, y = (it.D(np_var(it, a, ax, q, _keep(it, kw), op == "std")) for q in (0.0, 1.0))
                v = vite(tm.eq(d, ZERO), x, y)
                return it.new(v) if isinstance(v, Arr) else v
            return np_var(it, a, ax, _par(it, op, kw, args[1:], False), _keep(it, kw), op == "std")
        if ax is None and a.ndim > 1 and op not in ("max", "min"):
            unsup(f"{op} over several axes")
        return _reduce(it, a, ax, red_opaque(op, False, _par(it, op, kw, args[1:], False)), _keep(it, kw))
    lib("numpy." + op, *(["numpy.a" + op] if op in ("max", "min") else []))(g)

    @method("Arr", op)
    def h(it, o, args, kw):
        return g(it, [o] + list(args), kw)


for _op in ("max", "min", "median", "std", "var", "quantile", "argmax", "argmin", "prod"):
    _np_red(_op)



@lib("numpy.trace")
def _(it, args, kw):
    a = arr_of(it, args[0])
    v = tm.fresh("k", "I", a.shape[0])
    return fsum(v, a.shape[0], as_num(a.at(v, v)))


@lib("numpy.triu")
def _(it, args, kw):
    a = arr_of(it, args[0])
    k = as_num(it.D(args[1])).r if len(args) > 1 else (as_num(it.D(kw["k"])).r if "k" in kw else ZERO)
    if a.kind == "bool":
        return it.new(Arr(a.shape, lambda i, j: BoolV(And(tm.le(tm.add(i, k), j), as_bool(a.at(i, j)))), "bool"))
    return it.new(Arr(a.shape, lambda i, j: vite(tm.le(tm.add(i, k), j), a.at(i, j), num(0))))


@lib("numpy.tril")
def _(it, args, kw):
    a = arr_of(it, args[0])
    k = as_num(it.D(args[1])).r if len(args) > 1 else (as_num(it.D(kw["k"])).r if "k" in kw else ZERO)
    if a.kind == "bool":
        return it.new(Arr(a.shape, lambda i, j: BoolV(And(tm.le(j, tm.add(i, k)), as_bool(a.at(i, j)))), "bool"))
    return it.new(Arr(a.shape, lambda i, j: vite(tm.le(j, tm.add(i, k)), a.at(i, j), num(0))))


@lib("numpy.linalg.norm")
def _(it, args, kw):
    a = arr_of(it, args[0])
    if a.ndim == 2 and isinstance(it.D(kw.get("axis")), Num):                   # of the rows or columns
        k = it.D(kw["axis"]).r
        if "ord" in kw or len(args) > 1 or not tm.is_const(k) or tm.cval(k) not in (0, 1, -1):
            unsup("norm along an axis")
        p = int(tm.cval(k)) % 2

        def along(q):
            u = tm.fresh("k", "I", a.shape[p])
            x = as_num(a.at(u, q) if p == 0 else a.at(q, u))
            return n_sqrt(fsum(u, a.shape[p], finite(it, n_mul(x, x), [tm.lt(u, a.shape[p])])))
        return it.new(Arr((a.shape[1 - p],), along))
    if a.ndim == 2:
        o = it.D(args[1] if len(args) > 1 else kw.get("ord")) if (len(args) > 1 or "ord" in kw) else None
        if isinstance(o, Num) and tm.is_const(o.r) and tm.cval(o.r) == 2:          # root of the largest eigenvalue of A'A
            u = tm.fresh("k", "I", a.shape[0])
            w, _ = eigh(it, Arr((a.shape[1], a.shape[1]), lambda i, j: fsum(u, a.shape[0], n_mul(as_num(a.at(u, i)), as_num(a.at(u, j))))))
            x = as_num(w.at(tm.sub(a.shape[1], ONE)))
            return Num(tm.sqrt(x.r), x.nan, x.inf)
        if o is not None and o != "fro":
            unsup("matrix norm")
        u, v = tm.fresh("k", "I", a.shape[0]), tm.fresh("k", "I", a.shape[1])
        x = as_num(a.at(u, v))
        s = fsum(u, a.shape[0], fsum(v, a.shape[1], n_mul(x, x)))
        return Num(tm.sqrt(s.r), s.nan, s.inf)
    if a.ndim != 1:
        unsup("norm of an array of more dimensions")
    o = it.D(args[1] if len(args) > 1 else kw.get("ord")) if (len(args) > 1 or "ord" in kw) else None
    v = tm.fresh("k", "I", a.shape[0])
    x = as_num(a.at(v))
    if o is None or (isinstance(o, Num) and tm.is_const(o.r) and tm.cval(o.r) == 2):
        return n_sqrt(fsum(v, a.shape[0], n_mul(x, x)))
    if isinstance(o, Num) and tm.is_const(o.r) and tm.cval(o.r) == 1:
        return fsum(v, a.shape[0], n_abs(x))
    unsup("norm")


# ---------------------------------------------------------------- linear algebra (assumed contracts)
def factors_inside(t):
    """x * ite(c, v, 0) written as ite(c, x * v, 0)"""
    terms = []
    for mono, c in tm.poly(t).items():
        pick = [q for q, (a, e) in enumerate(mono) if a.op == "ite" and e == 1 and ZERO in a.args[1:]]
        if not pick:
            terms.append(tm.scale(tm._mono_term(mono), c))
            continue
        rest = tm.scale(tm._mono_term(mono[:pick[0]] + mono[pick[0] + 1:]), c)
        cond, a, b = mono[pick[0]][0].args
        terms.append(tm.ite(cond, tm.mul(rest, a), tm.mul(rest, b)))
    return tm.add(*terms) if terms else t


def _matfn(it, prefix, a, sort_outputs):
    """name and parameters of a function of a symbolic matrix: equal matrices (normal forms) give the
    same function"""
    import hashlib
    i, j = tm.Var("$mi", "I"), tm.Var("$mj", "I")
    x = a.at(i, j)
    if x.inf is not FALSE:
        unsup("matrix with infinite entries")
    n = a.shape[0]
    nan = FALSE
    if x.nan is not FALSE:
        vi, vj = tm.fresh("i", "I", n), tm.fresh("j", "I", a.shape[1])
        nan = tm.Exists(vi, n, tm.Exists(vj, a.shape[1], a.at(vi, vj).nan))
        nan = it.simp(nan)
    (body, dim), params, pvars = tm.abstract([factors_inside(x.r), n], [i, j])
    if any(y.op == "app" and y.args[0].startswith("ph!") for y in tm.walk(body)):
        unsup("function of a matrix carried by a loop")
    key = prefix + body.s + "|" + dim.s + "|" + ",".join(v.sort for v in pvars)
    name = prefix + hashlib.md5(key.encode()).hexdigest()[:8]
    return name, tuple(params), tuple(pvars), i, j, body, dim, nan


matfns: dict = {}      # name -> (kind, params, i, j, body, dim)


def inv(it, o):
    c = it.D(o)
    a = arr_of(it, o)
    if a.ndim == 3:
        return it.new(stacked(it, a, lambda m: it.D(inv(it, m)), 2))
    if a.ndim != 2:
        unsup("inverse")
    if it.cuts is not None:
        a = it.cut_table(a)
    i, j = tm.Var("$mi", "I"), tm.Var("$mj", "I")
    name, params, pvars, i, j, body, dim, nan = _matfn(it, "INV", a, 1)
    matfns[name] = ("inv", pvars, i, j, body, dim)
    tm.inv_def[name] = (pvars, i, j, body, dim)
    sym = body is tm.subst(body, {i: j, j: i})

    if sym:
        tm.symmetric[name] = (-2, -1)

    def f(r, s):
        return Num(tm._app(name, params + (r, s), "R"), nan)
    it.obs.append(("inv", And(*it.pc), a))
    return it.new(Arr(a.shape, f))


@lib("numpy.linalg.inv", "scipy.linalg.inv", "numpy.linalg.pinv")
def _(it, args, kw):
    return inv(it, args[0])


@lib("numpy.linalg.cholesky")
def _(it, args, kw):
    return cholesky(it, args[0])


def stacked(it, a, f, rank):
    """a matrix function applied to every matrix of a stack"""
    memo = {}

    def part(t):
        if t not in memo:
            memo[t] = f(Arr(a.shape[1:], lambda i, j: a.at(t, i, j), a.kind))
        return memo[t]
    return Arr((a.shape[0],) + a.shape[1:1 + rank], lambda t, *k: part(t).at(*k) if rank else part(t))


def cholesky(it, o):
    a = arr_of(it, o)
    if a.ndim == 3:
        return it.new(stacked(it, a, lambda m: it.D(cholesky(it, m)), 2))
    if a.ndim != 2:
        unsup("cholesky")
    name, params, pvars, i, j, body, dim, nan = _matfn(it, "CHOL", a, 1)
    matfns[name] = ("chol", pvars, i, j, body, dim)
    tm.chol_def[name] = (pvars, i, j, body, dim)
    it.obs.append(("chol", And(*it.pc), a))

    def f(r, s):
        # lower triangular with positive diagonal
        t = tm._app(name, params + (r, s), "R")
        if r is s:
            pv.positive.add(t)
        return Num(tm.ite(tm.lt(r, s), ZERO, t), nan)
    return it.new(Arr(a.shape, lambda r, s: Num(tm._app(name, params + (r, s), "R"), nan)))


@lib("numpy.linalg.det")
def _(it, args, kw):
    return det(it, arr_of(it, args[0]))


def det(it, a):
    if a.ndim == 3:
        return it.new(stacked(it, a, lambda m: det(it, m), 0))
    name, params, pvars, i, j, body, dim, nan = _matfn(it, "DET", a, 1)
    matfns[name] = ("det", pvars, i, j, body, dim)
    return Num(tm._app(name, params, "R") if params else tm._app(name, (), "R"), nan)


@lib("numpy.linalg.slogdet")
def _(it, args, kw):
    return Fields(("sign", "logabsdet"), slogdet(it, arr_of(it, args[0])))


def slogdet(it, a):
    if a.ndim == 3:
        return (it.new(Arr((a.shape[0],), lambda t: num(1))), it.new(stacked(it, a, lambda m: slogdet(it, m)[1], 0)))
    name, params, pvars, i, j, body, dim, nan = _matfn(it, "DET", a, 1)
    matfns[name] = ("det", pvars, i, j, body, dim)
    t = tm._app(name, params, "R")
    pv.positive.add(t)
    it.obs.append(("assume", "determinants passed to slogdet are positive"))
    return (num(1), Num(tm.log(t), nan))


@lib("numpy.linalg.solve")
def _(it, args, kw):
    return it.binop("MatMult", inv(it, args[0]), args[1])


def eigh(it, a):
    """ascending eigenvalues LAM(m) and orthonormal eigenvectors VEC(i, m) of a symmetric matrix"""
    name, params, pvars, i, j, body, dim, nan = _matfn(it, "EIG", a, 2)
    if body is not tm.subst(body, {i: j, j: i}):
        unsup("eigendecomposition of a matrix not syntactically symmetric")
    vec, val = name + "v", name + "l"
    matfns[vec] = ("eigvec", pvars, i, j, body, dim)
    matfns[val] = ("eigval", pvars, i, j, body, dim)
    tm.orth_def[vec] = (pvars, dim)
    tm.eig_def[vec] = (val, pvars, i, j, body, dim)
    n = a.shape[0]
    w = Arr((n,), lambda m: Num(tm._app(val, params + (m,), "R"), nan))
    V = Arr((n, n), lambda r, m: Num(tm._app(vec, params + (r, m), "R"), nan))
    it.obs.append(("eig", a, w, V))
    p, q = tm.fresh("i", "I"), tm.fresh("j", "I")
    if gram_like(a.at(p, q).r, p, q):
        pv.nonneg_apps[val] = lambda args: True
    return w, V


@lib("scipy.linalg.eigh", "numpy.linalg.eigh")
def _(it, args, kw):
    a = arr_of(it, args[0] if args else kw["a"])
    w, V = eigh(it, a)
    sub = kw.get("subset_by_index")
    if sub is not None:
        s = it.D(sub)
        items = s.items if isinstance(s, ListV) else s
        lo, hi = [as_num(it.D(x)).r for x in items]
        n = tm.add(tm.sub(hi, lo), ONE)
        w2, V2 = w, V
        w = Arr((n,), lambda m: w2.at(tm.add(lo, m)))
        V = Arr((V2.shape[0], n), lambda r, m: V2.at(r, tm.add(lo, m)))
    for k in kw:
        if k not in ("a", "subset_by_index"):
            unsup("eigh options")
    return (it.new(w), it.new(V))


@lib("numpy.random.seed", "numpy.random.normal", "numpy.random.randn", "numpy.random.default_rng")
def _(it, args, kw):
    unsup("random numbers")


@lib("numpy.isclose", "numpy.allclose")
def _(it, args, kw):
    unsup("approximate comparison")


@lib("numpy.einsum")
def _(it, args, kw):
    spec = it.D(args[0])
    if not isinstance(spec, str):
        unsup("einsum")
    spec = spec.replace(" ", "")
    lhs, rhs = spec.split("->") if "->" in spec else unsup("einsum without output")
    ins = lhs.split(",")
    arrs = [arr_of(it, x) for x in args[1:]]
    dims = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            unsup("einsum")
        for ch, d in zip(s, a.shape):
            if ch in dims and not same_dim(it, dims[ch], d):
                unsup("einsum shapes")
            dims.setdefault(ch, d)
    summed = [c for c in dims if c not in rhs]

    def f(*i):
        m = dict(zip(rhs, i))
        vs = {c: tm.fresh("k", "I", dims[c]) for c in summed}
        m.update(vs)
        x = num(1)
        for s, a in zip(ins, arrs):
            x = n_mul(x, as_num(a.at(*[m[c] for c in s])))
        for c in reversed(summed):
            x = fsum(vs[c], dims[c], x)
        return x
    if not rhs:
        return f()
    return it.new(Arr([dims[c] for c in rhs], f))


# ---------------------------------------------------------------- symmetric linear operators
def gram_like(t, i, j):
    """the function of (i, j) is a sum with positive coefficients of products f(i) f(j), possibly under sums: positive
    semidefinite in (i, j)"""
    def split(mono):
        left = [(a, e) for a, e in mono if i in a.fv and j not in a.fv]
        right = [(a, e) for a, e in mono if j in a.fv and i not in a.fv]
        both = [(a, e) for a, e in mono if i in a.fv and j in a.fv]
        rest = [(a, e) for a, e in mono if i not in a.fv and j not in a.fv]
        if not pv.is_nonneg(tm._mono_term(tuple(rest))):
            return False
        x = tm.subst(tm._mono_term(tuple(left)), {i: j})
        if x is not tm._mono_term(tuple(right)):
            return False
        for a, e in both:
            if a.op != "sum" or e != 1 or any(i in n.fv or j in n.fv for n in a.args[1]) or not split(a.args[2]):
                return False
        return True
    return all(c > 0 and split(m) for m, c in tm.poly(t).items())


@lib("scipy.sparse.linalg.LinearOperator")
def _(it, args, kw):
    shape = it.D(args[0] if args else kw["shape"])
    f = args[1] if len(args) > 1 else kw.get("matvec")
    for k in kw:
        if k not in ("shape", "matvec", "rmatvec", "dtype"):
            unsup("linear operator options")
    if f is None or not isinstance(shape, tuple) or len(shape) != 2:
        unsup("linear operator")
    return Opaque("linop", shape=tuple(as_num(it.D(x)).r for x in shape), f=f)


def operator_matrix(it, o):
    """the matrix of a linear operator given by x -> A x: its values on unit vectors, shown to give its value on every vector"""
    from . import logic
    n = o.d["shape"][0]
    i, l = tm.fresh("i", "I", n), tm.fresh("l", "I", n)

    def image(x):
        y = arr_of(it, it.call(o.d["f"], [it.new(x)], {}))
        if y.ndim == 2 and y.shape[1] is ONE:
            y2 = y
            y = Arr((y.shape[0],), lambda q: y2.at(q, ZERO))
        if y.ndim != 1 or y.shape[0] is not n:
            unsup("value of a linear operator")
        return y
    e = image(Arr((n,), lambda q: Num(tm.ite(tm.eq(q, l), ONE, ZERO))))
    col = e.at(i)
    if col.inf is not FALSE or col.nan is not FALSE and it.simp(col.nan) is not FALSE:
        unsup("linear operator with missing values")
    body = factors_inside(logic.simplify_under(it.simp(col.r), it.known() + [tm.lt(i, n), tm.lt(l, n)]))
    A = Arr((n, n), lambda p, q: Num(tm.subst(body, {i: p, l: q})))
    x = Arr((n,), lambda q: Num(tm._app("probe$", (q,), "R")))
    y = logic.simplify_under(image(x).at(i).r, it.known() + [tm.lt(i, n)])
    s = tm.fresh("s", "I", n)
    z = tm.mk_sum(s, n, tm.mul(tm.subst(body, {l: s}), x.at(s).r))
    if not tm.is_zero(logic.align_sums([tm.sub(y, z)])[0]):
        unsup("operator not recognised as linear")
    return A


@lib("scipy.sparse.linalg.eigsh")
def _(it, args, kw):
    """k eigenvalues of largest magnitude and orthonormal eigenvectors of a positive semidefinite matrix, ascending"""
    o = it.D(args[0] if args else kw["A"])
    k = args[1] if len(args) > 1 else kw.get("k", Num(tm.const(6)))
    which = it.D(kw.get("which", "LM"))
    for q in kw:
        if q not in ("A", "k", "which", "tol", "v0", "maxiter"):
            unsup("eigsh options")
    a = operator_matrix(it, o) if isinstance(o, Opaque) and o.kind == "linop" else arr_of(it, args[0] if args else kw["A"])
    i, j = tm.fresh("i", "I"), tm.fresh("j", "I")
    if which not in ("LM", "LA"):
        unsup("eigenvalues other than the largest")
    psd = gram_like(a.at(i, j).r, i, j)
    if which == "LM" and not psd:
        unsup("eigenvalues of largest magnitude of a matrix not known to be positive semidefinite")
    w, V = eigh(it, a)
    n, r = a.shape[0], as_num(it.D(k)).r
    it.raise_if(Or(tm.le(n, r), tm.le(r, ZERO)), "TypeError")
    off = tm.sub(n, r)
    return (it.new(Arr((r,), lambda m: w.at(tm.add(off, m)))), it.new(Arr((n, r), lambda p, m: V.at(p, tm.add(off, m)))))
