"""Symbolic values: extended reals with NaN flags, arrays, tables, sequences, labels, heap references."""
from __future__ import annotations

from . import terms as tm
from .terms import TRUE, FALSE, And, Not, Or, ZERO, ONE


class Unsupported(Exception):
    """outside the verified subset (never an alarm)"""


class Fields(tuple):
    """tuple whose entries have names (results of numpy.linalg)"""

    def __new__(cls, names, vals):
        x = tuple.__new__(cls, vals)
        x.names = names
        return x


class MergeProblem(Unsupported):
    """values of two branches have no common form: the statements that follow may be executed for each branch on its own"""


class NeedFork(Exception):
    """the kind of a value depends on a condition: execute the statement for each case"""

    def __init__(self, cond):
        self.cond = cond


class NeedCarry(Exception):
    def __init__(self, loc):
        self.loc = loc


class NeedPeel(Unsupported):
    """an object changes its attributes in the loop: try with the first iteration unrolled"""


def unsup(msg):
    raise Unsupported(msg)


# ---------------------------------------------------------------- scalars
class Num:
    """extended real: r where not nan and not inf; where inf, r is +1 or -1 (sign)"""
    __slots__ = ("r", "nan", "inf")

    def __init__(self, r, nan=FALSE, inf=FALSE):
        self.r, self.nan, self.inf = r, nan, inf

    def __repr__(self):
        return f"Num({self.r}{', nan=' + repr(self.nan) if self.nan is not FALSE else ''}{', inf=' + repr(self.inf) if self.inf is not FALSE else ''})"

    def same(self, o):
        return isinstance(o, Num) and self.r is o.r and self.nan is o.nan and self.inf is o.inf


class BoolV:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"BoolV({self.t})"

    def same(self, o):
        return isinstance(o, BoolV) and self.t is o.t


NAN = Num(ZERO, TRUE)


def num(x):
    return Num(tm.const(x))


class Label:
    """an index label: abstract, only comparable within its space"""
    __slots__ = ("space", "t")

    def __init__(self, space, t):
        self.space, self.t = space, t

    def __repr__(self):
        return f"Label({self.space},{self.t})"


# label spaces whose labels are numbers: space -> function from the position to the number (set by a contract)
number_labels = {}


def label_number(v):
    """the number a label is, or None"""
    f = number_labels.get(v.space)
    return None if f is None else f(v.t)


# ---------------------------------------------------------------- functions from indices to values
class Fn:
    """value-valued function of index terms"""

    def __init__(self, n, f, ranges=None):
        self.n, self.f, self.ranges = n, f, ranges
        self._memo = {}
        self._body = None

    def __call__(self, *idx):
        r = self._memo.get(idx)
        if r is None:
            r = self.f(*idx)
            if len(self._memo) < 5000:
                self._memo[idx] = r
        return r

    def body(self):
        if self._body is None:
            vs = []
            for j in range(self.n):
                v = tm.fresh("i")
                if self.ranges is not None and self.ranges[j] is not None:
                    tm.var_range[v] = self.ranges[j]
                else:
                    tm.lower_bound[v] = 0     # labels are positions in their space
                vs.append(v)
            self._body = (vs, self(*vs))
        return self._body

    def subst(self, m):
        def g(*idx):
            vs, b = self.body()
            m2 = dict(m)
            m2.update(zip(vs, idx))
            return vsubst(b, m2)
        return Fn(self.n, g, None if self.ranges is None else [None if r is None else tm.subst(r, m) for r in self.ranges])


class Arr:
    """numpy array; element values Num / BoolV"""

    def __init__(self, shape, f, kind="num", base=None):
        self.shape = tuple(shape)
        self.fn = f if isinstance(f, Fn) else Fn(len(self.shape), f, list(self.shape))
        self.kind = kind
        self.base = base

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *idx):
        return self.fn(*idx)


class OneArr(Arr):
    """a number or a one-element vector, depending on the path taken: only element-wise use is within reach"""

    def __init__(self, f, kind="num"):
        super().__init__((ONE,), f, kind)


def one_cell(v):
    """the element of a number / one-element vector"""
    if isinstance(v, (Num, BoolV)):
        return v
    if isinstance(v, Arr) and v.ndim == 1 and v.shape[0] is ONE:
        return v.at(ZERO)
    return None


class Axis:
    """row/column index: the labels l of `space` with has(l); when off is not None exactly off <= l < off+n"""

    def __init__(self, space, off, n, has=None):
        self.space, self.off, self.n = space, off, n
        self._has = has

    def has(self, l):
        if self._has is not None:
            return self._has(l)
        return And(tm.le(self.off, l), tm.lt(l, tm.add(self.off, self.n)))

    def subst(self, m):
        return Axis(self.space, None if self.off is None else tm.subst(self.off, m), None if self.n is None else tm.subst(self.n, m),
                    None if self._has is None else self._has.subst(m))

    def same(self, o):
        return self is o or (self.space == o.space and self.off is not None and self.off is o.off and self.n is o.n and self._has is None and o._has is None)

    def __repr__(self):
        return f"Axis({self.space},{self.off},{self.n}{'' if self._has is None else ',filter'})"


class Frame:
    def __init__(self, rows, cols, f, kind="num", base=None):
        self.rows, self.cols = rows, cols
        self.fn = f if isinstance(f, Fn) else Fn(2, f)
        self.kind = kind
        self.base = base

    def at(self, r, c):
        return self.fn(r, c)


class Series:
    def __init__(self, axis, f, kind="num", base=None):
        self.axis = axis
        self.fn = f if isinstance(f, Fn) else Fn(1, f)
        self.kind = kind
        self.base = base

    def at(self, l):
        return self.fn(l)


class Idx:
    """pandas Index"""

    def __init__(self, axis):
        self.axis = axis


class Seq:
    """sequence of symbolic length: element k (0 <= k < n) is at(k), present when cond(k)"""

    def __init__(self, n, f, cond=None):
        self.n = n
        self.fn = f if isinstance(f, Fn) else Fn(1, f, [n])
        self.cond = cond if cond is None or isinstance(cond, Fn) else Fn(1, cond, [n])

    def at(self, k):
        return self.fn(k)

    def present(self, k):
        return TRUE if self.cond is None else self.cond(k).t

    def full(self):
        if self.cond is None:
            return True
        return self.cond.body()[1].t is TRUE


class SymDict:
    """insertion-ordered mapping from the labels of an axis (increasing) to values"""

    def __init__(self, axis, f):
        self.axis = axis
        self.fn = f if isinstance(f, Fn) else Fn(1, f)

    def at(self, l):
        return self.fn(l)


class ListV:
    def __init__(self, items):
        self.items = tuple(items)


class DictV:
    """concrete dictionary: tuple of (key, value)"""

    def __init__(self, items=()):
        self.items = tuple(items)


class NT:
    """namedtuple instance"""

    def __init__(self, cls, vals):
        self.cls, self.vals = cls, tuple(vals)


class NTClass:
    def __init__(self, name, fields):
        self.name, self.fields = name, tuple(fields)


class Inst:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, dict(attrs)


class Opaque:
    """library object with named parts (immutable description)"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.d = kw

    def __getattr__(self, k):
        if k in ("kind", "d") or k.startswith("__"):
            raise AttributeError(k)
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)


class Ref:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return f"Ref({self.id})"


class Poison:
    def __init__(self, loc):
        self.loc = loc


class Undef:
    pass


UNDEF = Undef()


class Range:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class ModuleV:
    def __init__(self, name):
        self.name = name


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class BoundM:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class FuncV:
    def __init__(self, node, env, mod, qual, defaults, kwdefaults, isgen, cls=None):
        self.node, self.env, self.mod, self.qual = node, env, mod, qual
        self.defaults, self.kwdefaults, self.isgen, self.cls = defaults, kwdefaults, isgen, cls


class ClassV:
    def __init__(self, name, attrs, mod, bases=()):
        self.name, self.attrs, self.mod, self.bases = name, attrs, mod, bases


class StrV:
    """string with symbolic parts"""

    def __init__(self, parts):
        self.parts = tuple(parts)


# ---------------------------------------------------------------- substitution, merge, equality
def vsubst(v, m):
    if isinstance(v, Num):
        return Num(tm.subst(v.r, m), tm.subst(v.nan, m), tm.subst(v.inf, m))
    if isinstance(v, BoolV):
        return BoolV(tm.subst(v.t, m))
    if v is None or isinstance(v, (str, bytes, Builtin, ModuleV, ClassV, NTClass, Range, Undef)) or v is Ellipsis:
        if isinstance(v, Range):
            return Range(tm.subst(v.lo, m), tm.subst(v.hi, m))
        return v
    if isinstance(v, Label):
        return Label(v.space, tm.subst(v.t, m))
    if isinstance(v, tuple):
        return tuple(vsubst(x, m) for x in v)
    if isinstance(v, Arr):
        return Arr([tm.subst(s, m) for s in v.shape], v.fn.subst(m), v.kind)
    if isinstance(v, Frame):
        return Frame(v.rows.subst(m), v.cols.subst(m), v.fn.subst(m), v.kind)
    if isinstance(v, Series):
        return Series(v.axis.subst(m), v.fn.subst(m), v.kind)
    if isinstance(v, Idx):
        return Idx(v.axis.subst(m))
    if isinstance(v, NT):
        return NT(v.cls, [vsubst(x, m) for x in v.vals])
    if isinstance(v, ListV):
        return ListV([vsubst(x, m) for x in v.items])
    if isinstance(v, DictV):
        return DictV([(vsubst(k, m), vsubst(x, m)) for k, x in v.items])
    if isinstance(v, Seq):
        return Seq(tm.subst(v.n, m), v.fn.subst(m), None if v.cond is None else v.cond.subst(m))
    if isinstance(v, SymDict):
        return SymDict(v.axis.subst(m), v.fn.subst(m))
    if isinstance(v, StrV):
        return StrV([vsubst(x, m) for x in v.parts])
    if isinstance(v, Inst):
        return Inst(v.cls, {k: vsubst(x, m) for k, x in v.attrs.items()})
    if isinstance(v, Opaque):
        return Opaque(v.kind, **{k: vsubst(x, m) for k, x in v.d.items()})
    if isinstance(v, (Ref, FuncV, BoundM)):
        return v
    if isinstance(v, SliceV):
        return SliceV(vsubst(v.lo, m), vsubst(v.hi, m), vsubst(v.step, m))
    if hasattr(v, "subst"):
        return v.subst(m)
    unsup(f"substitution in {type(v).__name__}")


def ident(a, b):
    """cheap structural identity"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (Num, BoolV)):
        return a.same(b)
    if isinstance(a, Label):
        return a.space == b.space and a.t is b.t
    if isinstance(a, (str,)):
        return a == b
    if isinstance(a, Ref):
        return a.id == b.id
    if isinstance(a, tuple):
        return len(a) == len(b) and all(ident(x, y) for x, y in zip(a, b))
    if isinstance(a, Range):
        return a.lo is b.lo and a.hi is b.hi
    if isinstance(a, StrV):
        return len(a.parts) == len(b.parts) and all(ident(x, y) for x, y in zip(a.parts, b.parts))
    return False


def vite(c, a, b):
    """value-level if-then-else"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if ident(a, b):
        return a
    if isinstance(a, Num) and isinstance(b, Num):
        nan = tm.ite(c, a.nan, b.nan)
        # where one side is nan its r is irrelevant
        if a.nan is TRUE and a.inf is FALSE:
            r = b.r
        elif b.nan is TRUE and b.inf is FALSE:
            r = a.r
        else:
            r = tm.ite(c, a.r, b.r)
        return Num(r, nan, tm.ite(c, a.inf, b.inf))
    if isinstance(a, BoolV) and isinstance(b, BoolV):
        return BoolV(tm.ite(c, a.t, b.t))
    if isinstance(a, Label) and isinstance(b, Label) and a.space == b.space:
        return Label(a.space, tm.ite(c, a.t, b.t))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, NT) and isinstance(b, NT) and a.cls is b.cls:
        return NT(a.cls, [vite(c, x, y) for x, y in zip(a.vals, b.vals)])
    if isinstance(a, Arr) != isinstance(b, Arr) or isinstance(a, OneArr) or isinstance(b, OneArr):
        x, y = one_cell(a), one_cell(b)
        if isinstance(x, Num) and isinstance(y, Num):
            return OneArr(lambda i: vite(c, x, y))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and a.kind == b.kind:
        sh = tuple(x if x is y else tm.ite(c, x, y) for x, y in zip(a.shape, b.shape))
        return Arr(sh, lambda *i: vite(c, a.at(*i), b.at(*i)), a.kind)
    if isinstance(a, Axis) and isinstance(b, Axis):
        if a.same(b):
            return a
        if a.space == b.space and a.off is not None and b.off is not None and a._has is None and b._has is None:
            return Axis(a.space, tm.ite(c, a.off, b.off), tm.ite(c, a.n, b.n))
        if a.space == b.space:
            return Axis(a.space, None, None, _hasfn(lambda l: tm.ite(c, a.has(l), b.has(l))))
    if isinstance(a, Series) and isinstance(b, Series):
        return Series(vite(c, a.axis, b.axis), lambda l: vite(c, a.at(l), b.at(l)), a.kind)
    if isinstance(a, Frame) and isinstance(b, Frame):
        return Frame(vite(c, a.rows, b.rows), vite(c, a.cols, b.cols), lambda l, k: vite(c, a.at(l, k), b.at(l, k)), a.kind)
    if isinstance(a, Idx) and isinstance(b, Idx):
        return Idx(vite(c, a.axis, b.axis))
    if isinstance(a, ListV) and isinstance(b, ListV) and len(a.items) == len(b.items):
        return ListV([vite(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Seq) and isinstance(b, Seq):
        n = a.n if a.n is b.n else tm.ite(c, a.n, b.n)
        cond = None
        if a.cond is not None or b.cond is not None:
            cond = lambda k: BoolV(tm.ite(c, a.present(k), b.present(k)))
        return Seq(n, lambda k: vite(c, a.at(k), b.at(k)), cond)
    if isinstance(a, SymDict) and isinstance(b, SymDict):
        return SymDict(vite(c, a.axis, b.axis), lambda l: vite(c, a.at(l), b.at(l)))
    if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls and a.attrs.keys() == b.attrs.keys():
        return Inst(a.cls, {k: vite(c, a.attrs[k], b.attrs[k]) for k in a.attrs})
    if isinstance(a, DictV) and isinstance(b, DictV) and len(a.items) == len(b.items) and all(ident(x[0], y[0]) for x, y in zip(a.items, b.items)):
        return DictV([(x[0], vite(c, x[1], y[1])) for x, y in zip(a.items, b.items)])
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.kind == b.kind == "cell":
        miss = BoolV(tm.ite(c, a.missing.t, b.missing.t))
        if a.missing.t is TRUE or b.missing.t is TRUE:
            return Opaque("cell", missing=miss, v=b.v if a.missing.t is TRUE else a.v)
        return Opaque("cell", missing=miss, v=vite(c, a.v, b.v))
    if _maybe(a) and _maybe(b):
        a = a if isinstance(a, Opaque) else Opaque("maybe", none=BoolV(TRUE if a is None else FALSE), v=a)
        b = b if isinstance(b, Opaque) else Opaque("maybe", none=BoolV(TRUE if b is None else FALSE), v=b)
        none = BoolV(tm.ite(c, a.none.t, b.none.t))
        if a.none.t is TRUE or b.none.t is TRUE:
            return Opaque("maybe", none=none, v=b.v if a.none.t is TRUE else a.v)
        return Opaque("maybe", none=none, v=vite(c, a.v, b.v))
    unsup(f"merge of {type(a).__name__} and {type(b).__name__}")


def _maybe(x):
    """None, a record, or either"""
    return x is None or isinstance(x, NT) or isinstance(x, Opaque) and x.kind == "maybe"


class _hasfn:
    """predicate on labels (term-valued), with substitution"""

    def __init__(self, f):
        self.f = f
        self._body = None

    def __call__(self, l):
        v, b = self.body()
        return tm.subst(b, {v: l})

    def body(self):
        if self._body is None:
            v = tm.fresh("l")
            tm.lower_bound[v] = 0
            self._body = (v, self.f(v))
        return self._body

    def subst(self, m):
        v, b = self.body()
        b2 = tm.subst(b, m)
        h = _hasfn(lambda l: tm.subst(b2, {v: l}))
        return h


def vparts(v, seen=None):
    """terms occurring in a value (evaluated at generic indices); for dependency analysis"""
    if isinstance(v, Num):
        return [v.r, v.nan, v.inf]
    if isinstance(v, BoolV):
        return [v.t]
    if isinstance(v, Label):
        return [v.t]
    if isinstance(v, (tuple, ListV)):
        return [t for x in (v.items if isinstance(v, ListV) else v) for t in vparts(x)]
    if isinstance(v, NT):
        return [t for x in v.vals for t in vparts(x)]
    if isinstance(v, (Arr, Frame, Series)):
        out = vparts(v.fn.body()[1])
        if isinstance(v, Arr):
            out += list(v.shape)
        return out
    if isinstance(v, Seq):
        return vparts(v.fn.body()[1]) + [v.n]
    if isinstance(v, SymDict):
        return vparts(v.fn.body()[1])
    if isinstance(v, DictV):
        return [t for k, x in v.items for t in vparts(k) + vparts(x)]
    if isinstance(v, Inst):
        return [t for x in v.attrs.values() for t in vparts(x)]
    if isinstance(v, Opaque):
        return [t for x in v.d.values() for t in vparts(x)]
    if isinstance(v, Range):
        return [v.lo, v.hi]
    return []
