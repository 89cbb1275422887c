"""Assumed contracts on cvxpy (trusted): expressions mean what they say, and Problem.solve either fails or stores in the
variables a maximiser (minimiser) of the objective over the constraints, which is a function of the problem posed.
What is checked is which problem is posed: objective and constraints as functions of arbitrary values of the variables,
with the parameter values at the time of the call, are recorded in it.solves."""
from __future__ import annotations

from . import terms as tm
from . import interp
from .terms import TRUE, FALSE, And, Not, Or, ZERO, ONE
from .values import *
from .interp import BUILTINS, METHODS, ATTRS, BINOPS, CONSTS
from . import lib_np
from .lib_np import lib, method, attr, arr_of, as_num, broadcast, bidx, n_add, n_mul, n_sub, n_div, n_log, n_abs, n_neg, n_exp, n_sqrt, n_max, n_min

interp.ALIAS_MOD["cvxpy"] = "cvxpy"


class CE:
    """expression; `leaf` is ('var'|'param', heap cell) or ('const', value); otherwise op applied to args"""

    def __init__(self, op, args, shape):
        self.op, self.args, self.shape = op, args, tuple(shape)

    @property
    def ndim(self):
        return len(self.shape)

    def subst(self, m):
        return CE(self.op, [a if isinstance(a, (Ref, str)) or callable(a) else vsubst(a, m) for a in self.args], [tm.subst(s, m) for s in self.shape])


class Con:
    """constraint lhs (op) rhs"""

    def __init__(self, op, lhs, rhs):
        self.op, self.lhs, self.rhs = op, lhs, rhs

    def subst(self, m):
        return Con(self.op, vsubst(self.lhs, m), vsubst(self.rhs, m))


class Goal:
    def __init__(self, sense, e):
        self.sense, self.e = sense, e

    def subst(self, m):
        return Goal(self.sense, vsubst(self.e, m))


class Prob:
    def __init__(self, goal, cons, ref):
        self.goal, self.cons, self.ref = goal, tuple(cons), ref

    def subst(self, m):
        return Prob(vsubst(self.goal, m), [vsubst(c, m) for c in self.cons], self.ref)


def expr(it, v):
    c = it.D(v)
    if isinstance(c, CE):
        return c
    if isinstance(c, (Con, Goal, Prob)):
        unsup("constraint used as a value")
    if isinstance(c, (Frame, Series)):
        from . import lib_pd
        a = lib_pd.values(it, c)
    else:
        a = arr_of(it, c)
    return CE("const", [a], a.shape)


def is_expr(c):
    return isinstance(c, (CE, Con))


def dims(it, shape):
    s = it.D(shape)
    if isinstance(s, Num):
        return (s.r,)
    if isinstance(s, ListV):
        s = s.items
    if isinstance(s, tuple):
        return tuple(as_num(it.D(x)).r for x in s)
    unsup("shape")


def leaf(it, op, args, kw):
    shape = args[0] if args else kw.get("shape", ())
    ok = {"shape", "name"} | ({"nonneg", "value"} if op == "param" else {"nonneg"})
    for k, v in kw.items():
        x = it.D(v)
        if k not in ok and not (isinstance(x, BoolV) and x.t is FALSE) and x is not None:
            unsup(f"option {k} of a cvxpy {op}")
    nn = it.D(kw.get("nonneg"))
    nn = isinstance(nn, BoolV) and nn.t is TRUE
    if kw.get("nonneg") is not None and not isinstance(it.D(kw["nonneg"]), BoolV):
        unsup("option nonneg")
    cell = it.new({"value": kw.get("value"), "nonneg": nn, "op": op})
    return CE(op, [cell], dims(it, shape))


@lib("cvxpy.Variable")
def _(it, args, kw):
    return leaf(it, "var", args, kw)


@lib("cvxpy.Parameter")
def _(it, args, kw):
    return leaf(it, "param", args, kw)


# ---------------------------------------------------------------- evaluation
def ev(it, e, env):
    """value of an expression, as an array; env: heap cell id of a variable -> array"""
    op, a = e.op, e.args
    if op == "const":
        return a[0]
    if op == "var":
        return env[a[0].id]
    if op == "param":
        v = it.lookup(a[0], "value")
        if v is None:
            it.raise_if(TRUE, "ParameterError")
        return arr_of(it, v)
    xs = [ev(it, x, env) if isinstance(x, CE) else x for x in a]
    r = it.D(OPS[op](it, *xs))
    return r if isinstance(r, Arr) else arr_of(it, r)


def leaves(e, op, out=None):
    out = [] if out is None else out
    if e.op == op:
        if e.args[0].id not in [x.args[0].id for x in out]:
            out.append(e)
    else:
        for x in e.args:
            if isinstance(x, CE):
                leaves(x, op, out)
    return out


def el(f):
    return lambda it, *xs: lib_np.elementwise(it, lambda *v: f(*[as_num(x) for x in v]), list(xs))


def total(it, a):
    def rec(pre, rest):
        if not rest:
            return as_num(a.at(*pre))
        v = tm.fresh("k", "I", rest[0])
        return lib_np.fsum(v, rest[0], rec(pre + [v], rest[1:]))
    return rec([], list(a.shape))


def sumsq(it, a):
    return total(it, Arr(a.shape, lambda *i: n_mul(a.at(*i), a.at(*i))))


def norm1(it, a):
    return total(it, Arr(a.shape, lambda *i: n_abs(a.at(*i))))


def norm2(it, a):
    return n_sqrt(sumsq(it, a))


def quad(it, x, P):
    n = x.shape[0]
    i, j = tm.fresh("i", "I", n), tm.fresh("j", "I", n)
    return lib_np.fsum(i, n, lib_np.fsum(j, n, n_mul(n_mul(x.at(i), P.at(i, j)), x.at(j))))


# log and sqrt: on their domain, which cvxpy adds to the constraints
def index(it, a, i):
    return lib_np.getitem(it, a, i)


def sumaxis(it, a, q):
    def f(*i):
        v = tm.fresh("k", "I", a.shape[q])
        return lib_np.fsum(v, a.shape[q], as_num(a.at(*i[:q], v, *i[q:])))
    return Arr(a.shape[:q] + a.shape[q + 1:], f)


def diagonal(it, a):
    if a.ndim == 2 and a.shape[1] is ONE and a.shape[0] is not ONE:
        a = Arr((a.shape[0],), lambda i, a=a: a.at(i, ZERO))
    elif a.ndim == 2 and a.shape[0] is ONE and a.shape[1] is not ONE:
        a = Arr((a.shape[1],), lambda i, a=a: a.at(ZERO, i))
    if a.ndim == 1:
        return Arr((a.shape[0], a.shape[0]), lambda i, j: vite(tm.eq(i, j), a.at(i), num(0)))
    if not lib_np.same_dim(it, a.shape[0], a.shape[1]):
        unsup("diagonal of a table that is not square")
    return Arr((a.shape[0],), lambda i: a.at(i, i))


def log_det(it, a):
    d = lib_np.det(it, a)
    return Num(tm.log(d.r), d.nan)           # on the domain cvxpy adds to the constraints


def geo_mean(it, a):
    """exp of the mean logarithm, on the domain cvxpy adds to the constraints"""
    t = total(it, Arr(a.shape, lambda *i: Num(tm.log(as_num(a.at(*i)).r), as_num(a.at(*i)).nan)))
    return Num(tm.exp(tm.div(t.r, tm.mul(*a.shape))), t.nan)


def joined(it, xs, ax):
    if any(x.ndim not in (1, 2) for x in xs) or len({x.ndim for x in xs}) != 1:
        unsup("stacking of expressions of different dimensions")
    if xs[0].ndim == 1:
        if ax == 1:
            return lib_np.concat(list(xs), 0)
        xs = [Arr((ONE, x.shape[0]), lambda i, j, x=x: x.at(j)) for x in xs]
    for x in xs[1:]:
        if not lib_np.same_dim(it, x.shape[1 - ax], xs[0].shape[1 - ax]):
            unsup("stacking of expressions of different sizes")
    return lib_np.concat(list(xs), ax)


OPS = {
    "sum@0": lambda it, a: sumaxis(it, a, 0), "sum@1": lambda it, a: sumaxis(it, a, 1),
    "Add": el(n_add), "Sub": el(n_sub), "Mult": el(n_mul), "Div": el(n_div), "log": el(lambda x: Num(tm.log(x.r), x.nan)), "exp": el(n_exp), "sqrt": el(n_sqrt),
    "abs": el(n_abs), "square": el(lambda x: n_mul(x, x)), "maximum": el(n_max), "minimum": el(n_min),
    "MatMult": lambda it, a, b: lib_np.matmul(it, a, b),
    "sum": total, "geo_mean": geo_mean, "sum_squares": sumsq, "norm1": norm1, "norm2": norm2, "quad_form": quad,
    "T": lambda it, a: Arr(a.shape[::-1], lambda *i: a.at(*i[::-1])),
    "index": index, "diag": lambda it, a: diagonal(it, a), "log_det": lambda it, a: log_det(it, a),
    "hstack": lambda it, *xs: joined(it, xs, 1), "vstack": lambda it, *xs: joined(it, xs, 0),
    "trace": lambda it, a: total(it, Arr((a.shape[0],), lambda i: a.at(i, i))),
}


def shape_of(it, op, args):
    """shape of the result: evaluate on arrays of named entries"""
    xs = [Arr(x.shape, lambda *i: Num(tm._app("shape$", tuple(i), "R"))) if isinstance(x, CE) else x for x in args]
    nr = len(it.obs)
    r = it.D(OPS[op](it, *xs))
    del it.obs[nr:]
    return r.shape if isinstance(r, Arr) else ()


def mk(it, op, *args):
    return CE(op, list(args), shape_of(it, op, args))


def binop(it, op, a, b, ca, cb):
    if not is_expr(ca) and not is_expr(cb):
        return None
    if op == "Pow" and isinstance(ca, CE) and isinstance(cb, Num) and cb.r is tm.const(2):
        return mk(it, "square", ca)
    if op not in ("Add", "Sub", "Mult", "Div", "MatMult"):
        unsup(f"{op} on cvxpy expressions")
    x, y = expr(it, a), expr(it, b)
    if op == "Mult" and x.ndim and y.ndim and (x.ndim > 1 or y.ndim > 1):
        op = "MatMult"                 # cvxpy's * between matrices
    return mk(it, op, x, y)


BINOPS.insert(0, binop)


def compare(it, op, a, b):
    if op not in ("Eq", "LtE", "GtE", "Lt", "Gt"):
        unsup("comparison of cvxpy expressions")
    return Con({"Lt": "LtE", "Gt": "GtE"}.get(op, op), expr(it, a), expr(it, b))


def fn(names, op, n=1):
    @lib(*names)
    def _(it, args, kw):
        if len(args) != n or kw:
            unsup(f"options of cvxpy {op}")
        return mk(it, op, *[expr(it, x) for x in args])


@lib("cvxpy.sum")
def _(it, args, kw):
    ax = it.D(args[1] if len(args) > 1 else kw.get("axis"))
    kd = it.D(args[2] if len(args) > 2 else kw.get("keepdims"))
    e = expr(it, args[0])
    if ax is None:
        return mk(it, "sum", e)
    if kd is not None and not (isinstance(kd, BoolV) and kd.t is FALSE) or not tm.is_const(ax.r) or any(k not in ("expr", "axis", "keepdims") for k in kw):
        unsup("options of cvxpy sum")
    return mk(it, f"sum@{int(tm.cval(ax.r)) % e.ndim}", e)


def stack(it, args, kw, op):
    c = it.concrete_items(args[0])
    if len(args) != 1 or kw or c is None:
        unsup(f"cvxpy {op}")
    return mk(it, op, *[expr(it, x) for x in c])


@lib("cvxpy.hstack")
def _(it, args, kw):
    return stack(it, args, kw, "hstack")


@lib("cvxpy.vstack")
def _(it, args, kw):
    return stack(it, args, kw, "vstack")


@lib("cvxpy.bmat")
def _(it, args, kw):
    rows = it.concrete_items(args[0])
    if len(args) != 1 or kw or rows is None or any(it.concrete_items(r) is None for r in rows):
        unsup("cvxpy bmat")
    return mk(it, "vstack", *[mk(it, "hstack", *[expr(it, x) for x in it.concrete_items(r)]) for r in rows])


for _n in ("log", "exp", "sqrt", "abs", "square", "sum_squares", "norm1", "diag", "trace", "log_det", "geo_mean"):
    fn([f"cvxpy.{_n}"], _n)
for _n in ("maximum", "minimum", "quad_form"):
    fn([f"cvxpy.{_n}"], _n, 2)


@lib("cvxpy.multiply")
def _(it, args, kw):
    return mk(it, "Mult", expr(it, args[0]), expr(it, args[1]))


@lib("cvxpy.vdot", "cvxpy.scalar_product")
def _(it, args, kw):
    return mk(it, "sum", mk(it, "Mult", expr(it, args[0]), expr(it, args[1])))


@lib("cvxpy.norm", "cvxpy.pnorm", "cvxpy.norm2")
def _(it, args, kw):
    p = it.D(args[1]) if len(args) > 1 else it.D(kw["p"]) if "p" in kw else num(2)
    x = expr(it, args[0])
    vector = x.ndim == 1 or x.ndim == 2 and ONE in x.shape
    if isinstance(p, Num) and p.r is tm.const(1) and vector:
        return mk(it, "norm1", x)
    if isinstance(p, Num) and p.r is tm.const(2) and vector:
        return mk(it, "norm2", x)
    unsup("cvxpy norm")


@attr("CE", "T")
def _(it, o):
    return mk(it, "T", it.D(o))


@attr("CE", "shape")
def _(it, o):
    return tuple(Num(s) for s in it.D(o).shape)


@attr("CE", "size")
def _(it, o):
    return Num(tm.mul(*it.D(o).shape))


@attr("CE", "value")
def _(it, o):
    e = it.D(o)
    if e.op in ("var", "param"):
        return it.lookup(e.args[0], "value")
    env = {}
    for x in leaves(e, "var"):
        v = it.lookup(x.args[0], "value")
        if v is None:
            return None
        env[x.args[0].id] = arr_of(it, v)
    r = ev(it, e, env)
    return r.at() if r.ndim == 0 else it.new(r)


def set_attr(it, e, name, v):
    if e.op not in ("var", "param") or name != "value":
        unsup(f"attribute {name} of a cvxpy expression")
    c = it.D(v)
    if c is None:
        it.setvar(e.args[0], "value", None)
        return
    a = arr_of(it, v) if not isinstance(c, (Frame, Series)) else None
    if a is None:
        from . import lib_pd
        a = lib_pd.values(it, c)
    if a.ndim != e.ndim:
        it.raise_if(TRUE, "ValueError")
    for x, y in zip(a.shape, e.shape):
        if x is not y:
            it.raise_if(Not(tm.eq(x, y)), "ValueError")
    it.setvar(e.args[0], "value", it.new(Arr(a.shape, a.fn, a.kind)))


interp.SETATTR["CE"] = set_attr


@method("CE", "getitem")
def _(it, o, args, kw):
    return CE("index", [it.D(o), args[0]], shape_of(it, "index", [it.D(o), args[0]]))


# ---------------------------------------------------------------- problems
@lib("cvxpy.Maximize")
def _(it, args, kw):
    return Goal("max", expr(it, args[0]))


@lib("cvxpy.Minimize")
def _(it, args, kw):
    return Goal("min", expr(it, args[0]))


@lib("cvxpy.Problem")
def _(it, args, kw):
    goal = it.D(args[0] if args else kw["objective"])
    cons = args[1] if len(args) > 1 else kw.get("constraints")
    items = [] if cons is None else it.concrete_items(cons)
    if items is None:
        unsup("constraints not listed one by one")
    items = [it.D(c) for c in items]
    if not isinstance(goal, Goal) or not all(isinstance(c, Con) for c in items):
        unsup("cvxpy problem")
    return Prob(goal, items, it.new({"value": None, "status": None}))


def solve(it, p):
    es = [p.goal.e] + [x for c in p.cons for x in (c.lhs, c.rhs)]
    vs = []
    for e in es:
        for x in leaves(e, "var"):
            if x.args[0].id not in [y.args[0].id for y in vs]:
                vs.append(x)
    it.nsolve = getattr(it, "nsolve", 0) + 1
    no = f"{next(tm._fresh)}"
    ctx = tuple(j for j, _, _ in it.loops)
    fails = tm._app("solverfails!" + no, ctx, "B")
    # the problem, for arbitrary values of the variables
    env = {}
    for q, x in enumerate(vs):
        env[x.args[0].id] = Arr(x.shape, lambda *i, q=q: Num(tm._app(f"x!{no}.{q}", tuple(i), "R")))
    obj = ev(it, p.goal.e, env)
    cons = [(c.op, ev(it, c.lhs, env), ev(it, c.rhs, env)) for c in p.cons]
    for x in vs:
        if it.heap[x.args[0].id]["nonneg"]:
            cons.append(("GtE", env[x.args[0].id], Arr((), lambda: Num(ZERO))))
    rec = dict(no=no, ctx=ctx, loops=list(it.loops), pc=list(it.pc), sense=p.goal.sense, obj=obj, cons=cons, vars=[(f"x!{no}.{q}", f"argmax!{no}.{q}", x.shape) for q, x in enumerate(vs)],
               fails=fails)
    it.solves.append(rec)
    it.raise_if(fails, "SolverError")
    for q, x in enumerate(vs):
        it.setvar(x.args[0], "value", it.new(Arr(x.shape, lambda *i, q=q: Num(tm._app(f"argmax!{no}.{q}", ctx + tuple(i), "R")))))
    val = Num(tm._app(f"optval!{no}", ctx, "R"))
    it.setvar(p.ref, "value", val)
    it.setvar(p.ref, "status", "optimal")
    return val


@method("Prob", "solve")
def _(it, o, args, kw):
    return solve(it, it.D(o))


@attr("Prob", "status")
def _(it, o):
    return it.lookup(it.D(o).ref, "status")


@attr("Prob", "objective")
def _(it, o):
    p = it.D(o)
    return Opaque("goalof", p=p)


@attr("goalof", "value")
def _(it, o):
    return it.lookup(it.D(o).p.ref, "value")


@attr("Prob", "value")
def _(it, o):
    return it.lookup(it.D(o).ref, "value")


CONSTS["cvxpy.SolverError"] = CONSTS["cvxpy.error.SolverError"] = ClassV("SolverError", {}, "cvxpy")
for _n in ("CLARABEL", "ECOS", "SCS", "OSQP", "MOSEK", "SCIPY"):
    CONSTS["cvxpy." + _n] = _n
