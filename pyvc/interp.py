"""Symbolic interpreter for the Python subset used by the code under contract.

Executes the abstract syntax of the functions found in /repo (parsed on every run) on symbolic
values.  Branches on undetermined conditions are executed both ways and merged; loops over
sequences of symbolic length become recursive definitions (no bound); generators become
sequences.  Anything outside the subset raises Unsupported (undecided, never an alarm).
"""
from __future__ import annotations

import ast
import copy
import hashlib
import os

from . import prove as pv
from . import terms as tm
from .terms import TRUE, FALSE, And, Not, Or, ZERO, ONE
from .values import *
from .values import _hasfn

REPO = os.environ.get("VERIF_REPO", "/repo")

BUILTINS: dict = {}     # dotted name -> fn(interp, args, kwargs)
METHODS: dict = {}      # (content class name, method) -> fn(interp, selfval, args, kwargs)
ATTRS: dict = {}        # (content class name, attr) -> fn(interp, selfval)
BINOPS: list = []       # handlers (interp, op, a, b) -> value or None

# ---------------------------------------------------------------- recursive definitions
rec_defs: dict = {}     # name -> dict(nidx, k, idx, params, init, step)


def rec_unfold(name, args):
    """definition of name(k, idx.., params..) one step: ite(k<=0, init, step)"""
    d = rec_defs.get(name)
    if d is None:
        return None
    m = {d["k"]: args[0]}
    m.update(zip(d["idx"], args[1:1 + len(d["idx"])]))
    m.update(zip(d["params"], args[1 + len(d["idx"]):]))
    return tm.ite(tm.le(args[0], ZERO), tm.subst(d["init"], m), tm.subst(d["step"], m))


def _rec0(name, args):
    d = rec_defs.get(name)
    if d is None:
        return None
    m = dict(zip(d["idx"], args[1:1 + len(d["idx"])]))
    m.update(zip(d["params"], args[1 + len(d["idx"]):]))
    return tm.subst(d["init"], m)


tm.rec_hook = _rec0


let_defs: dict = {}      # name -> (formals, params, body)


def let_facts(name, args, t):
    d = let_defs.get(name)
    if d is None:
        return []
    return [tm.eq(t, unlet(name, args))]


def unlet(name, args):
    f, p, body = let_defs[name]
    m = dict(zip(f, args[:len(f)]))
    m.update(zip(p, args[len(f):]))
    return tm.subst(body, m)


pv.app_facts.append(let_facts)


def let_term(idx, body):
    """name for a term that depends on idx; equal definitions share the name"""
    ci = [tm.Var(f"$x{j}", "I") for j in range(len(idx))]
    (b2,), params, pvars = tm.abstract([tm.subst(body, dict(zip(idx, ci)))], ci)
    name = "let" + hashlib.md5((b2.s + "|" + ",".join(v.sort for v in pvars)).encode()).hexdigest()[:10]
    if name not in let_defs:
        let_defs[name] = (ci, pvars, b2)
    return lambda ix: tm.App(name, tuple(ix) + tuple(params), "R")


def expand_lets(t, names=None):
    if names == ():
        return t
    names = let_defs if names is None else names
    for _ in range(6):
        t2 = tm.rewrite_apps(t, lambda n, a, s: unlet(n, a) if n in names else None)
        if t2 is t:
            return t
        t = t2
    return t


def let_table(it, c):
    """a table whose cells are named when they are case distinctions"""
    if not isinstance(c, Frame) or c.kind != "num":
        return c
    t, i = tm.fresh("t", "I"), tm.fresh("i", "I")
    tm.lower_bound[t] = 0
    tm.lower_bound[i] = 0
    x = c.at(t, i)
    if not isinstance(x, Num) or not any(y.op == "ite" for y in tm.walk(x.r)):
        return c
    has = [c.rows.has(t), c.cols.has(i)]
    nan, inf = it.simp(x.nan, has), it.simp(x.inf, has)
    from . import logic
    f = let_term([t, i], logic.simplify_deep(x.r, list(it.known()) + has + [h for h in (Not(nan), Not(inf)) if h is not TRUE]))
    return Frame(c.rows, c.cols, lambda r, k: Num(f((r, k)), tm.subst(nan, {t: r, i: k}), tm.subst(inf, {t: r, i: k})))


def solve_rec(k, idx, init, step, ph):
    """closed form of X(k) = A(k) X(k-1) + B(k) for A constant or a telescoping ratio of
    exponential polynomials; None when not of that shape.  The closed form is confirmed by induction
    (base and step are checked to be identities)."""
    self_atom = tm._app(ph, idx, "R")
    alt = tm._app(ph, idx, "I")
    A, B = ZERO, ZERO
    for m, c in tm.poly(step).items():
        d = dict(m)
        q = d.pop(self_atom, 0) or d.pop(alt, 0)
        rest = tm.scale(tm.mul(*[tm._mono_term(((a, e),)) for a, e in d.items()]), c) if d else tm.const(c)
        if any(x.op == "app" and (x.args[0] == ph or x.args[0] == ph + "@") for x in tm.walk(rest)):
            return None
        if q == 1:
            A = tm.add(A, rest)
        elif q == 0:
            B = tm.add(B, rest)
        else:
            return None
    if A is ZERO:
        return None
    tm.lower_bound[k] = 1
    tm.clear_memo()
    try:
        D, q = ONE, None
        if k not in A.fv:
            if not pv.is_pos(A):
                return None
            q = A
        else:
            r = {}
            for m in tm.poly(A):
                for a, e in m:
                    if a.op == "recip" and k in a.fv:
                        r[a] = max(r.get(a, 0), e)
                    elif k in a.fv and a.op != "app":
                        return None
            if not r:
                return None
            for a, e in r.items():
                if not pv.is_pos(a.args[0]) and not pv.is_pos(tm.neg(a.args[0])):
                    return None
                D = tm.mul(D, tm.ipow(a.args[0], e))
            AD = A
            for a, e in r.items():
                for _ in range(e):
                    AD = tm.mul_clear(AD, a.args[0])
            D1 = tm.subst(D, {k: tm.sub(k, ONE)})
            cands = [ONE]
            for m in tm.poly(AD):
                es = tuple((a, e) for a, e in m if a.op == "app" and a.args[0] == "E" and k not in a.fv)
                if es:
                    cands.append(tm._mono_term(es))
            for c in cands:
                if tm.is_zero(tm.sub(AD, tm.mul(c, D1))):
                    q = c
                    break
            if q is None:
                return None
        kp = tm.fresh("k", "I")
        tm.lower_bound[kp] = 0
        qk = ONE if q is ONE else tm.power(q, tm.neg(kp))           # q^-k
        Dk = tm.subst(D, {k: kp})
        Bk = tm.subst(B, {k: kp})
        body = Bk
        if D is not ONE:
            for m in (Dk,):
                body = tm.mul_clear(body, Dk)
        body = tm.mul(body, qk)
        w = tm.mul(Dk, qk)
        s = tm.fresh("s", "I")
        k0 = {kp: ZERO}
        iw = tm.mul(init, tm.subst(w, k0))
        merged = False
        try:
            merged = tm.is_zero(tm.sub(tm.subst(body, k0), iw))
        except ZeroDivisionError:
            merged = False
        if merged:
            n = tm.add(kp, ONE)
            tm.var_range[s] = n
            tot = tm.mk_sum(s, n, tm.subst(body, {kp: s}))
        else:
            tm.var_range[s] = kp
            tot = tm.add(iw, tm.mk_sum(s, kp, tm.subst(body, {kp: tm.add(s, ONE)})))
        sol = tm.div(tot, Dk) if D is not ONE else tot
        if q is not ONE:
            sol = tm.mul(sol, tm.power(q, kp))
        # induction: X(0) = init and X(k) = A(k) X(k-1) + B(k)
        from . import logic
        chk = tm.sub(tm.subst(sol, {kp: k}), tm.add(tm.mul(A, tm.subst(sol, {kp: tm.sub(k, ONE)})), B))
        a0 = tm.is_zero(tm.sub(tm.subst(sol, k0), init))
        a1 = tm.is_zero(logic.align_sums([chk])[0])
        if not (a0 and a1):
            solve_log.append((sol, init, step, a0, a1))
            return None
        solve_log.append((sol, init, step, True, True))
        return tm.subst(sol, {kp: k})
    finally:
        tm.lower_bound.pop(k, None)
        tm.clear_memo()


solve_log: list = []


carried_values: dict = {}       # placeholder of a carried value -> the value after so many iterations


def make_rec(k, idx, init, step, ph, nonneg=True):
    f = carried_values[ph] = _make_rec(k, idx, init, step, ph, nonneg)
    return f


def at_iteration(t, j):
    """placeholders of carried values replaced by their values at the start of iteration j"""
    return tm.rewrite_apps(t, lambda n, a, s: carried_values[n](j, a) if n in carried_values else None)


def _make_rec(k, idx, init, step, ph, nonneg=True):
    """X(0, idx) = init(idx);  X(k, idx) = step(k, idx) for k >= 1, in which App(ph, (e..)) stands
    for X(k-1, e..) and App(ph+"@", (r, e..)) for X(r, e..) with r < k.
    Returns fn(kterm, idxterms) -> term.  Equal definitions share a name."""
    if init.sort != "B" and step.sort != "B":
        sol = solve_rec(k, tuple(idx), init, step, ph)
        if sol is not None:
            ix = tuple(idx)
            sol2 = pv.reduce_recips(sol)
            if len(tm.poly(sol2)) < len(tm.poly(sol)):
                sol = sol2
            return lambda kt, it: tm.subst(sol, {k: kt, **dict(zip(ix, it))})
    if not any(x.op == "app" and x.args[0] in (ph, ph + "@") for x in tm.walk(step)):      # no recursion after all
        ix = tuple(idx)
        return lambda kt, it: tm.subst(tm.ite(tm.le(k, ZERO), init, step), {k: kt, **dict(zip(ix, it))})
    self0 = "$self"

    def rep(name, args, sort):
        if name == ph:
            return tm._app(self0, (tm.sub(k, ONE),) + tuple(args), sort)
        if name == ph + "@":
            return tm._app(self0, tuple(args), sort)
        return None
    step2 = tm.rewrite_apps(step, rep)
    ck = tm.Var("$k", "I")
    ci = [tm.Var(f"$x{j}", "I") for j in range(len(idx))]
    m = {k: ck}
    m.update(zip(idx, ci))
    i2 = tm.subst(init, m)
    s2 = tm.subst(step2, m)
    (ia, sa), params, pvars = tm.abstract([i2, s2], [ck] + ci, (self0,))
    sort = "I" if init.sort == "I" and step.sort == "I" else "R"
    if init.sort == "B":
        sort = "B"
    key = ia.s + "|" + sa.s + "|" + ",".join(v.sort for v in pvars) + sort
    name = "rec" + hashlib.md5(key.encode()).hexdigest()[:10]
    if name not in rec_defs:
        def rep2(nm, args, srt):
            if nm == self0:
                return tm._app(name, tuple(args) + tuple(pvars), sort)
            return None
        rec_defs[name] = dict(k=ck, idx=ci, params=pvars, init=ia, step=tm.rewrite_apps(sa, rep2), sort=sort)
    if sort == "R":
        _rec_prefix(name, k, tuple(idx), init, step, ph, tuple(params))
    return lambda kt, it: tm.App(name, (kt,) + tuple(it) + tuple(params), sort)


call_defs: dict = {}     # result symbols of calls replaced by their contracts -> record of the call
rec_prefix: dict = {}    # (name, params) -> (first step c at which the other branch applies, k, idx, closed form for k < c)
rec_live: dict = {}      # (name, params) -> True when X(k-1) > 0 implies X(k) > 0


def _rec_prefix(name, k, idx, init, step, ph, params):
    """closed form before a threshold: step(k) = ite(k >= c, A, B) with B solvable"""
    if (name, params) in rec_prefix:
        return
    rec_prefix[(name, params)] = None
    conds = set()
    for x in tm.walk(step):
        if x.op == "ite":
            c = x.args[0]
            if c.op == "le0" and c.fv and k in c.fv and not (c.fv & set(idx)) and not any(v.args[0].startswith("$b") for v in c.fv):
                q = tm.poly(c.args[0])
                if q.get(((k, 1),)) == -1 and not any(k in a.fv for m in q if m != ((k, 1),) for a, e in m):
                    conds.add(c)
    if len(conds) != 1:
        return
    c = conds.pop()
    thr = tm.add(c.args[0], k)           # c: thr - k <= 0
    m = {x: x.args[2] for x in tm.walk(step) if x.op == "ite" and x.args[0] is c}
    sol = solve_rec(k, idx, init, tm.subst_terms(step, m), ph)
    if sol is not None:
        rec_prefix[(name, params)] = (thr, k, idx, sol)


def rec_facts(name, args, t):
    """facts about X(k, idx; params): its closed form before a threshold"""
    d = rec_defs.get(name)
    if d is None or d["sort"] != "R":
        return []
    ni = len(d["idx"])
    px = rec_prefix.get((name, tuple(args[1 + ni:])))
    if not px:
        return []
    thr, k, idx, sol = px
    m = {k: args[0]}
    m.update(zip(idx, args[1:1 + ni]))
    P = tm.subst(sol, m)
    g = And(tm.lt(args[0], thr), tm.ge(args[0], ZERO))
    return [tm.Implies(g, tm.eq(t, P)), tm.Implies(g, tm.Iff(tm.eq0(t), tm.eq0(P)))]


pv.app_facts.append(rec_facts)


def rec_stays_positive(name, params):
    """X(k-1) > 0 implies X(k) > 0 for every k >= 1 (shown from the step)"""
    d = rec_defs.get(name)
    if d is None or d["sort"] != "R":
        return False
    key = (name, params)
    if key in rec_live:
        return rec_live[key]
    rec_live[key] = False
    m = dict(zip(d["params"], params))
    kk = tm.fresh("k", "I")
    tm.lower_bound[kk] = 1
    m[d["k"]] = kk
    step = tm.subst(d["step"], m)
    prev = tm._app(name, (tm.sub(kk, ONE),) + tuple(d["idx"]) + tuple(params), "R")
    if not pv.is_nonneg(prev):
        return False
    leaves = [step]
    while any(x.op == "ite" for x in leaves) and len(leaves) < 9:
        leaves = [y for x in leaves for y in (x.args[1:] if x.op == "ite" else [x])]
    ok = all(_stays(x, prev) for x in leaves)
    rec_live[key] = ok
    return ok


def _posc(c):
    if pv.is_pos(c):
        return True
    c2 = pv.clear_recips(c)
    return c2 is not None and bool(pv.is_pos(c2) or pv.factor_pos(c2))


def _stays(step, prev):
    """step = A prev + sum C_i Y_i with A > 0, C_i > 0 and Y_i >= 0 (Y_i: a square, min, max or other non-linear core)"""
    groups = {}
    for mo, c in tm.poly(step).items():
        core, rest = [], []
        for a, e in mo:
            (core if a is prev or any(x is prev for x in tm.walk(a)) or a.op in ("min", "max") or (a.op == "app" and not pv.is_pos(a)) else rest).append((a, e))
        key = tuple(sorted(core, key=lambda p: str(p[0])))
        t = tm.scale(tm.mul(*[tm._mono_term(((a, e),)) for a, e in rest]), c) if rest else tm.const(c)
        groups[key] = tm.add(groups.get(key, ZERO), t)
    lin = ((prev, 1),)
    if lin not in groups or not _posc(groups.pop(lin)):
        return False
    for key, c in groups.items():
        y = tm.mul(*[tm._mono_term(((a, e),)) for a, e in key]) if key else tm.ONE
        if not _posc(c) or not (pv.is_nonneg(y) or pv.entails([], tm.ge(y, ZERO), 1500) == "yes"):
            return False
    return True


def rec_pair_facts(x, y):
    """facts about two values of the same recursive definition"""
    d = rec_defs.get(x.args[0])
    if d is None or d["sort"] != "R":
        return []
    ni = len(d["idx"])
    if x.args[1][1:] != y.args[1][1:] or not rec_stays_positive(x.args[0], tuple(x.args[1][1 + ni:])):
        return []
    kx, ky = x.args[1][0], y.args[1][0]
    return [tm.Implies(And(tm.ge(kx, ZERO), tm.le(kx, ky), tm.gt(x, ZERO)), tm.gt(y, ZERO)),
            tm.Implies(And(tm.ge(ky, ZERO), tm.le(ky, kx), tm.gt(y, ZERO)), tm.gt(x, ZERO))]


pv.rec_pair_hook = rec_pair_facts


def _rec_nonneg(a):
    """candidate invariant X >= 0 of a recursive definition at its parameters, shown inductively"""
    name, args = a.args
    d = rec_defs.get(name)
    if d is None or d["sort"] == "B":
        return False
    par = tuple(args[1 + len(d["idx"]):])
    key = (name, par)
    st = pv.rec_state.get(key)
    if st is not None:
        return st
    m = dict(zip(d["params"], par))
    kk = tm.fresh("k", "I")
    tm.lower_bound[kk] = 1
    m[d["k"]] = kk
    before = set(pv.rec_state)
    pv.rec_state[key] = True       # induction hypothesis for smaller k
    init, step = tm.subst(d["init"], m), tm.subst(d["step"], m)
    ok = (pv.is_nonneg(init) or pv.entails([], tm.ge(init, ZERO), 300) == "yes") and \
         (pv.is_nonneg(step) or pv.entails([], tm.ge(step, ZERO), 1500) == "yes")
    if not ok:                     # forget what was concluded under the failed hypothesis
        for x in list(pv.rec_state):
            if x not in before:
                del pv.rec_state[x]
    pv.rec_state[key] = ok
    return ok


pv.rec_nonneg_hook = _rec_nonneg


# ---------------------------------------------------------------- control outcomes
class Outcome:
    __slots__ = ("kind", "val", "heap", "pc")

    def __init__(self, kind, val, heap, pc):
        self.kind, self.val, self.heap, self.pc = kind, val, heap, pc


class Infeasible(Exception):
    pass


class Block:
    """the elements one iteration of a loop yields from its inner loop"""

    def __init__(self, seq):
        self.seq = seq

    def subst(self, m):
        return Block(vsubst(self.seq, m))


def is_block(fn):
    try:
        return isinstance(fn(ZERO), Block)
    except Unsupported:
        return False


class Segs(tuple):
    """yields so far: tuple of (n, Fn value, cond Fn|None)"""


class MergeFail:
    def __init__(self, msg):
        self.msg = msg


class Acc:
    """placeholder for a container being filled in a symbolic loop"""

    def __init__(self, base, kind):
        self.base, self.kind = base, kind
        self.adds = ()


class Store(Arr):
    """array old with row idx0 == t replaced"""

    def __init__(self, old, t, val):
        self.old, self.t, self.val = old, t, val
        nd = old.ndim

        def f(*i):
            return vite(tm.eq(i[0], t), val.at(*i[1:]) if nd > 1 else val, old.at(*i))
        super().__init__(old.shape, f, old.kind)


class FStore(Frame):
    def __init__(self, old, t, val):
        self.old, self.t, self.val = old, t, val
        super().__init__(old.rows, old.cols, lambda r, c: vite(tm.eq(r, t), val.at(c), old.at(r, c)), old.kind)


class SeqStore(Seq):
    """list old of tables with row t of element k replaced (for every value of the binders)"""

    def __init__(self, old, k, t, val):
        self.old, self.k, self.t, self.val = old, k, t, val

        def at(e):
            o = old.at(e)
            return Frame(o.rows, o.cols, lambda r, c: vite(And(tm.eq(e, k), tm.eq(r, t)), val.at(c), o.at(r, c)), o.kind)
        super().__init__(old.n, at)
        self.fresh = True


def solve_cell(binders, eqs):
    """the values of the binders for which every (term, cell) of eqs is an equality: (substitution, condition)"""
    left, m, conds = list(binders), {}, []
    eqs = list(eqs)
    while left:
        for q, (t, cell) in enumerate(eqs):
            t = tm.subst(t, m)
            vs = [v for v, _ in left if v in t.fv]
            lin = tm._lin_in(t, vs[0]) if len(vs) == 1 else None
            if lin is not None and lin[0] == 1:
                v = vs[0]
                x = tm.sub(cell, lin[1])
                n = tm.subst(dict(left)[v], m)
                conds += [tm.ge(x, ZERO), tm.lt(x, n)]
                m = {**{y: tm.subst(z, {v: x}) for y, z in m.items()}, v: x}
                left = [b for b in left if b[0] is not v]
                eqs.pop(q)
                break
        else:
            unsup("cell of a table filled in a loop")
    conds += [tm.eq(tm.subst(t, m), cell) for t, cell in eqs]
    return m, And(*[tm.subst(c, m) for c in conds])


class Filled(Frame):
    """table old with row t replaced for every value of the binders"""

    def __init__(self, it, old, binders, t, val):
        self.old, self.binders, self.t, self.val = old, binders, t, val

        def cell(r, c):
            m, cond = solve_cell(binders, [(t, r)])
            cond = it.simp(cond, span(it, old.rows, r))
            return vite(cond, vsubst(val.at(c), m), old.at(r, c))
        super().__init__(old.rows, old.cols, cell, old.kind)


class SeqFilled(Seq):
    """list old of tables with row t of element k replaced for every value of the binders"""

    def __init__(self, it, old, binders, k, t, val):
        self.old, self.binders, self.k, self.t, self.val = old, binders, k, t, val

        def at(e):
            o = old.at(e)

            def cell(r, c):
                m, cond = solve_cell(binders, [(k, e), (t, r)])
                cond = it.simp(cond, span(it, o.rows, r) + [tm.ge(e, ZERO), tm.lt(e, old.n)])
                return vite(cond, vsubst(val.at(c), m), o.at(r, c))
            return Frame(o.rows, o.cols, cell, o.kind)
        super().__init__(old.n, at)
        self.fresh = True


def span(it, ax, r):
    try:
        a = it.affine(ax)
    except Unsupported:
        return []
    return [tm.ge(r, a.off), tm.lt(r, tm.add(a.off, a.n))]


class Interp:
    def __init__(self, contracts=None, hyps=()):
        self.heap = {}
        self.element_type = None
        self.elem = {}              # tables taken out of a list of tables: reference -> (list, index)
        self.stored = set()         # objects put into a list under construction (their content is copied)
        self.nid = 0
        self.pc = []
        self.hyps = list(hyps)
        self.modules = {}
        self.writes = None
        self.inputs = set()
        self.alias = {}
        self.input_writes = []      # (pc, description)
        self.raises = []            # (pc, exception name)
        self.tries = []
        self.safety = []            # (description, hyps, goal)
        self.contracts = contracts or {}
        self.used_contracts = set()
        self.texts = {}
        self.executed = set()
        self.dec_cache = {}
        self.depth = 0
        self.fail_counter = 0
        self.fuel = 200000
        self.forks = False          # some values change their kind with a condition (NeedFork)
        self.splits = 0             # conditionals whose continuation is executed per branch
        self.cuts = None            # loop invariants given by the contract (see cut)
        self.solves = []            # optimisation problems posed (lib_cvx)
        self.calls = []             # calls replaced by their contracts whose arguments are needed later
        self.loops = []             # enclosing loops: (variable, length, condition)
        self.obs = []               # instrumentation: recorded library events (optimisation problems ...)
        self.sk = {}                # cache of filter offsets
        self.cur = "?"

    # ------------------------------------------------------------ heap
    def new(self, c, alias=()):
        self.nid += 1
        i = self.nid
        self.heap[i] = c
        if alias:
            s = set()
            for a in alias:
                s.add(a)
                s |= self.alias.get(a, frozenset())
            self.alias[i] = frozenset(s)
        return Ref(i)

    def D(self, v):
        if isinstance(v, Ref):
            c = self.heap[v.id]
            if isinstance(c, Poison):
                raise NeedCarry(c.loc)
            if isinstance(c, MergeFail):
                raise MergeProblem("value differs between branches: " + c.msg)
            return c
        if isinstance(v, Poison):
            raise NeedCarry(v.loc)
        if isinstance(v, MergeFail):
            raise MergeProblem("value differs between branches: " + v.msg)
        return v

    def Dc(self, c):
        if isinstance(c, Poison):
            raise NeedCarry(c.loc)
        if isinstance(c, MergeFail):
            raise MergeProblem("value differs between branches: " + c.msg)
        return c

    def view(self, c, src):
        """box content that shares memory with src"""
        return self.new(c, [src.id] if isinstance(src, Ref) else [])

    def write(self, ref, content, what="object"):
        if not isinstance(ref, Ref):
            unsup(f"in-place update of a temporary {type(ref).__name__}")
        if self.writes is not None:
            self.writes.add((ref.id, None))
        al = self.alias.get(ref.id, frozenset())
        hit = ({ref.id} | al) & self.inputs
        if hit:
            self.input_writes.append((And(*self.pc), f"{what} in {self.cur}"))
        elif al:
            unsup("in-place update of a view of a local object")
        if ref.id in self.stored:
            unsup("in-place update of an object stored in a list")
        self.heap[ref.id] = content
        if ref.id in self.elem and not isinstance(content, Acc):
            self.write_elem(ref, content)

    def write_elem(self, ref, content):
        """a table taken out of a list of tables changes in place: so does the list"""
        par, k = self.elem[ref.id]
        if isinstance(k, tuple):
            c = self.D(par)
            if k[1] is None or not isinstance(c, SymDict):
                unsup("in-place update of an entry of a dictionary")
            v = self.freeze(content)
            self.write(par, SymDict(c.axis, lambda l: vite(tm.eq(l, k[1]), v, c.at(l))), "dictionary")
            for q, (p2, _) in self.elem.items():
                if p2.id == par.id and q != ref.id and q in self.heap:
                    if self.writes is not None:
                        self.writes.add((q, None))
                    self.heap[q] = MergeFail("entry of a dictionary that has changed")
            return
        if not isinstance(content, FStore):
            unsup("in-place update of a table in a list")
        self.write(par, SeqStore(self.D(par), k, content.t, content.val), "list")
        for q, (p2, _) in self.elem.items():
            if p2.id == par.id and q != ref.id and q in self.heap:
                if self.writes is not None:
                    self.writes.add((q, None))
                self.heap[q] = MergeFail("table of a list that has changed")

    def freeze(self, v):
        v = self.D(v) if isinstance(v, (Ref, Poison, MergeFail)) else v
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        if isinstance(v, NT):
            return NT(v.cls, [self.freeze(x) for x in v.vals])
        if isinstance(v, ListV):
            return ListV([self.freeze(x) for x in v.items])
        if isinstance(v, DictV):
            return DictV([(k, self.freeze(x)) for k, x in v.items])
        if isinstance(v, Inst):
            return Inst(v.cls, {k: self.freeze(x) for k, x in v.attrs.items()})
        if isinstance(v, Opaque) and v.kind in ("maybe", "cell"):
            return Opaque(v.kind, **{k: self.freeze(x) for k, x in v.d.items()})
        return v

    # ------------------------------------------------------------ decisions
    def known(self):
        return self.hyps + self.pc

    def decide(self, c, timeout=400):
        """True / False / None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        key = (c, tuple(self.pc), len(self.hyps))
        if key in self.dec_cache:
            return self.dec_cache[key]
        r = None
        if self.prove(c, timeout=timeout):
            r = True
        elif self.prove(Not(c), timeout=timeout):
            r = False
        self.dec_cache[key] = r
        return r

    def prove(self, goal, extra=(), timeout=1500, unfold=0):
        from . import logic
        return logic.prove(list(self.known()) + list(extra), goal, timeout=timeout, unfold=unfold)

    def simp(self, t, extra=()):
        """replace decided literals in a formula / ite conditions in a term"""
        from . import logic
        return logic.simplify(t, list(self.known()) + list(extra))

    def truth(self, v):
        v = self.D(v)
        if v is None:
            return FALSE
        if isinstance(v, BoolV):
            return v.t
        if isinstance(v, Num):
            return Or(v.nan, Not(tm.eq0(v.r)))
        if isinstance(v, str):
            return TRUE if v else FALSE
        if isinstance(v, (tuple,)):
            return TRUE if v else FALSE
        if isinstance(v, (ListV, DictV)):
            return TRUE if v.items else FALSE
        if isinstance(v, Arr) and v.ndim == 0:
            return self.truth(v.at())
        if isinstance(v, Arr) and all(s is ONE for s in v.shape):
            return self.truth(v.at(*[ZERO] * v.ndim))
        if isinstance(v, (FuncV, Inst, Opaque)):
            return TRUE
        if isinstance(v, Label) and v.space == "time":
            self.obs.append(("assume", "times are dates (true as conditions)"))
            return TRUE
        if isinstance(v, Seq):
            return tm.gt(v.n, ZERO)
        unsup(f"truth value of {type(v).__name__}")

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(REPO, *name.split(".")) + ".py"
        if not os.path.exists(path):
            path = os.path.join(REPO, *name.split("."), "__init__.py")
        if not os.path.exists(path):
            return None
        src = open(path).read()
        tree = ast.parse(src)
        env = self.new({"__name__": name})
        self.modules[name] = env
        save = self.pc, self.cur, self.writes
        self.pc, self.cur, self.writes = [], name, None
        for s in tree.body:
            try:
                self.module_stmt(s, env, name)
            except Unsupported as e:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.setvar(env, n.id, MergeFail(f"module level statement outside the subset: {e}"))
        self.pc, self.cur, self.writes = save
        return env

    def module_stmt(self, s, env, name):
        if isinstance(s, ast.Expr):
            return
        self.exec_stmt(s, env, name)

    def func(self, qual):
        """FuncV for 'module:function' or 'module:Class.method'"""
        mod, fn = qual.split(":")
        env = self.load(mod)
        if env is None:
            return None
        d = self.heap[env.id]
        parts = fn.split(".")
        v = d.get(parts[0])
        for p in parts[1:]:
            v = v.attrs.get(p) if isinstance(v, ClassV) else None
        return v

    # ------------------------------------------------------------ variables
    def setvar(self, env, name, val):
        if isinstance(val, Ref):
            old = self.heap[env.id].get(name)
            if isinstance(old, Ref) and old.id == val.id:       # x op= y on an object changed in place: still the same object
                return
        if self.writes is not None:
            self.writes.add((env.id, name))
        d = dict(self.heap[env.id])
        d[name] = val
        self.heap[env.id] = d

    def lookup(self, env, name):
        e = env
        while e is not None:
            d = self.heap[e.id]
            if name in d:
                v = d[name]
                if isinstance(v, Poison):
                    raise NeedCarry(v.loc)
                if isinstance(v, Poison2) and v.last:
                    x = v.last()
                    if x is not None:
                        self.heap[e.id] = {**d, name: x}
                        return x
                if isinstance(v, MergeFail):
                    raise MergeProblem(f"{name}: " + v.msg)
                if isinstance(v, Undef):
                    unsup(f"{name} possibly undefined")
                return v
            e = d.get("$parent")
        b = BUILTINS.get("builtins." + name)
        if b:
            return Builtin("builtins." + name, b)
        if name in ("True", "False"):
            return BoolV(TRUE if name == "True" else FALSE)
        if name in EXC:
            return ClassV(name, {}, "builtins")
        unsup(f"name {name}")

    def find_env(self, env, name):
        e = env
        while e is not None:
            d = self.heap[e.id]
            if name in d:
                return e
            e = d.get("$parent")
        return None

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        f = self.D(f)
        if isinstance(f, FuncV):
            c = self.contracts.get(f.qual)
            if c is not None:
                bound = self.bind(f, args, kwargs)
                r = c(self, **{k: v for k, v in bound.items()})
                if r is not NotImplemented:
                    self.used_contracts.add(f.qual)
                    return r
            return self.call_func(f, args, kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, BoundM):
            return self.call_method(f.obj, f.name, args, kwargs)
        if isinstance(f, NTClass):
            vals = list(args) + [None] * (len(f.fields) - len(args))
            for k, v in kwargs.items():
                vals[f.fields.index(k)] = v
            return NT(f, vals)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Opaque) and f.kind == "fn":
            return f.d["call"](self, args, kwargs)
        unsup(f"call of {type(f).__name__}")

    def instantiate(self, c, args, kwargs):
        init = self.class_attr(c, "__init__")
        ref = self.new(Inst(c, {}))
        if init is not None:
            self.call(init, [ref] + list(args), kwargs)
        return ref

    def class_attr(self, c, name):
        if name in c.attrs:
            return c.attrs[name]
        for b in c.bases:
            b = self.D(b)
            if isinstance(b, ClassV):
                r = self.class_attr(b, name)
                if r is not None:
                    return r
        return None

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if len(args) > len(names) and not a.vararg:
            unsup(f"too many arguments for {f.qual}")
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg:
            out[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        kwn = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names or k in kwn:
                if k in out:
                    unsup("duplicate argument")
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                unsup(f"unexpected keyword {k}")
        nd = len(f.defaults)
        for n, dv in zip(names[len(names) - nd:], f.defaults):
            if n not in out:
                out[n] = dv
        for n, dv in zip(kwn, f.kwdefaults):
            if n not in out:
                if dv is UNDEF:
                    unsup(f"missing argument {n}")
                out[n] = dv
        if a.kwarg:
            out[a.kwarg.arg] = self.new(DictV(list(extra.items())))
        for n in names:
            if n not in out:
                unsup(f"missing argument {n} of {f.qual}")
        return out

    def call_func(self, f, args, kwargs):
        if self.depth > 40:
            unsup("recursion")
        bound = self.bind(f, args, kwargs)
        self.executed.add(f.qual)
        if isinstance(f.node, ast.Lambda):
            env = self.new({"$parent": f.env, **bound})
            return self.ev(f.node.body, env)
        bound["$parent"] = f.env
        bound["$fn"] = f
        env = self.new(bound)
        self.depth += 1
        save_cur = self.cur
        self.cur = f.qual
        gen = None
        if f.isgen:
            gen = self.new(Segs())
            d = dict(self.heap[env.id])
            d["$gen"] = gen
            self.heap[env.id] = d
        base = list(self.pc)
        try:
            outs = self.exec_block(f.node.body, env, f.mod)
        finally:
            self.depth -= 1
            self.cur = save_cur
        res = []
        for o in outs:
            if o.kind == "next":
                o = Outcome("return", None, o.heap, o.pc)
            if o.kind != "return":
                unsup(o.kind + " outside loop")
            res.append(o)
        if not res:
            raise Infeasible()
        if gen is not None:
            vals = [(o, None) for o in res]
            self.merge_into(base, res)
            segs = self.heap[gen.id]
            return self.seq_of(segs)
        v = self.merge_into(base, res)
        return v

    def merge_into(self, base, outs):
        """set the state to the merge of outs (same kind), return merged value"""
        n = len(base)
        conds = [And(*o.pc[n:]) for o in outs]
        if len(outs) == 1:
            self.heap = outs[0].heap
            self.pc = base + [c for c in outs[0].pc[n:]]
            return outs[0].val
        # total condition
        tot = Or(*conds)
        self.pc = base + ([tot] if tot is not TRUE else [])
        heap = dict(outs[-1].heap)
        val = outs[-1].val
        # later outcomes are the "else" of earlier ones
        for o, c in reversed(list(zip(outs[:-1], conds[:-1]))):
            h2, h0 = o.heap, heap
            heap = dict(h2)
            heap.update(h0)
            self.heap = heap
            save, self.mrg = getattr(self, "mrg", None), (h2, h0)
            try:
                for i in sorted(h2.keys() & h0.keys()):
                    if h0[i] is not h2[i]:
                        heap[i] = self.merge_content(c, h2[i], h0[i])
                val = self.merge_val(c, o.val, val, hard=True)
            except Unsupported as e:
                raise MergeProblem(str(e)) from e
            finally:
                self.mrg = save
        self.heap = heap
        return val

    def merge_content(self, c, a, b):
        if isinstance(a, dict) and isinstance(b, dict):
            d = {}
            for k in list(a) + [x for x in b if x not in a]:
                if k in a and k in b:
                    d[k] = a[k] if a[k] is b[k] else self.merge_val(c, a[k], b[k])
                else:
                    d[k] = MergeFail(f"{k} defined in one branch only")
            return d
        if isinstance(a, Segs) and isinstance(b, Segs):
            p = 0
            while p < len(a) and p < len(b) and a[p] is b[p]:
                p += 1
            out = list(a[:p])
            for segs, cc in ((a[p:], c), (b[p:], Not(c))):
                for n, f, cond in segs:
                    out.append((n, f, _andc(cond, cc)))
            return Segs(out)
        try:
            if isinstance(a, Store) and isinstance(b, Store) and a.old is b.old and a.t is b.t:
                return Store(a.old, a.t, vite(c, a.val, b.val))
            if isinstance(a, FStore) and isinstance(b, FStore) and a.old is b.old and a.t is b.t:
                return FStore(a.old, a.t, vite(c, a.val, b.val))
            if isinstance(a, Acc) or isinstance(b, Acc):
                return merge_acc(c, a, b)
            return self.merge_val(c, a, b)
        except Unsupported as e:
            return MergeFail(str(e))

    def merge_val(self, c, a, b, hard=False):
        if a is b or ident(a, b):
            return a
        if isinstance(a, (Poison, MergeFail)):
            return a
        if isinstance(b, (Poison, MergeFail)):
            return b
        try:
            if isinstance(a, Ref) or isinstance(b, Ref):
                h2, h0 = getattr(self, "mrg", None) or (self.heap, self.heap)
                ca = self.Dc(h2[a.id]) if isinstance(a, Ref) and a.id in h2 else self.D(a)
                cb = self.Dc(h0[b.id]) if isinstance(b, Ref) and b.id in h0 else self.D(b)
                m = self.merge_content(c, ca, cb) if not isinstance(ca, dict) else unsup("env")
                if isinstance(m, MergeFail):
                    if hard:
                        unsup(m.msg)
                    return m
                al = [x.id for x in (a, b) if isinstance(x, Ref)]
                return self.new(m, al)
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                return tuple(self.merge_val(c, x, y, True) for x, y in zip(a, b))
            if isinstance(a, NT) and isinstance(b, NT) and a.cls is b.cls:
                return NT(a.cls, [self.merge_val(c, x, y, True) for x, y in zip(a.vals, b.vals)])
            if isinstance(a, Frame) and isinstance(b, Frame) and a.kind == b.kind == "num":
                if self.same_cells(Not(c), a, b):
                    return a
                if self.same_cells(c, a, b):
                    return b
            return vite(c, a, b)
        except Unsupported as e:
            if hard:
                raise
            return MergeFail(str(e))

    def same_cells(self, cond, a, b):
        """two tables agree everywhere under a condition"""
        if not (a.rows.same(b.rows) and a.cols.same(b.cols)):
            return False
        t, i = tm.fresh("t", "I"), tm.fresh("i", "I")
        tm.lower_bound[t] = tm.lower_bound[i] = 0
        x, y = a.at(t, i), b.at(t, i)
        if not isinstance(x, Num) or not isinstance(y, Num):
            return False
        from . import logic
        hy = list(self.known()) + [cond, a.rows.has(t), a.cols.has(i)]
        for p, q in ((x.nan, y.nan), (x.inf, y.inf)):
            if p is not q and not (logic.prove(hy + [p], q, 400) and logic.prove(hy + [q], p, 400)):
                return False
        p, q = (logic.simplify(expand_lets(z.r), hy) for z in (x, y))
        return tm.is_zero(tm.sub(p, q)) or logic.prove(hy + [Not(x.nan)], tm.eq0(tm.sub(p, q)), 800)

    # ------------------------------------------------------------ generators
    def seq_of(self, segs):
        """segments -> Seq"""
        segs = [s for s in segs]
        for s in segs:
            if is_block(s[1]):
                if len(segs) > 1:
                    unsup("nested generator loops")
                return Opaque("blocks", seq=Seq(s[0], lambda k: s[1](k).seq))
        out = []
        for n, f, cond in segs:
            if n is ONE and cond is not None:
                vs, b = cond.body()
                if vs[0] not in b.t.fv:
                    d = self.decide(b.t)
                    if d is False:
                        continue
                    if d is True:
                        cond = None
            if out and cond is not None and n is ONE and out[-1][0] is ONE and out[-1][2] is not None:
                # one element on either of two complementary paths
                a, b2 = out[-1][2](ZERO).t, cond(ZERO).t
                if And(a, b2) is FALSE or self.prove(Not(And(a, b2))):
                    f0, both = out.pop()[1], Or(a, b2)
                    both = TRUE if self.decide(both) is True else both
                    f = (lambda f0, f1, a: lambda k: vite(a, f0(k), f1(k)))(f0, f, a)
                    f = Fn(1, f, [ONE])
                    cond = None if both is TRUE else Fn(1, (lambda t: lambda k: BoolV(t))(both), [ONE])
            out.append((n, f, cond))
        segs = out
        if not segs:
            return Seq(ZERO, lambda k: unsup("element of an empty sequence"))
        # constant conditions on single elements turn into a length
        total = ZERO
        parts = []
        i = 0
        # merge mutually exclusive singles
        while i < len(segs):
            n, f, cond = segs[i]
            if cond is not None:
                vs, b = cond.body()
                if vs[0] not in b.t.fv:      # whole segment present or not
                    n = tm.ite(b.t, n, ZERO)
                    cond = None
            parts.append((n, f, cond))
            i += 1
        if len(parts) == 1:
            n, f, cond = parts[0]
            return Seq(self.simp_len(n), f, cond)
        # concatenate: element k lies in the first part whose end exceeds it
        ends = []
        acc = ZERO
        for n, f, cond in parts:
            acc = tm.add(acc, n)
            ends.append(acc)
        total = self.simp_len(acc)
        starts = [ZERO] + ends[:-1]
        # a single present-only-if-something element followed by elements that need it
        def at(k):
            v = None
            for (n, f, cond), st, en in reversed(list(zip(parts, starts, ends))):
                x = f(tm.sub(k, st)) if n is not ONE else f(ZERO)
                v = x if v is None else vite(tm.eq(k, st) if n is ONE else tm.lt(k, en), x, v)
            return v
        cond = None
        if any(c is not None for _, _, c in parts):
            def cond(k):
                v = None
                for (n, f, c), st, en in reversed(list(zip(parts, starts, ends))):
                    x = TRUE if c is None else c(tm.sub(k, st)).t
                    v = x if v is None else tm.ite(tm.eq(k, st) if n is ONE else tm.lt(k, en), x, v)
                return BoolV(v)
        # simplification: starts like ite(c,1,0) are 1 whenever element k exists beyond 0
        starts = [ZERO if s is ZERO else self.simp_under_nonempty(s, total) for s in starts]
        ends = [self.simp_under_nonempty(e, total) for e in ends]
        s = Seq(total, lambda k: unify_seq(at, k), cond)
        return s

    def simp_len(self, n):
        """try to find a simpler equal length"""
        n = self.simp(n)
        if n.op in ("poly", "var") and not any(x.op in ("ite",) or (x.op == "app" and x.args[0] in ("max", "min")) for x in tm.walk(n)):
            return n
        cands = []
        for x in tm.walk(n):
            if x.op == "ite":
                for y in x.args[1:]:
                    cands.append(tm._subst_term(n, x, y))
            if x.op == "app" and x.args[0] in ("max", "min"):
                for y in x.args[1]:
                    cands.append(tm._subst_term(n, x, y))
        for _ in range(3):
            new = []
            for c in cands:
                for x in tm.walk(c):
                    if x.op == "ite":
                        new += [tm._subst_term(c, x, y) for y in x.args[1:]]
                    if x.op == "app" and x.args[0] in ("max", "min"):
                        new += [tm._subst_term(c, x, y) for y in x.args[1]]
            cands += new
            if not new:
                break
        seen = set()
        for c in sorted(set(cands), key=lambda t: len(t.s)):
            if c in seen or any(x.op == "ite" or (x.op == "app" and x.args[0] in ("max", "min")) for x in tm.walk(c)):
                continue
            seen.add(c)
            if self.prove(tm.eq(n, c)):
                return c
        return n

    def simp_under_nonempty(self, t, total):
        return self.simp(t, [tm.gt(total, ZERO)])

    # ------------------------------------------------------------ statements
    def snapshot(self):
        return dict(self.heap), list(self.pc), None if self.writes is None else set(self.writes), \
            [len(x) for x in (self.raises, self.safety, self.input_writes, self.solves, self.calls)]

    def restore(self, snap):
        self.heap, self.pc = dict(snap[0]), list(snap[1])
        if self.writes is not None and snap[2] is not None:
            self.writes = set(snap[2])
        for x, m in zip((self.raises, self.safety, self.input_writes, self.solves, self.calls), snap[3]):
            del x[m:]

    def exec_block(self, stmts, env, mod):
        cands = []
        try:
            return self.exec_block0(stmts, env, mod, cands)
        except MergeProblem as problem:
            if self.splits >= 2:
                raise
            err = problem
        # the values of a conditional cannot be merged: execute what follows it once for each branch
        for k, node, snap, done in reversed(cands[-2:]):
            self.restore(snap)
            self.splits += 1
            try:
                c = self.truth(self.ev(node.test, env))
                if self.decide(c) is not None:
                    continue
                rest = list(stmts[k + 1:])
                return done + self.branch(c, lambda: self.exec_block(node.body + rest, env, mod), lambda: self.exec_block(node.orelse + rest, env, mod))
            except MergeProblem:
                continue
            finally:
                self.splits -= 1
        raise err

    def exec_block0(self, stmts, env, mod, cands):
        done = []
        base = list(self.pc)
        for k, s in enumerate(stmts):
            node = as_branch(s) if self.splits < 2 else None
            if node is not None:
                cands.append((k, node, self.snapshot(), list(done)))
            self.fuel -= 1
            if self.fuel < 0:
                unsup("execution budget")
            state = self.snapshot() if self.forks else None
            try:
                outs = self.exec_stmt(s, env, mod)
            except Infeasible:
                return done
            except NeedFork as f:
                if state is None:
                    unsup("the kind of a value depends on a condition")
                self.restore(state)
                if self.splits >= 2 or self.decide(f.cond) is not None:
                    unsup("the kind of a value depends on a condition")
                rest = list(stmts[k:])
                self.splits += 1
                try:
                    return done + self.branch(f.cond, lambda: self.exec_block(rest, env, mod), lambda: self.exec_block(rest, env, mod))
                finally:
                    self.splits -= 1
            if outs is None:
                continue
            nexts = [o for o in outs if o.kind == "next"]
            done += [o for o in outs if o.kind != "next"]
            if not nexts:
                return done
            b = list(nexts[0].pc)
            # longest common prefix of path conditions
            p = 0
            while all(len(o.pc) > p and o.pc[p] is b[p] for o in nexts) and p < len(b):
                p += 1
            self.merge_into(b[:p], nexts)
        done.append(Outcome("next", None, self.heap, list(self.pc)))
        return done

    def branch(self, c, then, els):
        """execute two alternatives under c / not c"""
        d = self.decide(c)
        if d is True:
            return then()
        if d is False:
            return els()
        h0, pc0 = self.heap, list(self.pc)
        outs = []
        for cc, fn in ((c, then), (Not(c), els)):
            self.heap = dict(h0)
            self.pc = pc0 + [cc]
            try:
                r = fn()
            except Infeasible:
                continue
            if r is None:
                r = [Outcome("next", None, self.heap, list(self.pc))]
            outs += r
        if not outs:
            raise Infeasible()
        return outs

    def exec_stmt(self, s, env, mod):
        k = type(s).__name__
        m = getattr(self, "st_" + k, None)
        if m is None:
            unsup(f"statement {k}")
        return m(s, env, mod)

    def st_Pass(self, s, env, mod):
        return None

    def st_Global(self, s, env, mod):
        unsup("global")

    def st_Nonlocal(self, s, env, mod):
        d = dict(self.heap[env.id])
        d["$nonlocal"] = tuple(d.get("$nonlocal", ())) + tuple(s.names)
        self.heap[env.id] = d

    def st_Expr(self, s, env, mod):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, env)
        return None

    def st_Import(self, s, env, mod):
        for a in s.names:
            if a.asname:
                self.setvar(env, a.asname, ModuleV(a.name))
            else:
                self.setvar(env, a.name.split(".")[0], ModuleV(a.name.split(".")[0]))

    def st_ImportFrom(self, s, env, mod):
        name = s.module or ""
        if s.level:
            parts = mod.split(".")[: -s.level]
            name = ".".join(parts + ([name] if name else []))
        if name == "__future__":
            return
        e = self.load(name)
        for a in s.names:
            if e is not None:
                d = self.heap[e.id]
                if a.name == "*":
                    for k2, v in d.items():
                        if not k2.startswith("_") and not k2.startswith("$"):
                            self.setvar(env, k2, v)
                    continue
                if a.name in d:
                    self.setvar(env, a.asname or a.name, d[a.name])
                    continue
                unsup(f"import {a.name} from {name}")
            dn = name + "." + a.name
            self.setvar(env, a.asname or a.name, self.libname(dn))

    def libname(self, dn):
        dn = canon(dn)
        if dn in BUILTINS:
            return Builtin(dn, BUILTINS[dn])
        if dn in CONSTS:
            return CONSTS[dn]
        return ModuleV(dn)

    def st_FunctionDef(self, s, env, mod, cls=None):
        isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(s))
        defaults = [self.ev(d, env) for d in s.args.defaults]
        kwd = [UNDEF if d is None else self.ev(d, env) for d in s.args.kw_defaults]
        d = self.heap[env.id]
        outer = d.get("$fn")
        q = (outer.qual + ".<locals>." + s.name) if outer else mod + ":" + ((cls + ".") if cls else "") + s.name
        f = FuncV(s, env, mod, q, defaults, kwd, isgen, cls)
        v = f
        for dec in reversed(s.decorator_list):
            dn = ast.unparse(dec)
            if dn == "property":
                v = Opaque("property", f=v)
            elif dn in ("abstractmethod", "staticmethod"):
                v = v if dn == "abstractmethod" else Opaque("static", f=v)
            else:
                v = MergeFail(f"decorator {dn}")
        if cls:
            return v
        self.setvar(env, s.name, v)

    def st_ClassDef(self, s, env, mod):
        attrs = {}
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                attrs[x.name] = self.st_FunctionDef(x, env, mod, cls=s.name)
            elif isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name):
                attrs[x.targets[0].id] = self.ev(x.value, env)
            elif isinstance(x, (ast.Expr, ast.Pass, ast.AnnAssign)):
                pass
            else:
                unsup("class body")
        bases = []
        for b in s.bases:
            try:
                bases.append(self.ev(b, env))
            except Unsupported:
                pass
        self.setvar(env, s.name, ClassV(s.name, attrs, mod, tuple(bases)))

    def st_Return(self, s, env, mod):
        v = self.ev(s.value, env) if s.value is not None else None
        return [Outcome("return", v, self.heap, list(self.pc))]

    def st_Continue(self, s, env, mod):
        return [Outcome("continue", None, self.heap, list(self.pc))]

    def st_Break(self, s, env, mod):
        return [Outcome("break", None, self.heap, list(self.pc))]

    def st_Assert(self, s, env, mod):
        c = self.truth(self.ev(s.test, env))
        self.raise_if(Not(c), "AssertionError")
        return None

    def raise_if(self, c, exc):
        """exception exc is raised when c; continue under not c"""
        d = self.decide(c)
        if d is False:
            return
        if self.tries:
            self.tries[-1].append((dict(self.heap), self.pc + [c], exc))
        else:
            self.raises.append((And(*self.pc, c), exc))
        if d is True:
            raise Infeasible()
        self.pc = self.pc + [Not(c)]

    def st_Raise(self, s, env, mod):
        name = "Exception"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = ast.unparse(e).split(".")[-1]
        self.raise_if(TRUE, name)

    def st_Try(self, s, env, mod):
        if s.finalbody:
            unsup("finally")
        base = list(self.pc)
        self.tries.append([])
        try:
            try:
                outs = self.exec_block(s.body, env, mod)
            except Infeasible:
                outs = []
        finally:
            pts = self.tries.pop()
        if s.orelse:
            unsup("try/else")
        res = list(outs)
        for heap, pc, exc in pts:
            handled = False
            for h in s.handlers:
                names = [] if h.type is None else [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if h.type is None or exc in names or "Exception" in names or "BaseException" in names:
                    self.heap, self.pc = heap, list(pc)
                    if h.name:
                        self.setvar(env, h.name, Opaque("exc", name=exc))
                    res += self.exec_block(h.body, env, mod)
                    handled = True
                    break
            if not handled:
                if self.tries:
                    self.tries[-1].append((heap, pc, exc))
                else:
                    self.raises.append((And(*pc), exc))
        if not res:
            raise Infeasible()
        return res

    def st_If(self, s, env, mod):
        c = self.truth(self.ev(s.test, env))
        return self.branch(c, lambda: self.exec_block(s.body, env, mod), lambda: self.exec_block(s.orelse, env, mod))

    def st_With(self, s, env, mod):
        for x in s.items:
            v = self.ev(x.context_expr, env)
            if not (isinstance(v, Opaque) and v.kind == "pool"):
                unsup("with")
            if x.optional_vars is not None:
                self.assign(x.optional_vars, v, env)
        return self.exec_block(s.body, env, mod)

    def counted(self, s, env):
        """while i < n: ... i += 1 ...: name of the counter, bound, True when the bound itself is reached (<=)"""
        t = s.test
        if s.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        a, b, op = t.left, t.comparators[0], type(t.ops[0]).__name__
        if op in ("Gt", "GtE"):
            a, b, op = b, a, "Lt" + op[2:]
        if op not in ("Lt", "LtE") or not isinstance(a, ast.Name):
            return None
        if not all(isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.expr_context)) for x in ast.walk(b)):
            return None
        up = [x for x in s.body if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == a.id and isinstance(x.op, ast.Add) and
              isinstance(x.value, ast.Constant) and x.value.value == 1 or
              isinstance(x, ast.Assign) and ast.unparse(x) in (f"{a.id} = {a.id} + 1", f"{a.id} = 1 + {a.id}")]
        stored = [x.id for y in s.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))]
        fixed = {x.id for x in ast.walk(b) if isinstance(x, ast.Name)}
        if len(up) != 1 or stored.count(a.id) != 1 or fixed & set(stored) or any(isinstance(x, (ast.Continue, ast.Break, ast.FunctionDef, ast.Lambda, ast.Nonlocal)) for y in s.body for x in ast.walk(y)):
            return None
        i0, n = self.D(self.ev(a, env)), self.D(self.ev(b, env))
        if not all(isinstance(x, Num) and x.r.sort == "I" and x.nan is FALSE and x.inf is FALSE for x in (i0, n)):
            return None
        return a.id, i0.r, n.r if op == "Lt" else tm.add(n.r, ONE)

    def st_While(self, s, env, mod):
        for _ in range(64):
            c = self.truth(self.ev(s.test, env))
            d = self.decide(c)
            if d is False:
                return None
            k = self.counted(s, env) if d is None or _ > 16 else None
            if k is not None:
                name, lo, hi = k
                out = self.run_loop(Range(lo, hi), lambda v: self.setvar(env, name, v), lambda: self.exec_block(s.body, env, mod))
                if out is not None:
                    unsup("a loop left early")
                self.setvar(env, name, Num(tm.tmax(lo, hi)))
                return None
            if d is None:
                unsup("while with an undetermined condition")
            outs = self.exec_block(s.body, env, mod)
            if any(o.kind not in ("next", "continue") for o in outs):
                unsup("break/return in while")
            self.merge_into(self._prefix(outs), outs)
        unsup("while: too many iterations")

    def _prefix(self, outs):
        b = outs[0].pc
        p = 0
        while p < len(b) and all(len(o.pc) > p and o.pc[p] is b[p] for o in outs):
            p += 1
        return list(b[:p])

    def st_Assign(self, s, env, mod):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, s, env, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def st_AugAssign(self, s, env, mod):
        t = s.target
        op = type(s.op).__name__
        load = ast.copy_location(ast.parse(ast.unparse(t), mode="eval").body, t)
        a = self.ev(load, env)
        b = self.ev(s.value, env)
        ca = self.D(a)
        if isinstance(ca, ListV) and op == "Add":
            cb = self.D(b)
            if isinstance(cb, tuple):
                cb = ListV(cb)
            if not isinstance(cb, ListV):
                unsup("list +=")
            self.write(a, ListV(ca.items + cb.items), "list")
            r = a
        elif isinstance(ca, (Arr, Frame, Series)) and isinstance(a, Ref):
            r0 = self.binop(op, a, b)
            c0 = self.D(r0)
            if isinstance(ca, Arr):
                self.write(a, c0, "array")
                r = a
            else:
                r = r0
        else:
            r = self.binop(op, a, b)
        self.assign(t, r, env)

    def st_Delete(self, s, env, mod):
        unsup("del")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if self.cuts is not None:
                self.cut(v)
            d = self.heap[env.id]
            if t.id in d.get("$nonlocal", ()):
                e = self.find_env(d.get("$parent"), t.id)
                self.setvar(e, t.id, v)
            else:
                self.setvar(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            c = self.D(o)
            name = self.mangle(t.attr, env)
            if isinstance(c, Inst):
                at = dict(c.attrs)
                at[name] = v
                self.write(o, Inst(c.cls, at), f"attribute {t.attr}")
            elif isinstance(c, Opaque) and ("set_" + name) in c.d:
                c.d["set_" + name](self, o, v)
            elif isinstance(c, Opaque) and c.kind == "box" and isinstance(o, Ref):
                d = dict(c.d)
                d[name] = v
                self.write(o, Opaque("box", **d), f"attribute {t.attr}")
            elif type(c).__name__ in SETATTR:
                SETATTR[type(c).__name__](self, c, name, v)
            elif isinstance(c, (Frame, Series)) and name in ("columns", "index"):
                from . import lib_pd
                lib_pd.set_axis(self, o, c, name, v)
            else:
                unsup(f"attribute assignment on {type(c).__name__}")
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev_slice(t.slice, env)
            self.setitem(o, i, v)
        else:
            unsup("assignment target")

    def mangle(self, name, env):
        if name.startswith("__") and not name.endswith("__"):
            e = env
            while e is not None:
                d = self.heap[e.id]
                f = d.get("$fn")
                if f is not None and f.cls:
                    return "_" + f.cls.lstrip("_") + name
                e = d.get("$parent")
        return name

    def unpack(self, v, n):
        c = self.D(v)
        if isinstance(c, tuple):
            xs = list(c)
        elif isinstance(c, NT):
            xs = list(c.vals)
        elif isinstance(c, ListV):
            xs = list(c.items)
        elif isinstance(c, Arr) and tm.is_const(c.shape[0]):
            from . import lib_np
            xs = [lib_np.getitem(self, v, num(i)) for i in range(int(tm.cval(c.shape[0])))]
        elif isinstance(c, Seq) and isinstance(c, Seq):
            # zip(*seq_of_tuples)
            if getattr(c, "columns", None) and len(c.columns) == n:
                return list(c.columns)
            unsup("unpacking a sequence")
        else:
            unsup(f"unpacking {type(c).__name__}")
        if len(xs) != n:
            unsup("unpacking length")
        return xs

    # ------------------------------------------------------------ loops
    def st_For(self, s, env, mod):
        if s.orelse:
            unsup("for/else")
        it = self.ev(s.iter, env)
        return self.run_loop(it, lambda v: self.assign(s.target, v, env), lambda: self.exec_block(s.body, env, mod))

    def run_loop(self, it, bind, body):
        conc = self.concrete_items(it)
        if conc is not None:
            pend = []
            for v in conc:
                bind(v)
                outs = body()
                outs2 = [Outcome("next", None, o.heap, o.pc) if o.kind == "continue" else o for o in outs]
                nx = [o for o in outs2 if o.kind == "next"]
                other = [o for o in outs2 if o.kind != "next"]
                br = [o for o in other if o.kind == "break"]
                if br:
                    if nx:
                        # conditional break: finish both ways (the rest of the loop under the negation)
                        pend += [Outcome("next", None, o.heap, o.pc) for o in br]
                    else:
                        pend += [Outcome("next", None, o.heap, o.pc) for o in br]
                pend += [o for o in other if o.kind == "return"]
                if not nx:
                    return pend or None
                self.merge_into(self._prefix(nx), nx)
            if pend:
                return pend + [Outcome("next", None, self.heap, list(self.pc))]
            return None
        seq = self.as_seq(it)
        if seq.n is ZERO:
            return None
        state = (dict(self.heap), list(self.pc), len(self.raises), len(self.safety), len(self.input_writes), self.writes, None if self.writes is None else set(self.writes))
        try:
            self.sym_loop(seq, bind, body)
        except NeedPeel:
            if not seq.full() or self.decide(tm.ge(seq.n, ONE)) is not True:
                raise
            self.heap, self.pc, self.writes = state[0], state[1], state[5]
            if self.writes is not None:
                self.writes.clear()
                self.writes |= state[6]
            del self.raises[state[2]:], self.safety[state[3]:], self.input_writes[state[4]:]
            bind(seq.at(ZERO))
            outs = [Outcome("next", None, o.heap, o.pc) if o.kind == "continue" else o for o in body()]
            if any(o.kind != "next" for o in outs):
                unsup("jump out of an unrolled iteration")
            self.merge_into(self._prefix(outs), outs)
            self.sym_loop(Seq(tm.sub(seq.n, ONE), lambda k: seq.at(tm.add(k, ONE))), bind, body)
        return None

    def cut(self, v):
        """intermediate assertion: a table that provably equals one named by the contract is replaced by that name
        (self.cuts(dims, cell): idx terms -> term, callback)"""
        if isinstance(v, Ref):
            if v.id in self.inputs:
                return
            c = self.heap.get(v.id)
            c2 = self.cut_table(c)
            if c2 is not c:
                self.heap[v.id] = c2
        elif isinstance(v, (NT, tuple)):
            for x in (v.vals if isinstance(v, NT) else v):
                self.cut(x)

    def cut_table(self, c):
        if not isinstance(c, (Frame, Series, Arr)) or getattr(c, "base", None) is not None:
            return c
        dims = c.ndim if isinstance(c, Arr) else 2 if isinstance(c, Frame) else 1
        axes = () if isinstance(c, Arr) else ((c.rows, c.cols) if isinstance(c, Frame) else (c.axis,))
        idx = [tm.fresh("x", "I", c.shape[q]) if isinstance(c, Arr) else tm.fresh("x", "I") for q in range(dims)]
        for x in idx:
            tm.lower_bound[x] = 0
        x = c.at(*idx)
        if not isinstance(x, Num) or x.nan is not FALSE or x.inf is not FALSE or not any(y.op == "sum" for y in tm.walk(x.r)):
            return c
        from . import driver
        hy = list(self.known()) + [a.has(y) for a, y in zip(axes, idx)]
        for f, use, unfold in self.cuts(dims, x.r):
            t = f(*idx)
            if t.op == "app" and t.args[0] in let_defs:
                t = unlet(t.args[0], t.args[1])
            if any(driver.equal(hy, expand_lets(x.r, u), expand_lets(t, u), expanded=True) for u in [()] + unfold):
                use()
                g = lambda *ix: Num(f(*ix))
                return Arr(c.shape, g, c.kind) if isinstance(c, Arr) else Frame(c.rows, c.cols, g) if isinstance(c, Frame) else Series(c.axis, g)
        if pv.hunting:
            h = let_term(idx, x.r)
            g = lambda *ix: Num(h(ix))
            return Arr(c.shape, g, c.kind) if isinstance(c, Arr) else Frame(c.rows, c.cols, g) if isinstance(c, Frame) else Series(c.axis, g)
        return c

    def concrete_items(self, it):
        self.no_one(self.D(it))
        c = self.D(it)
        if isinstance(c, tuple):
            return list(c)
        if isinstance(c, ListV):
            return list(c.items)
        if isinstance(c, DictV):
            return [k for k, _ in c.items]
        if isinstance(c, NT):
            return list(c.vals)
        if isinstance(c, Range) and tm.is_const(c.lo) and tm.is_const(c.hi):
            a, b = int(tm.cval(c.lo)), int(tm.cval(c.hi))
            if b - a <= 64:
                return [num(i) for i in range(a, b)]
        if isinstance(c, Seq) and tm.is_const(c.n) and c.cond is None and tm.cval(c.n) <= 16:
            return [c.at(tm.const(i)) for i in range(int(tm.cval(c.n)))]
        if isinstance(c, Arr) and c.ndim >= 1 and tm.is_const(c.shape[0]) and tm.cval(c.shape[0]) <= 16:
            from . import lib_np
            return [lib_np.getitem(self, it, num(i)) for i in range(int(tm.cval(c.shape[0])))]
        return None

    def as_seq(self, it):
        self.no_one(self.D(it))
        c = self.D(it)
        if isinstance(c, Seq):
            return c
        if isinstance(c, (tuple, ListV)):
            items = list(c if isinstance(c, tuple) else c.items)
            fr = [self.freeze(x) for x in items]

            def f(k):
                v = fr[-1]
                for j in range(len(fr) - 2, -1, -1):
                    v = vite(tm.eq(k, tm.const(j)), fr[j], v)
                return v
            s = Seq(tm.const(len(items)), f)
            s.items = items
            return s
        if isinstance(c, Range):
            n = tm.sub(c.hi, c.lo)
            if self.decide(tm.ge(n, ZERO)) is not True:
                n = ZERO if self.decide(tm.le(n, ZERO)) is True else tm.tmax(n, ZERO)
            lo = c.lo
            return Seq(n, lambda k: Num(tm.add(lo, k)))
        if isinstance(c, Arr):
            if c.ndim == 1:
                return Seq(c.shape[0], lambda k: c.at(k))
            sh = c.shape[1:]
            return Seq(c.shape[0], lambda k: Arr(sh, lambda *i: c.at(k, *i), c.kind))
        if isinstance(c, Idx):
            ax = self.affine(c.axis)
            return Seq(ax.n, lambda k: Label(ax.space, tm.add(ax.off, k)))
        if isinstance(c, SymDict):
            ax = self.affine(c.axis)
            return Seq(ax.n, lambda k: Label(ax.space, tm.add(ax.off, k)))
        if isinstance(c, Series):
            ax = self.affine(c.axis)
            return Seq(ax.n, lambda k: c.at(tm.add(ax.off, k)))
        if isinstance(c, Frame):
            ax = self.affine(c.cols)
            return Seq(ax.n, lambda k: Label(ax.space, tm.add(ax.off, k)))
        if isinstance(c, DictV):
            return self.as_seq(ListV([k for k, _ in c.items]))
        unsup(f"iteration over {type(c).__name__}")

    def sym_loop(self, seq, bind, body):
        j = tm.fresh("j", "I", seq.n)
        pres = seq.present(j)
        base_heap = dict(self.heap)
        base_pc = list(self.pc)
        base_raises = len(self.raises)
        base_safety = len(self.safety)
        base_iw = len(self.input_writes)
        base_solves, base_calls = len(self.solves), len(self.calls)
        outer_writes = self.writes
        written, carried, whole = set(), {}, set()
        nid0 = self.nid
        outer_nid = getattr(self, "loop_nid", 0)
        for attempt in range(30):
            self.heap = dict(base_heap)
            self.pc = base_pc + [tm.lt(j, seq.n)] + ([pres] if pres is not TRUE else [])
            del self.raises[base_raises:]
            del self.safety[base_safety:]
            del self.input_writes[base_iw:]
            del self.solves[base_solves:], self.calls[base_calls:]
            self.writes = set()
            self.loop_nid = nid0
            if self.cuts is not None:
                self.cuts.reset()
            for loc in written:
                if loc not in carried:
                    self.poke(loc, Poison(loc))
            for loc, c in carried.items():
                self.heap.update(c["boxes"])
                self.poke(loc, c["cur"])
            for loc in written:
                cc = base_heap.get(loc[0]) if loc[1] is None else None
                if isinstance(cc, Segs):
                    self.heap[loc[0]] = Segs()
            self.loops.append((j, seq.n, pres))
            try:
                bind(seq.at(j))
                outs = body()
            except NeedCarry as e:
                self.writes = outer_writes
                loc = e.loc
                if loc in carried:
                    unsup("loop-carried value of unsupported kind")
                carried[loc] = self.mk_carry(loc, base_heap, j, loc in whole)
                continue
            except Infeasible:
                unsup("loop body always raises")
            finally:
                self.loops.pop()
                w = self.writes
                self.loop_nid = outer_nid
            ok = []
            for o in outs:
                if o.kind in ("next", "continue"):
                    ok.append(Outcome("next", None, o.heap, o.pc))
                else:
                    unsup(f"{o.kind} inside a loop of symbolic length")
            self.merge_into(self._prefix(ok), ok)
            new = {l for l in (w or ()) if l[0] in base_heap}
            wide = self.widen_one(carried)
            if new <= written and not wide:
                boxes = {i for d in carried.values() for i in d["boxes"]}
                if any(l[0] in boxes and l[1] is None for l in (w or ())):
                    unsup("a carried object is changed in place and rebound in a loop")
                # arrays changed in place as a whole rather than row by row
                redo = [loc for loc, d in carried.items() if d["kind"] == "rows" and loc not in whole and
                        self.heap[loc[0]] is not d["cur"] and type(self.heap[loc[0]]) is Arr]
                if not redo:
                    break
                for loc in redo:
                    whole.add(loc)
                    del carried[loc]
                self.writes = outer_writes
                continue
            written |= new
        else:
            unsup("loop analysis did not converge")
        self.writes = outer_writes
        end_heap = self.heap
        # exceptions inside the body: for some iteration
        for i in range(base_raises, len(self.raises)):
            c, exc = self.raises[i]
            self.raises[i] = (tm.Exists(j, seq.n, c) if j in c.fv else c, exc)
        self.heap = dict(base_heap)
        for i, c in end_heap.items():
            if i not in base_heap:
                self.heap[i] = c
        self.pc = base_pc
        if len(self.raises) > base_raises:
            pass
        final = {}
        rectab = {}
        for loc in written:
            if outer_writes is not None:
                outer_writes.add(loc)
            base_val = base_heap[loc[0]] if loc[1] is None else base_heap[loc[0]].get(loc[1], UNDEF)
            if isinstance(base_val, Segs):
                self.heap[loc[0]] = self.loop_yields(base_val, end_heap[loc[0]], seq, j)
                continue
            if loc in carried:
                continue
            end_val = end_heap[loc[0]] if loc[1] is None else end_heap[loc[0]].get(loc[1], UNDEF)
            if isinstance(end_val, (Arr, Frame)) and loc[1] is None and isinstance(end_val, (Store, FStore)):
                unsup("store without carry")
            self.poke(loc, Poison2("value assigned inside a loop used after it", self.last_value(end_val, end_heap, seq, j, nid0) if loc[1] is not None else None))
        if carried:
            self.finish_carry(carried, end_heap, seq, j)

    def last_value(self, v, heap, seq, j, nid0):
        """thunk: the value a variable has after the last iteration (None when the loop may be empty or it is not a function
        of the iteration alone)"""
        def last():
            if seq.present(j) is not TRUE or not self.prove(tm.ge(seq.n, ONE)):
                return None
            if isinstance(v, Ref) and v.id <= nid0:
                return v
            save = self.heap
            self.heap = {**heap, **{k: x for k, x in save.items() if k not in heap}}
            try:
                x = self.freeze(v)
            except (Unsupported, NeedCarry):
                return None
            finally:
                self.heap = save
            if any(y.op == "app" and y.args[0].startswith("ph!") for t in vparts(x) for y in tm.walk(t)):
                return None
            x = vsubst(x, {j: tm.sub(seq.n, ONE)})
            if not isinstance(v, Ref):
                return x
            r = self.new(x)
            self.stored.add(r.id)
            return r
        return last

    def poke(self, loc, v):
        if loc[1] is None:
            self.heap[loc[0]] = v
        else:
            d = dict(self.heap[loc[0]])
            d[loc[1]] = v
            self.heap[loc[0]] = d

    def loop_yields(self, base, segs, seq, j):
        cond0 = seq.present(j)
        parts = []
        if len(segs) == 1 and segs[0][0] is not ONE and cond0 is TRUE and not base:
            inner = Seq(*segs[0])
            if segs[0][2] is None and not is_block(segs[0][1]):
                return Segs([(seq.n, Fn(1, lambda k: Block(vsubst(inner, {j: k})), [seq.n]), None)])
        for n, f, cond in segs:
            if n is not ONE:
                unsup("nested generator loops")
            c = TRUE if cond is None else cond(ZERO).t
            parts.append((c, f(ZERO)))
        if not parts:
            return base
        c, v = parts[-1]
        for c2, v2 in reversed(parts[:-1]):
            if And(c, c2) is not FALSE and not self.prove(Not(And(c, c2)), [tm.lt(j, seq.n)]):
                unsup("more than one yield per iteration")
            v = vite(c2, v2, v)
            c = Or(c, c2)
        c = And(cond0, c)
        c = self.simp(c, [tm.lt(j, seq.n)])
        fn = Fn(1, lambda k: vsubst(v, {j: k}), [seq.n])
        cf = None if c is TRUE else Fn(1, lambda k: BoolV(tm.subst(c, {j: k})), [seq.n])
        return Segs(list(base) + [(seq.n, fn, cf)])

    def widen_one(self, carried):
        """a carried number that becomes a one-element array (or either): carry `number or one-element array`"""
        wide = False
        for loc, d in carried.items():
            if loc[1] is None or d["kind"] not in ("num", "arr") or isinstance(d["base"], OneArr):
                continue
            end = self.heap[loc[0]].get(loc[1], UNDEF)
            end = self.heap.get(end.id) if isinstance(end, Ref) else end
            b = one_cell(d["base"])
            if b is None or not isinstance(end, (Num, Arr)) or one_cell(end) is None:
                continue
            if isinstance(end, OneArr) or isinstance(end, Arr) != isinstance(d["base"], Arr):
                base = OneArr(lambda i, b=b: b)
                nm, srt = d["name"], b.r.sort
                ref = self.new(OneArr(lambda i, nm=nm, srt=srt: Num(tm._app(nm, (ZERO,), "R"))))
                d.update(kind="arr", base=base, cur=ref, boxed=True, boxes={**d["boxes"], ref.id: self.heap[ref.id]})
                wide = True
        return wide

    def tasks(self, f, it):
        """results of f(*args) for every args of a sequence, each computed on copies of the objects it uses (worker
        processes): a task must not read what an earlier task may have written, and nothing outside changes"""
        seq = self.as_seq(it)
        if not seq.full():
            unsup("tasks over a filtered sequence")
        j = tm.fresh("j", "I", seq.n)
        base_heap, base_pc, w0 = dict(self.heap), list(self.pc), self.writes
        marks = [len(x) for x in (self.raises, self.safety, self.input_writes, self.solves, self.calls)]
        written = set()
        for attempt in range(8):
            self.heap = dict(base_heap)
            self.pc = base_pc + [tm.lt(j, seq.n)]
            for x, m in zip((self.raises, self.safety, self.input_writes, self.solves, self.calls), marks):
                del x[m:]
            for loc in written:
                self.poke(loc, Poison(loc))
            self.writes = set()
            self.loops.append((j, seq.n, TRUE))
            try:
                a = self.D(seq.at(j))
                v = self.freeze(self.call(f, list(a.vals if isinstance(a, NT) else a) if isinstance(a, (tuple, NT)) else unsup("arguments of a task"), {}))
            except NeedCarry:
                unsup("a task depends on another task")
            except Infeasible:
                unsup("task always raises")
            finally:
                self.loops.pop()
                w, self.writes = self.writes, w0
            new = {l for l in w if l[0] in base_heap}
            if new <= written:
                break
            written |= new
        else:
            unsup("task analysis did not converge")
        for i in range(marks[0], len(self.raises)):
            c, exc = self.raises[i]
            self.raises[i] = (tm.Exists(j, seq.n, c) if j in c.fv else c, exc)
        del self.input_writes[marks[2]:]
        end = self.heap
        self.heap = dict(base_heap)
        self.heap.update({i: c for i, c in end.items() if i not in base_heap})
        self.pc = base_pc
        return Seq(seq.n, lambda k: vsubst(v, {j: k}))

    # -------- loop-carried values
    def mk_carry(self, loc, base_heap, j, whole=False):
        n0 = self.nid
        d = self.mk_carry0(loc, base_heap, j, whole)
        d["boxes"] = {i: self.heap[i] for i in range(n0 + 1, self.nid + 1) if i in self.heap}
        return d

    def mk_carry0(self, loc, base_heap, j, whole=False):
        v = base_heap[loc[0]] if loc[1] is None else base_heap[loc[0]].get(loc[1], UNDEF)
        if isinstance(v, Undef):
            unsup(f"{loc[1]} may be used before assignment in a loop")
        c = base_heap.get(v.id) if isinstance(v, Ref) else v
        if isinstance(c, Poison):       # also changed by an enclosing loop
            raise NeedCarry(c.loc)
        name = f"ph!{next(tm._fresh)}"
        d = dict(loc=loc, name=name, boxed=isinstance(v, Ref), base=c)
        if isinstance(c, Num):
            d["kind"] = "num"
            d["cur"] = Num(tm._app(name, (), c.r.sort))
        elif isinstance(c, BoolV):
            d["kind"] = "bool"
            d["cur"] = BoolV(tm._app(name, (), "B"))
        elif isinstance(c, Label):
            d["kind"] = "label"
            d["cur"] = Label(c.space, tm._app(name, (), "I"))
        elif isinstance(c, Arr) and (whole or loc[1] is not None):
            d["kind"] = "arr"
            cur = Arr(c.shape, lambda *i: Num(tm._app(name, i, "R")), c.kind)
            d["cur"] = self.new(cur) if d["boxed"] else cur
        elif isinstance(c, Arr):
            d["kind"] = "rows"
            cur = Arr(c.shape, lambda *i: Num(tm._app(name + "@", i, "R")), c.kind)
            d["cur"] = cur
            d["ph_arr"] = cur
        elif isinstance(c, NT) and loc[1] is not None:
            d["kind"] = "nt"
            subs = []
            for q, x in enumerate(c.vals):
                cx = base_heap.get(x.id) if isinstance(x, Ref) else x
                nm = f"{name}.{q}"
                if isinstance(cx, Arr):
                    subs.append(self.new(Arr(cx.shape, (lambda nm: lambda *i: Num(tm._app(nm, i, "R")))(nm), cx.kind)))
                elif isinstance(cx, Num):
                    subs.append(Num(tm._app(nm, (), cx.r.sort)))
                elif isinstance(cx, Frame):
                    subs.append(self.new(Frame(cx.rows, cx.cols, (lambda nm: lambda r, k: Num(tm._app(nm, (r, k), "R")))(nm))))
                elif isinstance(cx, Series):
                    subs.append(self.new(Series(cx.axis, (lambda nm: lambda r: Num(tm._app(nm, (r,), "R")))(nm))))
                else:
                    unsup("carried tuple")
            d["cur"] = NT(c.cls, subs)
        elif isinstance(c, Frame) and loc[1] is not None:
            d["kind"] = "frame"
            cur = Frame(c.rows, c.cols, lambda r, k: Num(tm._app(name, (r, k), "R")))
            d["cur"] = self.new(cur)
        elif isinstance(c, Series) and loc[1] is not None:
            d["kind"] = "series"
            d["cur"] = self.new(Series(c.axis, lambda r: Num(tm._app(name, (r,), "R"))))
        elif isinstance(c, Frame):
            d["kind"] = "frows"
            cur = Frame(c.rows, c.cols, lambda r, k: Num(tm._app(name + "@", (r, k), "R")))
            d["cur"] = cur
        elif isinstance(c, (ListV, DictV)) and loc[1] is None:
            d["kind"] = "acc"
            acc = Acc(c, "list" if isinstance(c, ListV) else "dict")
            acc.ph = name
            acc.j = j
            d["cur"] = acc
        elif isinstance(c, Seq) and loc[1] is None and getattr(c, "fresh", False):
            d["kind"] = "cells"

            def table(e):
                o = c.at(e)
                return Frame(o.rows, o.cols, lambda r, k: Num(tm._app(name + "@", (e, r, k), "R")))
            d["cur"] = Seq(c.n, table)
            d["cur"].fresh = True
        elif isinstance(c, SymDict) and loc[1] is None:
            # each iteration may read and replace the value of one key of its own
            d["kind"] = "acc"
            acc = Acc(c, "dict")
            acc.ph = name
            acc.j = j
            acc.reads = []
            d["cur"] = acc
        elif isinstance(c, Inst):
            raise NeedPeel("object attributes change in a loop")
        else:
            unsup(f"loop-carried {type(c).__name__} {loc[1] or ''}")
        return d

    def finish_carry(self, carried, end_heap, seq, j):
        self.finish_carried(carried, end_heap, seq, j)
        for loc, d in carried.items():
            c = self.heap.get(loc[0])
            if loc[1] is None and loc[0] in self.elem and isinstance(c, (SymDict, DictV, Seq, ListV)):
                self.write_elem(Ref(loc[0]), c)

    def finish_carried(self, carried, end_heap, seq, j):
        k = tm.fresh("k")
        if not seq.full():
            unsup("loop-carried value over a filtered sequence")
        rows = []
        for loc, d in carried.items():
            end = end_heap[loc[0]] if loc[1] is None else end_heap[loc[0]].get(loc[1], UNDEF)
            endc = end_heap.get(end.id) if isinstance(end, Ref) else end
            if isinstance(endc, (Poison, MergeFail)):
                unsup("loop-carried value lost")
            if d["kind"] in ("num", "arr", "nt", "bool", "label", "frame", "series"):
                d["end"] = endc
                if end is d["cur"] or endc is (end_heap.get(d["cur"].id) if isinstance(d["cur"], Ref) else d["cur"]):
                    d["unchanged"] = True
            else:
                d["end"] = endc
        single = {}
        for loc, d in carried.items():
            if d.get("unchanged"):
                self.poke(loc, self._restore(d))
                continue
            kd = d["kind"]
            if kd in ("num", "bool", "label"):
                parts = [(None, (), d["base"], d["end"], d["name"])]
            elif kd == "arr":
                self.same_shape(d["base"], d["end"])
                idx = [tm.fresh("x", "I", s) for s in d["base"].shape]
                parts = [(None, tuple(idx), d["base"].at(*idx), d["end"].at(*idx), d["name"])]
            elif kd in ("frame", "series"):
                dims = 2 if kd == "frame" else 1
                idx = [tm.fresh("x") for _ in range(dims)]
                if type(d["end"]) is not type(d["base"]):
                    unsup("loop-carried value changes type")
                self.same_axes(d["base"], d["end"])
                parts = [(None, tuple(idx), d["base"].at(*idx), d["end"].at(*idx), d["name"])]
            elif kd == "nt":
                if not isinstance(d["end"], NT):
                    unsup("loop-carried tuple changes type")
                parts = []
                for q, (b, e) in enumerate(zip(d["base"].vals, d["end"].vals)):
                    b = self.heap.get(b.id) if isinstance(b, Ref) else b
                    e = end_heap.get(e.id) if isinstance(e, Ref) else e
                    if isinstance(b, Arr):
                        if not isinstance(e, Arr):
                            unsup("loop-carried tuple changes type")
                        self.same_shape(b, e)
                        idx = [tm.fresh("x", "I", s) for s in b.shape]
                        parts.append((q, tuple(idx), b.at(*idx), e.at(*idx), f"{d['name']}.{q}"))
                    elif isinstance(b, (Frame, Series)):
                        if type(e) is not type(b):
                            unsup("loop-carried tuple changes type")
                        self.same_axes(b, e)
                        idx = [tm.fresh("x") for _ in range(2 if isinstance(b, Frame) else 1)]
                        parts.append((q, tuple(idx), b.at(*idx), e.at(*idx), f"{d['name']}.{q}"))
                    else:
                        parts.append((q, (), b, e, f"{d['name']}.{q}"))
            elif kd == "rows":
                d["loc"] = d.get("loc", loc)
                rows.append(d)
                continue
            elif kd == "acc":
                self.finish_acc(d, seq, j)
                continue
            elif kd in ("frows", "cells"):
                self.heap[loc[0]] = self.fill(d, seq, j, {x["name"] for x in carried.values()})
                continue
            else:
                unsup(f"loop-carried {kd}")
            d["parts"] = parts
            single[loc] = d
        names_done = {}
        inner = {p[4] for d in single.values() for p in d["parts"]}
        later = [d for d in rows if isinstance(d["end"], Store) and inner and
                 any(x.op == "app" and x.args[0] in inner for t in vparts(d["end"].val) for x in tm.walk(t))]
        for d in rows:
            if d not in later:
                self.finish_rows(d, seq, j, names_done)
        if not single:
            return
        allph = {p[4] for d in single.values() for p in d["parts"]}
        # dependencies between carried values: only self-recursion and acyclic references are supported
        pend = [(loc, p) for loc, d in single.items() for p in d["parts"]]
        group = []
        for loc, (q, idx, b, e, nm) in pend:
            et = e.r if isinstance(e, Num) else e.t
            deps = {x.args[0] for t in ([et] + ([e.nan, e.inf] if isinstance(e, Num) else [])) for x in tm.walk(t) if x.op == "app" and x.args[0] in allph}
            group.append((loc, q, idx, b, e, nm, deps))
        remaining = list(group)
        while remaining:
            progress = False
            for g in list(remaining):
                loc, q, idx, b, e, nm, deps = g
                if all(x == nm or x in names_done for x in deps):
                    names_done[nm] = self.def_rec(loc, idx, b, e, nm, j, names_done)
                    remaining.remove(g)
                    progress = True
            if not progress:
                # mutual recursion: joint definition
                self.def_mutual(remaining, j, names_done)
                remaining = []
        for loc, d in single.items():
            N = seq.n
            if d["kind"] in ("num", "bool", "label"):
                v = names_done[d["name"]](N, ())
            elif d["kind"] == "arr" and loc[1] is None:
                f = names_done[d["name"]]
                v = Arr(d["base"].shape, lambda *i, f=f: f(N, i), d["base"].kind)
            elif d["kind"] == "arr":
                f = names_done[d["name"]]
                v = self.new(OneArr(lambda i, f=f: f(N, (ZERO,))) if isinstance(d["base"], OneArr) else Arr(d["base"].shape, lambda *i, f=f: f(N, i), d["base"].kind))
            elif d["kind"] == "frame":
                f = names_done[d["name"]]
                v = self.new(Frame(d["base"].rows, d["base"].cols, lambda r, c, f=f: f(N, (r, c))))
            elif d["kind"] == "series":
                f = names_done[d["name"]]
                v = self.new(Series(d["base"].axis, lambda r, f=f: f(N, (r,))))
            else:
                vals = []
                for q, b in enumerate(d["base"].vals):
                    f = names_done[f"{d['name']}.{q}"]
                    bc = self.heap.get(b.id) if isinstance(b, Ref) else b
                    if isinstance(bc, Arr):
                        vals.append(self.new(Arr(bc.shape, lambda *i, f=f: f(N, i), bc.kind)))
                    elif isinstance(bc, Frame):
                        vals.append(self.new(Frame(bc.rows, bc.cols, lambda r, c, f=f: f(N, (r, c)))))
                    elif isinstance(bc, Series):
                        vals.append(self.new(Series(bc.axis, lambda r, f=f: f(N, (r,)))))
                    else:
                        vals.append(f(N, ()))
                v = NT(d["base"].cls, vals)
            self.poke(loc, v)
        for d in later:
            self.finish_rows(d, seq, j, names_done, True)
        # values yielded / stored in this iteration mention the placeholders: rewrite them
        self.resolve_ph(names_done, j)

    def fill(self, d, seq, j, names):
        """table (or list of tables) filled row by row"""
        end, cur, base = d["end"], d["cur"], d["base"]
        if end is cur:
            return base
        if not isinstance(end, (FStore, SeqStore, Filled, SeqFilled)) or end.old is not cur:
            unsup("table updated in a loop other than by one row per iteration")
        own = {x + y for x in names for y in ("", "@")}
        for t in vparts(end.val) + [end.t]:
            if any(x.op == "app" and (x.args[0] in own or x.args[0].split(".")[0] in own) for x in tm.walk(t)):
                unsup("rows of a table and carried values defined together")
        b = tuple(getattr(end, "binders", ())) + ((j, seq.n),)
        if isinstance(end, (SeqStore, SeqFilled)):
            return SeqFilled(self, base, b, end.k, end.t, end.val)
        return Filled(self, base, b, end.t, end.val)

    def _restore(self, d):
        return self.new(d["base"]) if d["boxed"] else d["base"]

    def resolve_ph(self, names, j):
        """rewrite placeholders (value before iteration j) in generator segments and containers"""
        def f(name, args, sort):
            g = names.get(name)
            if g is None:
                return None
            v = g(j, tuple(args))
            return v.r if isinstance(v, Num) else v.t

        def rw(t):
            return tm.rewrite_apps(t, f)
        for i, c in list(self.heap.items()):
            if isinstance(c, Segs) and c and i not in ():
                out = []
                for n, fn, cond in c:
                    out.append((n, map_fn(fn, rw, names, j), None if cond is None else map_fn(cond, rw, names, j)))
                self.heap[i] = Segs(out)
        for rec in self.calls:
            if j in rec["ctx"]:
                rec["vals"] = [map_fn(Fn(1, lambda q, v=v: vsubst(v, {j: q})), rw, names, j)(j) for v in rec["vals"]]

    def same_shape(self, a, b):
        if not isinstance(b, Arr) or a.ndim != b.ndim:
            unsup("loop-carried array changes shape")
        for x, y in zip(a.shape, b.shape):
            if x is not y and self.decide(tm.eq(x, y)) is not True:
                unsup("loop-carried array changes shape")

    def same_axes(self, a, b):
        for x, y in (((a.rows, b.rows), (a.cols, b.cols)) if isinstance(a, Frame) else ((a.axis, b.axis),)):
            if not x.same(y):
                unsup("loop-carried table changes its axes")

    def def_rec(self, loc, idx, b, e, nm, j, done):
        k = tm.fresh("k", "I")

        def inline(t):
            def f(name, args, sort):
                if name in done and name != nm:
                    v = done[name](j, tuple(args))
                    return v.r if isinstance(v, Num) else v.t
                return None
            return tm.rewrite_apps(t, f)
        m = {j: tm.sub(k, ONE)}
        if isinstance(e, (BoolV, Label)):
            f = make_rec(k, list(idx), b.t, tm.subst(inline(e.t), m), nm)
            if isinstance(e, BoolV):
                return lambda kt, it: BoolV(f(kt, it))
            return lambda kt, it: Label(e.space, f(kt, it))
        if not isinstance(e, Num) or not isinstance(b, Num):
            unsup("loop-carried value changes type")
        er, en, ei = inline(e.r), inline(e.nan), inline(e.inf)
        rng = [tm.lt(x, tm.var_range[x]) for x in idx if x in tm.var_range]
        if b.inf is not FALSE or self.simp(ei, rng) is not FALSE:
            unsup("infinite loop-carried value")
        en = self.simp(en, rng)
        bn = b.nan
        if b.r.sort == "I" and er.sort != "I":
            b = Num(tm._mk("app", ("toreal", (b.r,)), "R", b.r.fv, b.r.maxb) if False else b.r, b.nan)
        fr = make_rec(k, list(idx), b.r, tm.subst(er, m), nm)
        if any(x.op == "app" and x.args[0] == nm for x in tm.walk(er)):
            done.setdefault("$post", []).append((list(idx), e.r, lambda kt, it: Num(fr(kt, it))))
        if bn is FALSE and en is FALSE:
            return lambda kt, it: Num(fr(kt, it))
        # the value is NaN from the first NaN contribution on
        i2 = list(idx)

        def nanf(kt, it):
            mm = dict(zip(i2, it))
            s = tm.fresh("s", "I", kt)
            return Or(tm.subst(bn, mm), tm.Exists(s, kt, tm.subst(en, {**mm, j: s})))
        return lambda kt, it: Num(fr(kt, it), nanf(kt, it))

    def def_mutual(self, group, j, done):
        unsup("mutually recursive loop variables")

    def finish_rows(self, d, seq, j, done=None, later=False):
        """array filled row by row: content(r) by recursion on the row"""
        base, end, nm = d["base"], d["end"], d["name"]
        if not isinstance(end, Store) or end.old is not d["cur"]:
            unsup("array updated in a loop other than by one row per iteration")
        t = end.t
        lin = tm._lin_in(t, j)
        if lin is None or lin[0] != 1:
            unsup("row index of an array filled in a loop")
        off = lin[1]
        r = tm.fresh("r", "I", base.shape[0])
        nd = base.ndim
        idx = [tm.fresh("x", "I", s) for s in base.shape[1:]]
        v = end.val
        if later:      # the row holds loop-carried values, which are defined by now
            v = map_fn(Fn(1, lambda q: vsubst(end.val, {j: q})), lambda t: tm.rewrite_apps(t, lambda name, args, sort: None), done, j)(j)
        val = v.at(*idx) if nd > 1 else v
        if later and any(x.op == "app" and x.args[0] == nm + "@" for t2 in vparts(val) for x in tm.walk(t2)):
            unsup("rows and carried values defined together")
        back = {j: tm.sub(r, off)}
        cov = [tm.ge(r, off), tm.lt(r, tm.add(off, seq.n))]
        fr = row_rec(self, r, idx, base, val, back, nm, off, seq.n, cov)
        loc = d["loc"]
        shape = base.shape
        self.heap[loc[0]] = Arr(shape, lambda *i: fr(i[0], i[1:]), base.kind)
        self.pending_rows = getattr(self, "pending_rows", []) + [(nm + "@", fr)]
        names = {nm + "@": lambda jt, args: fr(args[0], args[1:])}
        if done is not None:
            done.update(names)
        self.resolve_ph(names, j)

    def finish_acc(self, d, seq, j):
        base, end, nm = d["base"], d["end"], d["name"]
        loc = d["loc"]
        if not isinstance(end, Acc):
            unsup("container replaced in a loop")
        if not end.adds:
            self.heap[loc[0]] = base
            return
        if end.kind == "dict" and isinstance(base, SymDict):
            (c, key, v), = end.adds if len(end.adds) == 1 else unsup("more than one key per iteration")
            if not isinstance(key, Label) or any(not isinstance(x, Label) or x.space != key.space or x.t is not key.t for x in d["cur"].reads):
                unsup("keys of a dictionary updated in a loop")
            new = self.symdict_from(seq, j, key, v, c)
            from . import lib_pd
            if not lib_pd.subset(self, new.axis, base.axis):
                unsup("dictionary extended in a loop")
            self.heap[loc[0]] = SymDict(base.axis, lambda l: vite(new.axis.has(l), self.D(new.at(l)), self.D(base.at(l))))
            return
        if end.kind == "dict":
            if base.items:
                unsup("dictionary extended in a loop")
            (c, key, v), = end.adds if len(end.adds) == 1 else unsup("more than one key per iteration")
            self.heap[loc[0]] = self.symdict_from(seq, j, key, v, c)
            return
        adds = end.adds
        c, v = adds[-1]
        for c2, v2 in reversed(adds[:-1]):
            if not self.prove(Not(And(c, c2)), [tm.lt(j, seq.n)]):
                unsup("more than one append per iteration")
            v = vite(c2, v2, v)
            c = Or(c, c2)
        c = And(c, seq.present(j))
        n0 = tm.const(len(base.items))
        self_ref = any(x.op == "app" and x.args[0] == nm + "@" for t in vparts(v) for x in tm.walk(t))
        if self_ref:
            if c is not TRUE or not base.items:
                unsup("conditional append with recursion")
            b0 = self.freeze(base.items[-1])
            if len(base.items) != 1:
                unsup("recursive list with several initial items")
            shape = b0.shape if isinstance(b0, Arr) else ()
            idx = [tm.fresh("x", "I", s) for s in shape]
            r = tm.fresh("r", "I")
            vv = self.D(v)
            val = vv.at(*idx) if isinstance(vv, Arr) else vv
            bb = Arr((tm.add(ONE, seq.n),) + tuple(shape), lambda *i: b0.at(*i[1:]) if shape else b0)
            fr = row_rec(self, r, idx, bb, val, {j: tm.sub(r, ONE)}, nm, ONE, seq.n, [tm.ge(r, ONE), tm.lt(r, tm.add(ONE, seq.n))])
            if shape:
                s = Seq(tm.add(seq.n, ONE), lambda k: Arr(shape, lambda *i: fr(k, i)))
            else:
                s = Seq(tm.add(seq.n, ONE), lambda k: fr(k, ()))
            self.heap[loc[0]] = s
            self.resolve_ph({nm + "@": lambda jt, args: fr(args[0], args[1:])}, j)
            return
        tail = Seq(seq.n, lambda k: vsubst(v, {j: k}), None if c is TRUE else (lambda k: BoolV(tm.subst(c, {j: k}))))
        if not base.items:
            tail.fresh = c is TRUE and getattr(end, "own", False) and isinstance(v, Frame)
            self.heap[loc[0]] = tail
        else:
            if c is not TRUE:
                unsup("conditional append after initial items")
            items = [self.freeze(x) for x in base.items]

            def at(k):
                v = tail.at(tm.sub(k, n0))
                for q in range(len(items) - 1, -1, -1):
                    v = vite(tm.eq(k, tm.const(q)), items[q], v)
                return v
            self.heap[loc[0]] = Seq(tm.add(n0, seq.n), at)

    def text_space(self, key, j):
        """label space of dictionary keys that are texts with the parameter j: one space per template"""
        parts = [x if isinstance(x, str) else x.r if isinstance(x, Num) else unsup("text built from objects") for x in key.parts]
        b = tm.Var("$j", "I")
        parts = tuple(x if isinstance(x, str) else tm.subst(x, {j: b}) for x in parts)
        for n, (p, _) in self.texts.items():
            if len(p) == len(parts) and all(x is y or isinstance(x, str) and x == y for x, y in zip(p, parts)):
                return n
        n = "expert" + (str(len(self.texts)) if self.texts else "")
        self.texts[n] = (parts, b)
        return n

    def text_label(self, x):
        """a text that is an instance of the template of one label space: its label"""
        if isinstance(x, str):
            for space, names in getattr(self, "named", {}).items():
                if names.get(x) is not None:
                    return Label(space, names[x])
        x = self.D(x) if isinstance(x, Ref) else x
        if not isinstance(x, StrV):
            return x
        for n, (parts, b) in self.texts.items():
            if len(parts) != len(x.parts):
                continue
            k = None
            for p, y in zip(parts, x.parts):
                if isinstance(p, str) or isinstance(y, str):
                    if p != y:
                        break
                    continue
                if not isinstance(y, Num) or y.nan is not FALSE or y.inf is not FALSE:
                    break
                if b not in p.fv:
                    if p is not y.r:
                        break
                    continue
                # p = name(.., j, ..): the argument of the same application in y
                if p.op != "app" or y.r.op != "app" or p.args[0] != y.r.args[0] or len(p.args[1]) != len(y.r.args[1]):
                    break
                if k is None:
                    ks = [v for u, v in zip(p.args[1], y.r.args[1]) if u is b]
                    if not ks:
                        break
                    k = ks[0]
                if tm.subst(p, {b: k}) is not y.r:
                    break
            else:
                if k is not None:
                    return Label(n, k)
        return x

    def symdict_from(self, seq, j, key, v, c=TRUE):
        """{key(j): v(j)} for j in seq, keys labels with unit slope"""
        c = And(c, seq.present(j))
        if isinstance(key, StrV):
            # one string per element: distinct keys assumed (recorded as an assumption)
            self.obs.append(("assume", "dictionary keys built from distinct parameters are distinct"))
            key = Label(self.text_space(key, j), j)
        if isinstance(key, Num) and key.r.sort == "I":
            key = Label("int", key.r)
        if not isinstance(key, Label):
            unsup("dictionary with non-label keys")
        lin = tm._lin_in(key.t, j)
        if lin is None or lin[0] != 1:
            unsup("dictionary keys are not an interval of labels")
        off = lin[1]
        val = lambda l: vsubst(v, {j: tm.sub(l, off)})
        if c is TRUE:
            ax = Axis(key.space, off, seq.n)
        else:
            ax = self.filter_axis(Axis(key.space, off, seq.n), lambda l: tm.subst(c, {j: tm.sub(l, off)}))
        return SymDict(ax, val)

    # ------------------------------------------------------------ axes
    def filter_axis(self, ax, cond):
        """labels of ax with cond(l)"""
        l = tm.fresh("l")
        c = cond(l)
        inr = ax.has(l)
        c = self.simp(c, [inr])
        if c is TRUE:
            return ax
        full = And(inr, c)
        a2 = self.as_interval(ax, l, c)
        if a2 is not None:
            return a2
        return Axis(ax.space, None, None, _hasfn(lambda x: tm.subst(full, {l: x})))

    def as_interval(self, ax, l, c):
        """c a conjunction of linear bounds on l"""
        if ax.off is None:
            return None
        lo, hi = ax.off, tm.add(ax.off, ax.n)
        lits = c.args if c.op == "and" else (c,)
        for t in lits:
            if t.op not in ("le0", "lt0"):
                return None
            lin = tm._lin_in(t.args[0], l)
            if lin is None or abs(lin[0]) != 1 or lin[1].sort != "I":
                return None
            kk, e = lin
            if t.op == "lt0":
                e = tm.add(e, ONE)
            if kk == 1:      # l + e <= 0 : l <= -e
                b = tm.sub(ONE, e)
                hi = b if self.decide(tm.le(b, hi)) is True else (hi if self.decide(tm.le(hi, b)) is True else tm.tmin(hi, b))
            else:            # -l + e <= 0 : l >= e
                lo = e if self.decide(tm.ge(e, lo)) is True else (lo if self.decide(tm.ge(lo, e)) is True else tm.tmax(lo, e))
        n = tm.sub(hi, lo)
        if self.decide(tm.ge(n, ZERO)) is not True:
            n = tm.tmax(n, ZERO)
        return Axis(ax.space, lo, n)

    def affine(self, ax):
        """axis with known offset/length; a filter that is upward closed starts at an unknown first label"""
        if ax.off is not None:
            return ax
        l, full = ax._has.body()
        key = (ax.space, tm.subst(full, {l: tm.Var("$l", "I")}))
        if key in self.sk:
            return self.sk[key]
        lits = list(full.args) if full.op == "and" else [full]
        rest, lo, hi = [], None, None
        for t in lits:
            lin = tm._lin_in(t.args[0], l) if t.op == "le0" else None
            if lin is not None and abs(lin[0]) == 1 and lin[1].sort == "I":
                if lin[0] == 1:
                    b = tm.sub(ONE, lin[1])
                    hi = b if hi is None else tm.tmin(hi, b)
                else:
                    lo = lin[1] if lo is None else (lin[1] if self.decide(tm.ge(lin[1], lo)) is True else (lo if self.decide(tm.ge(lo, lin[1])) is True else tm.tmax(lo, lin[1])))
            else:
                rest.append(t)
        if full is FALSE or ((lo is None or hi is None) and self.prove(Not(full))):
            return Axis(ax.space, ZERO, ZERO)
        if lo is None and tm.lower_bound.get(l) is not None:
            lo = tm.const(tm.lower_bound[l])
        if lo is None or hi is None:
            unsup("unbounded filter")
        cond = And(*rest)
        nxt = tm.subst(cond, {l: tm.add(l, ONE)})
        ok = self.prove(nxt, [tm.ge(l, lo), tm.lt(tm.add(l, ONE), hi), cond], timeout=3000, unfold=2)
        if not ok:
            if os.environ.get("PYVC_DEBUG"):
                print("FILTER", lo, hi, cond)
            unsup("row filter that is not a final segment")
        for h in getattr(self, "first_hints", ()):
            # a first label named by the specification
            if self.decide(And(tm.ge(h, lo), tm.le(h, hi))) is True and \
                    self.prove(tm.subst(cond, {l: h}), [tm.lt(h, hi)], timeout=3000, unfold=2) and \
                    self.prove(Or(tm.le(h, lo), Not(tm.subst(cond, {l: tm.sub(h, ONE)}))), timeout=3000, unfold=2):
                r = Axis(ax.space, h, tm.sub(hi, h))
                self.sk[key] = r
                return r
        t0 = tm.fresh("first")
        tm.lower_bound[t0] = 0
        n = tm.sub(hi, t0)
        self.hyps.append(tm.ge(t0, lo))
        self.hyps.append(tm.le(t0, tm.tmax(hi, lo)))
        # l in [lo, hi): cond(l) <=> l >= t0
        v = tm.fresh("v", "I")
        self.firsts = getattr(self, "firsts", {})
        self.firsts[t0] = dict(l=l, cond=cond, lo=lo, hi=hi)
        from . import logic
        logic.first_defs[t0] = dict(l=l, cond=cond, lo=lo, hi=hi)
        if self.decide(tm.ge(n, ZERO)) is not True:
            n = tm.tmax(n, ZERO)
        r = Axis(ax.space, t0, n)
        self.sk[key] = r
        return r

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        self.fuel -= 1
        if self.fuel < 0:
            unsup("execution budget")
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            unsup(f"expression {type(e).__name__}")
        return m(e, env)

    def ev_Constant(self, e, env):
        v = e.value
        if isinstance(v, bool):
            return BoolV(TRUE if v else FALSE)
        if isinstance(v, (int, float)):
            return num(v)
        if v is None or isinstance(v, str) or v is Ellipsis:
            return v
        unsup("constant")

    def ev_Name(self, e, env):
        return self.lookup(env, e.id)

    def ev_Tuple(self, e, env):
        return tuple(self.ev_list(e.elts, env))

    def ev_List(self, e, env):
        xs = self.ev_list(e.elts, env, allow_seq=True)
        if isinstance(xs, Seq):
            return self.new(xs)
        return self.new(ListV(xs))

    def ev_list(self, elts, env, allow_seq=False):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                c = self.concrete_items(v)
                if c is None:
                    if allow_seq and len(elts) == 1:
                        from . import lib_py
                        return lib_py.unowned(self, v)
                    unsup("starred symbolic sequence")
                out += c
            else:
                out.append(self.ev(x, env))
        return out

    def ev_Dict(self, e, env):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.D(self.ev(v, env))
                if not isinstance(d, DictV):
                    unsup("dict unpacking")
                items += list(d.items)
            else:
                items.append((self.ev(k, env), self.ev(v, env)))
        return self.new(DictV(items))

    def ev_Set(self, e, env):
        return self.new(ListV(self.ev_list(e.elts, env)))

    def ev_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                x = self.D(x) if isinstance(x, Ref) else x
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, env)
                    if not isinstance(spec, str) or v.conversion not in (-1, None):
                        unsup("format specification of unknown text")
                    x = StrV(("\0fmt:" + spec, x)) if spec else x
                parts.append(x)
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return StrV(parts)

    def ev_Lambda(self, e, env):
        d = self.heap[env.id]
        f = self.find_fn(env)
        q = (f.qual if f else "?") + ".<lambda>"
        return FuncV(e, env, f.mod if f else "?", q, [self.ev(x, env) for x in e.args.defaults], [], False)

    def find_fn(self, env):
        e = env
        while e is not None:
            d = self.heap[e.id]
            if "$fn" in d:
                return d["$fn"]
            e = d.get("$parent")
        return None

    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return BoolV(Not(self.truth(v)))
        if isinstance(e.op, ast.USub):
            return self.binop("Mult", num(-1), v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.elementwise(lambda x: BoolV(Not(x.t)), [v])
        unsup("unary operator")

    def ev_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        from . import lib_np
        ca, cb = self.D(a), self.D(b)
        for h in BINOPS:
            r = h(self, op, a, b, ca, cb)
            if r is not None:
                return r
        unsup(f"{op} on {type(ca).__name__} and {type(cb).__name__}")

    def elementwise(self, f, vals):
        from . import lib_np
        return lib_np.elementwise(self, f, vals)

    def ev_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        return self.boolop(e.values, isand, env)

    def boolop(self, vals, isand, env):
        v = self.ev(vals[0], env)
        if len(vals) == 1:
            return v
        c = self.truth(v)
        d = self.decide(c)
        if d is not None:
            if d == isand:
                return self.boolop(vals[1:], isand, env)
            return v
        # undetermined: evaluate the rest under the condition, merge
        return self.cond_value(c if isand else Not(c), lambda: self.boolop(vals[1:], isand, env), lambda: v)

    def cond_value(self, c, fa, fb):
        h0, pc0 = self.heap, list(self.pc)
        outs = []
        for cc, f in ((c, fa), (Not(c), fb)):
            self.heap = dict(h0)
            self.pc = pc0 + [cc]
            try:
                v = f()
            except Infeasible:
                continue
            outs.append(Outcome("return", v, self.heap, list(self.pc)))
        if not outs:
            raise Infeasible()
        return self.merge_into(pc0, outs)

    def ev_IfExp(self, e, env):
        c = self.truth(self.ev(e.test, env))
        d = self.decide(c)
        if d is True:
            return self.ev(e.body, env)
        if d is False:
            return self.ev(e.orelse, env)
        return self.cond_value(c, lambda: self.ev(e.body, env), lambda: self.ev(e.orelse, env))

    def ev_Compare(self, e, env):
        a = self.ev(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r, env)
            c = self.compare(type(op).__name__, a, b)
            if res is None:
                res = c
            else:
                res = BoolV(And(self.truth(res), self.truth(c)))
            a = b
        return res

    def compare(self, op, a, b):
        from . import lib_np
        return lib_np.compare(self, op, a, b)

    def super_of(self, env, args):
        """super() or super(C, self)"""
        f = self.find_fn(env)
        if len(args) == 2:
            c, obj = self.D(self.ev(args[0], env)), self.ev(args[1], env)
        else:
            if f is None or not f.cls or not f.node.args.args:
                unsup("super outside a method")
            c, obj = self.D(self.lookup(f.env, f.cls)), self.lookup(env, f.node.args.args[0].arg)
        if not isinstance(c, ClassV):
            unsup("super of this class")
        return Opaque("super", cls=c, obj=obj)

    def ev_Call(self, e, env):
        f = self.ev(e.func, env)
        if isinstance(f, Builtin) and f.name == "builtins.super":
            return self.super_of(env, e.args)
        if isinstance(f, Builtin) and f.name == "builtins.next" and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], ast.Call) and len(e.args[0].args) == 1:
            g = self.ev(e.args[0].func, env)
            if isinstance(g, Builtin) and g.name == "builtins.iter":
                from . import lib_py
                return lib_py.first_of(self, self.ev(e.args[0].args[0], env))
        args = []
        star = None
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                c = self.concrete_items(v)
                if c is None:
                    fd = self.D(f)
                    if isinstance(fd, Builtin) and fd.name == "builtins.zip":
                        star = v
                        continue
                    unsup("starred call")
                args += c
            else:
                args.append(self.ev(x, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.D(self.ev(k.value, env))
                if isinstance(d, DictV):
                    for kk, vv in d.items:
                        kwargs[kk] = vv
                else:
                    unsup("keyword unpacking")
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        if star is not None:
            from . import lib_py
            return lib_py.unzip(self, star)
        return self.call(f, args, kwargs)

    def call_method(self, obj, name, args, kwargs):
        c = self.D(obj)
        self.no_one(c)
        if isinstance(c, Inst):
            f = self.class_attr(c.cls, name)
            if f is None:
                f = c.attrs.get(name)
                return self.call(f, args, kwargs)
            f = self.D(f)
            if isinstance(f, Opaque) and f.kind == "static":
                return self.call(f.f, args, kwargs)
            return self.call(f, [obj] + list(args), kwargs)
        h = METHODS.get((type(c).__name__, name)) or METHODS.get((kindof(c), name))
        if h is None:
            for k in type(c).__mro__:
                h = METHODS.get((k.__name__, name))
                if h:
                    break
        if h is None:
            unsup(f"method {name} of {kindof(c)}")
        return h(self, obj, args, kwargs)

    def ev_Attribute(self, e, env):
        o = self.ev(e.value, env)
        return self.getattr(o, self.mangle(e.attr, env))

    def getattr(self, o, name):
        c = self.D(o)
        self.no_one(c)
        if isinstance(c, ModuleV):
            env = self.load(c.name) if c.name.split(".")[0] in ("cvx", "experiments") else None
            if env is not None:
                return self.lookup(env, name)
            return self.libname(c.name + "." + name)
        if isinstance(c, Fields) and name in c.names:
            return c[c.names.index(name)]
        if isinstance(c, NT):
            if name in c.cls.fields:
                return c.vals[c.cls.fields.index(name)]
            if name == "_replace":
                def rep(it, args, kw):
                    return NT(c.cls, [kw.get(f, v) for f, v in zip(c.cls.fields, c.vals)])
                return Builtin("_replace", rep)
            unsup(f"field {name}")
        if isinstance(c, Inst):
            if name in c.attrs:
                v = c.attrs[name]
                if isinstance(v, Poison):
                    raise NeedCarry(v.loc)
                if isinstance(v, MergeFail):
                    unsup(v.msg)
                return v
            a = self.class_attr(c.cls, name)
            if a is None:
                unsup(f"attribute {name} of {c.cls.name}")
            a = self.D(a)
            if isinstance(a, Opaque) and a.kind == "property":
                return self.call(a.f, [o], {})
            if isinstance(a, FuncV) or (isinstance(a, Opaque) and a.kind == "static"):
                return BoundM(o, name)
            return a
        if isinstance(c, ClassV):
            a = self.class_attr(c, name)
            if a is None:
                unsup(f"attribute {name}")
            return a
        if isinstance(c, Opaque) and c.kind == "super":
            for b in c.cls.bases:
                b = self.D(b)
                if isinstance(b, ClassV):
                    a = self.class_attr(b, name)
                    if a is not None:
                        return Builtin(name, lambda it, args, kw: it.call(a, [c.obj] + list(args), kw))
            return Builtin(name, lambda it, args, kw: None)
        for k in [type(c).__name__, kindof(c)] + [x.__name__ for x in type(c).__mro__]:
            h = ATTRS.get((k, name))
            if h:
                return h(self, o)
        return BoundM(o, name)

    def ev_Subscript(self, e, env):
        o = self.ev(e.value, env)
        i = self.ev_slice(e.slice, env)
        return self.getitem(o, i)

    def ev_slice(self, s, env):
        if isinstance(s, ast.Slice):
            return SliceV(*[None if x is None else self.ev(x, env) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_slice(x, env) for x in s.elts)
        return self.ev(s, env)

    def no_one(self, c):
        if isinstance(c, OneArr):
            unsup("a value that is a number on one path and a one-element array on another")

    def getitem(self, o, i):
        self.no_one(self.D(o))
        from . import lib_py
        return lib_py.getitem(self, o, i)

    def setitem(self, o, i, v):
        self.no_one(self.D(o))
        from . import lib_py
        return lib_py.setitem(self, o, i, v)

    def ev_Starred(self, e, env):
        unsup("starred")

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    # comprehensions
    def ev_ListComp(self, e, env):
        r = self.comp(e, env, e.elt)
        if isinstance(r, list):
            return self.new(ListV(r))
        return self.new(r)

    def ev_GeneratorExp(self, e, env):
        r = self.comp(e, env, e.elt)
        return tuple(r) if isinstance(r, list) else r

    def ev_SetComp(self, e, env):
        return self.ev_ListComp(e, env)

    def ev_DictComp(self, e, env):
        r = self.comp(e, env, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()))
        if isinstance(r, list):
            return self.new(DictV([(k, v) for k, v in r]))
        return self.new(self.dict_of_seq(r))

    def dict_of_seq(self, s):
        if tm.is_const(s.n) and s.n is ZERO:
            return DictV()
        j = tm.fresh("j", "I", s.n)
        kv = s.at(j)
        key, v = (kv if isinstance(kv, tuple) else kv.vals)
        key = self.D(key) if isinstance(key, Ref) else key
        return self.symdict_from(Seq(s.n, lambda k: None, s.cond), j, key, v)

    def comp(self, e, env, elt):
        if len(e.generators) != 1:
            unsup("nested comprehension")
        g = e.generators[0]
        it = self.ev(g.iter, env)
        env2 = self.new({"$parent": env})
        conc = self.concrete_items(it)
        if conc is not None:
            out = []
            for v in conc:
                self.assign(g.target, v, env2)
                skip = False
                for c in g.ifs:
                    d = self.decide(self.truth(self.ev(c, env2)))
                    if d is None:
                        unsup("comprehension filter")
                    if d is False:
                        skip = True
                if not skip:
                    out.append(self.ev(elt, env2))
            return out
        seq = self.as_seq(it)
        if seq.n is ZERO:
            return seq
        j = tm.fresh("j", "I", seq.n)
        pres = seq.present(j)
        base_pc, base_heap = list(self.pc), dict(self.heap)
        w0 = self.writes
        nr, ns, ni, nv, nc = (len(x) for x in (self.raises, self.safety, self.input_writes, self.solves, self.calls))
        self.writes = set()
        self.pc = base_pc + [tm.lt(j, seq.n)] + ([pres] if pres is not TRUE else [])
        self.loops.append((j, seq.n, pres))
        try:
            self.assign(g.target, seq.at(j), env2)
            cond = pres
            for c in g.ifs:
                cc = self.truth(self.ev(c, env2))
                cond = And(cond, cc)
                self.pc = self.pc + [cc]
            v = self.ev(elt, env2)
            own = isinstance(v, Ref) and v.id not in base_heap and not self.alias.get(v.id)
            v = self.freeze(v)
        finally:
            self.loops.pop()
            w, self.writes = self.writes, w0
        if any(i in base_heap and i != env2.id for i, _ in w):
            # the element expression has side effects: a loop that appends
            self.heap, self.pc = base_heap, base_pc
            del self.raises[nr:], self.safety[ns:], self.input_writes[ni:], self.solves[nv:], self.calls[nc:]
            if g.ifs:
                unsup("side effect in a comprehension with a filter")
            acc = self.new(ListV(()))

            def body():
                self.call_method(acc, "append", [self.ev(elt, env2)], {})
                return [Outcome("next", None, self.heap, list(self.pc))]
            self.sym_loop(seq, lambda x: self.assign(g.target, x, env2), body)
            return self.D(acc)
        for i in range(nr, len(self.raises)):
            c, exc = self.raises[i]
            self.raises[i] = (tm.Exists(j, seq.n, c) if j in c.fv else c, exc)
        self.pc = base_pc
        cond = self.simp(cond, [tm.lt(j, seq.n)])
        s = Seq(seq.n, lambda k: vsubst(v, {j: k}), None if cond is TRUE else (lambda k: BoolV(tm.subst(cond, {j: k}))))
        s.fresh = own and isinstance(v, Frame) and cond is TRUE
        return s

    # generators
    def ev_Yield(self, e, env):
        v = self.freeze(self.ev(e.value, env)) if e.value is not None else None
        g = self.gen_of(env)
        segs = self.heap[g.id]
        if self.writes is not None:
            self.writes.add((g.id, None))
        self.heap[g.id] = Segs(tuple(segs) + ((ONE, Fn(1, lambda k: v, [ONE]), None),))
        return None

    def ev_YieldFrom(self, e, env):
        s = self.as_seq(self.ev(e.value, env))
        g = self.gen_of(env)
        if self.writes is not None:
            self.writes.add((g.id, None))
        self.heap[g.id] = Segs(tuple(self.heap[g.id]) + ((s.n, s.fn, s.cond),))
        return None

    def gen_of(self, env):
        e = env
        while e is not None:
            d = self.heap[e.id]
            if "$gen" in d:
                return d["$gen"]
            if "$fn" in d and not isinstance(d["$fn"].node, ast.Lambda):
                break
            e = d.get("$parent")
        unsup("yield outside a generator")


class Poison2(MergeFail):
    """a variable after a loop that assigned it: the value of the last iteration, computed on demand"""

    def __init__(self, msg, last=None):
        self.msg, self.last = msg, last


def _andc(cond, c):
    if cond is None:
        return Fn(1, lambda k: BoolV(c))
    return Fn(1, lambda k: BoolV(And(cond(k).t, c)), cond.ranges)


def merge_acc(c, a, b):
    def adds(x):
        return x.adds if isinstance(x, Acc) else ()
    if not isinstance(a, Acc) or not isinstance(b, Acc) or a.base is not b.base:
        return MergeFail("container")
    p = 0
    A, B = a.adds, b.adds
    while p < len(A) and p < len(B) and A[p] is B[p]:
        p += 1
    r = Acc(a.base, a.kind)
    r.own = False
    r.ph, r.j = a.ph, a.j
    r.adds = A[:p] + tuple((And(x[0], c),) + x[1:] for x in A[p:]) + tuple((And(x[0], Not(c)),) + x[1:] for x in B[p:])
    return r


def row_rec(it, r, idx, base, val, back, nm, off, n, cov):
    """content of row r: written rows off <= r < off+n hold val(j = r-off), others the base content.
    Returns fn(r, idx) -> Num"""
    if not isinstance(val, Num):
        unsup("row of a non-numeric array")
    b = base.at(r, *idx)
    vr, vn, vi = tm.subst(val.r, back), tm.subst(val.nan, back), tm.subst(val.inf, back)
    rng = [tm.lt(x, tm.var_range[x]) for x in idx if x in tm.var_range] + cov
    vn, vi = it.simp(vn, rng), it.simp(vi, rng)
    if vi is not FALSE:
        unsup("infinite value stored")
    ph = nm + "@"
    refs = [x for x in tm.walk(vr) if x.op == "app" and x.args[0] == ph]
    first = None
    for x in refs:
        before = And(tm.ge(x.args[1][0], ZERO), tm.lt(x.args[1][0], r))
        if not it.prove(before, cov):
            if first is None and off is ZERO:      # the first row is given separately
                first = tm.subst(vr, {r: ZERO})
                if any(y.op == "app" and y.args[0] == ph for y in tm.walk(first)):
                    first = it.simp(first, [])
            if first is None or any(y.op == "app" and y.args[0] == ph for y in tm.walk(first)) or not it.prove(before, cov + [tm.gt(r, ZERO)]):
                unsup("array row computed from a later row")
    if not refs:
        if off is ONE and vn is FALSE and b.nan is FALSE and it.prove(tm.le(base.shape[0], tm.add(off, n))):
            from .driver import equal          # the first row fits the formula of the others
            if equal(list(it.hyps) + list(it.pc), tm.subst(vr, {r: ZERO}), tm.subst(b.r, {r: ZERO})):
                return lambda rt, ix: Num(tm.subst(vr, {r: rt, **dict(zip(idx, ix))}))

        def f0(rt, ix):
            m = {r: rt}
            m.update(zip(idx, ix))
            inside = And(tm.ge(rt, off), tm.lt(rt, tm.add(off, n)))
            inside = it.simp(inside) if not inside in (TRUE, FALSE) else inside
            return vite(inside, Num(tm.subst(vr, m), tm.subst(vn, m)), vsubst(b, m))
        return f0
    if vn is not FALSE or b.nan is not FALSE:
        unsup("NaN in a recursive array")
    # recursion over r; rows before the first written one hold the base content
    kk = tm.fresh("k", "I")
    step = tm.subst(vr, {r: kk})
    if off is ONE:
        init = tm.subst(b.r, {r: ZERO})
        f = make_rec(kk, list(idx), init, step, nm)
        inside_all = it.prove(tm.le(base.shape[0], tm.add(off, n)))

        def f1(rt, ix):
            if inside_all:
                return Num(f(rt, tuple(ix)))
            m = {r: rt}
            m.update(zip(idx, ix))
            return vite(tm.lt(rt, tm.add(off, n)), Num(f(rt, tuple(ix))), vsubst(b, m))
        return f1
    if first is not None:
        n1 = tm.add(off, n)
        g = make_rec(kk, list(idx), first, step, nm)
        every = it.prove(tm.le(base.shape[0], n1))
        return lambda rt, ix: Num(g(rt, tuple(ix))) if every else vite(tm.lt(rt, n1), Num(g(rt, tuple(ix))), vsubst(b, {r: rt, **dict(zip(idx, ix))}))
    st2 = tm.ite(tm.ge(kk, off), step, tm.subst(b.r, {r: kk}))
    init = tm.subst(b.r, {r: ZERO}) if it.decide(tm.gt(off, ZERO)) else tm.ite(tm.le(off, ZERO), tm.subst(vr, {r: ZERO}), tm.subst(b.r, {r: ZERO}))
    f = make_rec(kk, list(idx), init, st2, nm)
    return lambda rt, ix: Num(f(rt, tuple(ix)))


branches: dict = {}


def as_branch(s):
    """an if statement, or a simple statement with a conditional expression written as one"""
    if isinstance(s, ast.If):
        return s
    if not isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.Return)):
        return None
    if id(s) in branches:
        return branches[id(s)][1]

    def find(n):
        if isinstance(n, ast.IfExp):
            return n
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.BoolOp, ast.NamedExpr)):
            return None
        for c in ast.iter_child_nodes(n):
            r = find(c)
            if r is not None:
                return r
        return None
    e = find(s)
    out = None
    if e is not None and not any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) or
                                 isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ("len", "isinstance", "abs", "min", "max", "int", "float", "any", "all"))
                                 for x in ast.walk(e.test)):
        e.split_here = True
        alts = []
        for part in ("body", "orelse"):
            class Pick(ast.NodeTransformer):
                def visit_IfExp(self, n):
                    return getattr(n, part) if getattr(n, "split_here", False) else self.generic_visit(n)
            alts.append(Pick().visit(copy.deepcopy(s)))
        del e.split_here
        out = ast.copy_location(ast.If(e.test, [alts[0]], [alts[1]]), s)
    branches[id(s)] = (s, out)
    return out


def map_fn(fn, rw, names, j):
    """rewrite placeholders in a sequence element function: the value before iteration j becomes
    rec(j), the value after the update becomes rec(j+1)"""
    vs, body = fn.body()

    def rwk(t, ctx):
        m = {}
        for idx, er, g in names.get("$post", ()):
            if len(idx) > len(ctx):
                continue
            ix = ctx[len(ctx) - len(idx):]
            key = tm.subst(er, {j: vs[0], **dict(zip(idx, ix))})
            v = g(tm.add(vs[0], ONE), tuple(ix))
            m[key] = v.r if isinstance(v, Num) else v.t
        if m:
            t = tm.subst_terms(t, m)

        def f(name, args, sort):
            g = names.get(name)
            if g is None:
                return None
            v = g(vs[0], tuple(args))
            return v.r if isinstance(v, Num) else v.t
        return tm.rewrite_apps(t, f)
    b2 = vmap(body, rwk)
    return Fn(1, lambda k: vsubst(b2, {vs[0]: k}), fn.ranges)


def vmap(v, f, ctx=()):
    """apply a term transformation to all terms in a value"""
    if isinstance(v, Num):
        return Num(f(v.r, ctx), f(v.nan, ctx), f(v.inf, ctx))
    if isinstance(v, BoolV):
        return BoolV(f(v.t, ctx))
    if isinstance(v, Label):
        return Label(v.space, f(v.t, ctx))
    if isinstance(v, tuple):
        return tuple(vmap(x, f, ctx) for x in v)
    if isinstance(v, NT):
        return NT(v.cls, [vmap(x, f, ctx) for x in v.vals])
    if isinstance(v, Arr):
        vs, b = v.fn.body()
        b2 = vmap(b, f, ctx + tuple(vs))
        return Arr([f(s, ctx) for s in v.shape], Fn(v.ndim, lambda *i: vsubst(b2, dict(zip(vs, i))), v.fn.ranges), v.kind)
    if isinstance(v, Series):
        vs, b = v.fn.body()
        b2 = vmap(b, f, ctx + tuple(vs))
        return Series(v.axis, lambda *i: vsubst(b2, dict(zip(vs, i))), v.kind)
    if isinstance(v, Frame):
        vs, b = v.fn.body()
        b2 = vmap(b, f, ctx + tuple(vs))
        return Frame(v.rows, v.cols, lambda *i: vsubst(b2, dict(zip(vs, i))), v.kind)
    if v is None or isinstance(v, (str, Builtin, ClassV, FuncV, Idx)):
        return v
    if isinstance(v, ListV):
        return ListV([vmap(x, f, ctx) for x in v.items])
    if isinstance(v, DictV):
        return DictV([(k, vmap(x, f, ctx)) for k, x in v.items])
    if isinstance(v, Opaque):
        return Opaque(v.kind, **{k: vmap(x, f, ctx) for k, x in v.d.items()})
    if isinstance(v, StrV):
        return StrV([vmap(x, f, ctx) for x in v.parts])
    unsup(f"rewriting {type(v).__name__}")


def unify_seq(at, k):
    return at(k)


def own_nodes(f):
    """nodes of a function body, not of nested functions"""
    st = list(f.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        st += list(ast.iter_child_nodes(n))


def kindof(c):
    if isinstance(c, Opaque):
        return c.kind
    if isinstance(c, (Arr,)):
        return "Arr"
    if isinstance(c, Frame):
        return "Frame"
    if isinstance(c, Series):
        return "Series"
    return type(c).__name__


EXC = {"Exception", "ValueError", "KeyError", "AssertionError", "RuntimeError", "TypeError", "IndexError", "NotImplementedError", "StopIteration",
       "BaseException", "ZeroDivisionError", "ArithmeticError", "FloatingPointError"}
CONSTS: dict = {}
ALIAS_MOD = {"numpy": "np", "pandas": "pd", "scipy": "sc"}
SETATTR: dict = {}


def canon(dn):
    parts = dn.split(".")
    parts[0] = ALIAS_MOD.get(parts[0], parts[0])
    return ".".join(parts)
