"""Proof search on top of the term language: splitting, skolemisation, instantiation, unfolding of
sums and recursive definitions; the leaves go to z3."""
from __future__ import annotations

from . import prove as pv
from . import terms as tm
from .terms import TRUE, FALSE, And, Not, Or, ZERO, ONE

first_defs: dict = {}    # skolem "first label" var -> dict(l, cond, lo, hi)
facts: list = []         # global facts (B-terms) usable everywhere: proved lemmas / preconditions
_cache: dict = {}


def unfolder(name, args):
    from .interp import rec_unfold
    return rec_unfold(name, list(args))


# ---------------------------------------------------------------- sums
def split_sum(a, times=1):
    """sum over s < n  ->  sum over s < n-1  +  last element (n >= 1 known)"""
    bs, rs, mono = a.args
    if len(bs) != 1:
        return None
    n = rs[0]
    if not tm.known_nonneg(tm.sub(n, ONE)):
        return None
    v = tm.fresh("s", "I", tm.sub(n, ONE))
    body = tm.subst(tm._mono_term(mono), {bs[0]: v})
    last = tm.subst(body, {v: tm.sub(n, ONE)})
    return tm.add(tm.mk_sum(v, tm.sub(n, ONE), body), last)


def sum_key(a):
    bs, rs, mono = a.args
    return (mono,)


def _outer(a):
    """position of the binder whose range is split: the only one, or the one all other ranges depend on"""
    bs, rs, _ = a.args
    if len(bs) == 1:
        return 0
    out = [p for p, b in enumerate(bs) if not any(v in rs[p].fv for v in bs) and all(b in r.fv for q, r in enumerate(rs) if q != p)]
    return out[0] if len(out) == 1 else None


def _family(a):
    return (len(a.args[0]),) + tuple(sorted((x.op + str(x.args[0]) if x.op == "app" else x.op) + "^" + str(e) for x, e in a.args[2]))


def align_sums(ts, extra=0):
    """split sums whose ranges differ only by a constant (same family of summands) down to the
    smallest range (minus extra)"""
    groups = {}
    for t in ts:
        for x in tm.walk(t):
            if x.op == "sum" and _outer(x) is not None and not _bound_inside(x):
                groups.setdefault(_family(x), set()).add(x)
    m = {}
    for g in groups.values():
        g = list(g)
        while g:
            base = g[0]
            fam = [(a, tm.sub(a.args[1][_outer(a)], base.args[1][_outer(base)])) for a in g]
            fam = [(a, tm.cval(d)) for a, d in fam if tm.is_const(d)]
            done = {a for a, _ in fam}
            g = [a for a in g if a not in done]
            lo = min(d for _, d in fam) - extra
            for a, d in fam:
                cur, k = a, int(d - lo)
                if k <= 0 or k > 8:
                    continue
                r = tm.ZERO
                ok = True
                rest = a
                pre = tm.ONE
                add = tm.ZERO
                for _ in range(k):
                    q = split_once(rest)
                    if q is None:
                        break
                    rest, last = q
                    add = tm.add(add, last)
                    if rest.op != "sum":
                        break
                if rest is not a:
                    m[a] = tm.add(rest, add)
    if m:
        ts = [tm.subst_terms(t, m) for t in ts]
    return ts


def align_shifts(t, most=2):
    """sums over the same range whose summands are shifts of each other: Sum f(b+c) = Sum f(b) + f(n..n+c-1) - f(0..c-1)"""
    sums = [x for x in tm.walk(t) if x.op == "sum" and len(x.args[0]) == 1 and not _bound_inside(x)]
    m = {}
    for x in sums:
        for y in sums:
            if x is y or x.args[1][0] is not y.args[1][0] or y in m or x in m:
                continue
            n = x.args[1][0]
            v = tm.fresh("s", "I", n)
            bx = tm.subst(tm._mono_term(x.args[2]), {x.args[0][0]: v})
            by = tm.subst(tm._mono_term(y.args[2]), {y.args[0][0]: v})
            for c in range(1, most + 1):
                if tm.subst(bx, {v: tm.add(v, tm.const(c))}) is by:
                    ends = [tm.sub(tm.subst(bx, {v: tm.add(n, tm.const(e))}), tm.subst(bx, {v: tm.const(e)})) for e in range(c)]
                    m[y] = tm.add(x, *ends)
                    break
    return tm.subst_terms(t, m) if m else t


def split_once(a):
    """sum atom over s < n -> (sum over s < n-1, last element)"""
    bs, rs, mono = a.args
    p = _outer(a)
    if p is None:
        return None
    n = rs[p]
    if not tm.known_nonneg(tm.sub(n, ONE)):
        return None
    v = tm.fresh("s", "I", tm.sub(n, ONE))

    def inner(t):
        """the sum over the other binders at t"""
        fr = {b: tm.fresh("s", "I") for q, b in enumerate(bs) if q != p}
        m = {**fr, bs[p]: t}
        x = tm.subst(tm._mono_term(mono), m)
        for q, b in enumerate(bs):
            if q != p:
                r = tm.subst(rs[q], m)
                tm.var_range[fr[b]] = r
                x = tm.mk_sum(fr[b], r, x)
        return x
    return tm.mk_sum(v, tm.sub(n, ONE), inner(v)), inner(tm.sub(n, ONE))


def _bound_inside(x):
    return any(v.args[0].startswith("$b") for v in x.fv)


def _skel(a):
    bs, rs, mono = a.args
    # independent of the binder level
    v = tm.Var("$sk", "I")
    return tuple(sorted((tm.subst(x, {bs[0]: v}).s, e) for x, e in mono))


# ---------------------------------------------------------------- preprocessing
def _lits(t, out):
    if t.op == "and":
        for a in t.args:
            _lits(a, out)
    elif t.op == "exists":
        b, n, body = t.args
        v = tm.fresh("e", "I", n)
        out.append(tm.gt(n, ZERO))
        out.append(tm.lt(v, n))
        _lits(tm.subst(body, {b: v}), out)
    elif t.op == "or" and any(a.op == "exists" for a in t.args) and sum(a.op == "exists" for a in t.args) <= 2:
        # skolemise existential disjuncts in place
        out.append(Or(*[_skolem(a) for a in t.args]))
    else:
        out.append(t)


def _skolem(t):
    if t.op == "exists":
        b, n, body = t.args
        v = tm.fresh("e", "I", None)
        return And(tm.ge(v, ZERO), tm.lt(v, n), _skolem(tm.subst(body, {b: v})))
    if t.op == "and":
        return And(*[_skolem(a) for a in t.args])
    if t.op == "or":
        return Or(*[_skolem(a) for a in t.args])
    return t


def _cands(lits):
    out = []

    def addc(x):
        if x.sort == "I" and x not in out and not any(v.args[0].startswith("$") for v in x.fv) and (x is ZERO or not tm.is_const(x)):
            out.append(x)
    for t in lits:
        for x in tm.walk(t):
            if x.op == "app" and x.args[0] not in ("E", "log", "sqrt"):
                for a in x.args[1]:
                    addc(a)
    for t in lits:
        for v in sorted(t.fv, key=lambda x: x.id):
            addc(v)
    out.sort(key=lambda t: (t.op != "var", t is ZERO, t.id))
    return out


def _split_or(t):
    """or with a single universally quantified member: forall inside"""
    return t


def prove(hyps, goal, timeout=1500, unfold=0, depth=0, second=False):
    """hyps |= goal ?   True / False (False = not shown)"""
    if goal is TRUE:
        return True
    if goal.op == "and":
        return all(prove(hyps, g, timeout, unfold, depth, second) for g in goal.args)
    key = (tuple(hyps), goal, unfold)
    if key in _cache:
        return _cache[key]
    r = _prove(hyps, goal, timeout, unfold, second)
    _cache[key] = r
    return r


def _prove(hyps, goal, timeout, unfold, second):
    lits = []
    for h in list(hyps):
        _lits(h, lits)
    _lits(Not(goal), lits)
    if FALSE in lits:
        return True
    s = set(lits)
    for t in lits:
        if Not(t) in s:
            return True
    # facts about first labels
    used = set()
    for _ in range(2):
        for t in lits:
            used |= {v for v in t.fv if v in first_defs}
    for v in sorted(used, key=lambda x: x.id):
        d = first_defs[v]
        lits.append(tm.ge(v, d["lo"]))
        lits.append(tm.le(v, tm.tmax(d["lo"], d["hi"])))
    rules = [t for t in lits if t.op == "forall"]
    ground = [t for t in lits if t.op != "forall"]
    cands = _cands(ground)[:14]
    inst = []
    for rl in rules:
        b, n, body = rl.args
        for c in cands:
            g = Or(tm.lt(c, ZERO), tm.ge(c, n), tm.subst(body, {b: c}))
            if g is not TRUE:
                inst.append(g)
    # clauses with embedded forall
    for t in list(ground):
        if t.op == "or" and any(a.op == "forall" for a in t.args):
            fa = [a for a in t.args if a.op == "forall"]
            rest = [a for a in t.args if a.op != "forall"]
            if len(fa) == 1:
                b, n, body = fa[0].args
                for c in cands:
                    inst.append(Or(*rest, tm.lt(c, ZERO), tm.ge(c, n), tm.subst(body, {b: c})))
                ground.remove(t)
    for v in sorted(used, key=lambda x: x.id):
        d = first_defs[v]
        for c in cands + [v]:
            g = Or(tm.lt(c, d["lo"]), tm.ge(c, d["hi"]), tm.Iff(_inst(d, c), tm.ge(c, v)))
            l2 = []
            inst.append(g)
    flat = []
    for g in inst:
        _lits(_skolem_iff(g), flat)
    allg = ground + flat
    if FALSE in allg:
        return True
    # quick attempt without unfolding
    r = pv.entails(allg + facts, FALSE, timeout)
    if r == "yes":
        return True
    if r == "no" and unfold == 0 and not _has_rel_sums(allg):
        return False
    al = align_sums(allg, extra=1 if unfold else 0)
    if FALSE in al:
        return True
    r = pv.entails(al + facts, FALSE, timeout, unfold=unfold * 3, unfolder=unfolder)
    return r == "yes"


def _inst(d, c):
    return tm.subst(d["cond"], {d["l"]: c})


def _skolem_iff(t):
    if t.op == "or":
        return Or(*[_skolem_iff(a) for a in t.args])
    if t.op == "iff":
        a, b = t.args
        return And(Or(Not(a), b), Or(Not(b), a))
    return t


def _has_rel_sums(ts):
    g = {}
    for t in ts:
        for x in tm.walk(t):
            if x.op == "sum" and len(x.args[0]) == 1 and not _bound_inside(x):
                s = g.setdefault(_skel(x), set())
                s.add(x)
                if len(s) > 1:
                    return True
    return False


# ---------------------------------------------------------------- simplification
_simp_cache: dict = {}


def simplify(t, hyps, timeout=300):
    key = (t, tuple(hyps))
    if key in _simp_cache:
        return _simp_cache[key]
    r = _simplify(t, list(hyps), timeout)
    _simp_cache[key] = r
    return r


def _simplify(t, hyps, timeout):
    if t.op in ("true", "false"):
        return t
    if t.sort == "B":
        if prove(hyps, t, timeout):
            return TRUE
        if prove(hyps, Not(t), timeout):
            return FALSE
        if t.op == "and":
            args = list(t.args)
            for i in range(len(args)):
                args[i] = simplify(args[i], hyps + [a for j, a in enumerate(args) if j != i], timeout)
            return And(*args)
        if t.op == "or":
            args = list(t.args)
            for i in range(len(args)):
                args[i] = simplify(args[i], hyps + [Not(a) for j, a in enumerate(args) if j != i], timeout)
            return Or(*args)
        if t.op in ("forall", "exists"):
            b, n, body = t.args
            v = tm.fresh("q", "I", n)
            body2 = simplify(tm.subst(body, {b: v}), hyps + [tm.lt(v, n)], timeout)
            return (tm.Forall if t.op == "forall" else tm.Exists)(v, n, body2)
        return t
    # arithmetic: decide the conditions of ground ites
    for _ in range(12):
        m = {}
        for x in tm.walk(t):
            if x.op == "ite" and not any(v.args[0].startswith("$b") for v in x.args[0].fv):
                c = x.args[0]
                inner = _bound_inside(x)
                if prove(hyps, c, timeout):
                    m[c if inner else x] = TRUE if inner else x.args[1]
                    break
                if prove(hyps, Not(c), timeout):
                    m[c if inner else x] = FALSE if inner else x.args[2]
                    break
            if x.op == "app" and x.args[0] in ("max", "min") and not _bound_inside(x):
                a, b = x.args[1]
                big, small = (a, b) if x.args[0] == "max" else (b, a)
                if prove(hyps, tm.ge(a, b), timeout):
                    m[x] = big
                    break
                if prove(hyps, tm.le(a, b), timeout):
                    m[x] = small
                    break
        if not m:
            return t
        t = tm.subst_terms(t, m)
    return t


def simplify_deep(t, hyps, timeout=300, depth=0):
    """simplify inside conditions and branches of case distinctions as well"""
    t = simplify(t, hyps, timeout)
    if depth > 6 or t.sort == "B":
        return _deep_b(t, hyps, timeout, depth) if t.sort == "B" else t
    for _ in range(12):
        # outermost ground ites
        m = {}
        for x in _outer_ites(t):
            c, a, b = x.args
            c2 = _deep_b(c, hyps, timeout, depth)
            if c2 is TRUE:
                m[x] = a
            elif c2 is FALSE:
                m[x] = b
            else:
                a2 = simplify_deep(a, hyps + [c2], timeout, depth + 1)
                b2 = simplify_deep(b, hyps + [Not(c2)], timeout, depth + 1)
                y = tm.ite(c2, a2, b2)
                if y is not x:
                    m[x] = y
        if not m:
            return t
        t2 = tm.subst_terms(t, m)
        if t2 is t:
            return t
        t = t2
    return t


def simplify_under(t, hyps, timeout=300, depth=0):
    """simplify_deep inside sums as well: the summands at generic indices of the range"""
    t = simplify_deep(t, hyps, timeout)
    if depth > 4 or t.sort == "B":
        return t
    m = {}
    for x in tm.walk(t):
        if x.op != "sum" or any(v.args[0].startswith("$b") for v in x.fv) or not any(y.op == "ite" for y in tm.walk(x)):
            continue
        bs, rs, mono = x.args
        fr, facts = {}, []
        for b, n in zip(bs, rs):
            n2 = tm.subst(n, fr)
            v = tm.fresh("s", "I", n2)
            tm.lower_bound[v] = 0
            fr[b] = v
            facts.append(tm.lt(v, n2))
        body = tm.mul(*[tm.ipow(tm.subst(a, fr), e) for a, e in mono])
        y = simplify_under(body, hyps + facts, timeout, depth + 1)
        if y is body:
            continue
        for b, n in reversed(list(zip(bs, rs))):
            y = tm.mk_sum(fr[b], tm.subst(n, fr), y)
        if y is not x:
            m[x] = y
    return tm.subst_terms(t, m) if m else t


def _outer_ites(t):
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            if not _bound_inside(x):
                out.append(x)
            continue
        if x.op == "poly":
            for m, _ in x.args:
                stack += [a for a, _ in m]
        elif x.op == "app":
            stack += list(x.args[1])
        elif x.op == "recip":
            stack.append(x.args[0])
    return out


def _deep_b(c, hyps, timeout, depth):
    if c.op in ("and", "or"):
        neg = c.op == "or"
        args = list(c.args)
        for i in range(len(args)):
            ctx = hyps + [Not(a) if neg else a for j, a in enumerate(args) if j != i]
            args[i] = _deep_b(simplify(args[i], ctx, timeout), ctx, timeout, depth + 1)
        return (Or if neg else And)(*args)
    if c.op == "not":
        return Not(_deep_b(c.args[0], hyps, timeout, depth + 1))
    if c.op in ("le0", "lt0", "eq0"):
        p = simplify_deep(c.args[0], hyps, timeout, depth + 1)
        if p is c.args[0]:
            return c
        return {"le0": tm.le0, "lt0": tm.lt0, "eq0": tm.eq0}[c.op](p)
    return simplify(c, hyps, timeout)
