"""Discharging formulas: syntactic sign analysis, z3 (and cvc5 as a second opinion)."""
from __future__ import annotations

import os
import time
from fractions import Fraction

import z3

from . import terms as tm
from .terms import TRUE, FALSE, And, Not, Or

positive: set = set()       # atoms (vars/apps) known > 0
nonneg_names: set = set()   # function symbols with values >= 0
pair_facts: dict = {}       # function symbol -> f(atom, atom) -> facts about two of its values
nonneg_atoms: set = set()   # atoms known >= 0
rec_state: dict = {}        # (recursive function name, parameters) -> proved >= 0
rec_nonneg_hook = None
rec_pair_hook = None
app_facts: list = []        # functions (name, args, term) -> list of B-terms that hold
stats = dict(z3_calls=0, z3_s=0.0, cvc5_calls=0, cvc5_s=0.0)


# ---------------------------------------------------------------- syntactic signs
def _atom_pos(a, seen=()):
    if a in positive:
        return True
    if a.op == "app":
        n = a.args[0]
        if n == "E":
            return True
        if n == "log" and tm.is_const(a.args[1][0]) and tm.cval(a.args[1][0]) > 1:
            return True
        if n == "sqrt":
            return is_pos(a.args[1][0])
        if n in rec_pos:
            return True
        if n in pos_apps and pos_apps[n](a.args[1]):
            return True
        if hunting and n.startswith("let"):
            return True
        if n == "max":
            return any(is_pos(x) for x in a.args[1])
        if n == "min":
            return all(is_pos(x) for x in a.args[1])
    if a.op == "var" and a.sort == "I":
        return tm.lower_bound.get(a, -1) >= 1
    if a.op == "recip":
        return is_pos(a.args[0])
    if a.op == "poly":
        return is_pos(a)
    if a.op == "sum":
        bs, rs, mono = a.args
        return all(tm.known_nonneg(tm.sub(n, tm.ONE)) for n in rs) and all(_atom_pos(x) for x, e in mono)
    if a.op == "ite":
        return is_pos(a.args[1]) and is_pos(a.args[2])
    return False


rec_pos: set = set()
hunting = False         # looking for counterexamples only: named values are taken to be positive
pos_apps: dict = {}     # function symbol -> f(args): the application is known positive
nonneg_apps: dict = {}


def _atom_nonneg(a):
    if a in nonneg_atoms or _atom_pos(a):
        return True
    if a.op == "var" and a.sort == "I":
        return a in tm.var_range or tm.lower_bound.get(a, -1) >= 0
    if a.op == "app":
        n = a.args[0]
        if n in nonneg_apps and nonneg_apps[n](a.args[1]):
            return True
        if n in ("sqrt", "abs") or n in nonneg_names or (n.startswith("rec") and rec_nonneg_hook is not None and rec_nonneg_hook(a)):
            return True
        if n == "max":
            return any(is_nonneg(x) for x in a.args[1])
        if n == "min":
            return all(is_nonneg(x) for x in a.args[1])
    if a.op == "recip":
        return is_nonneg(a.args[0])     # reciprocal of a nonnegative number (0 excluded by the division contract)
    if a.op == "sum":
        bs, rs, mono = a.args
        if all(e % 2 == 0 or _atom_nonneg(x) for x, e in mono):
            return True
        return False
    if a.op == "ite":
        return is_nonneg(a.args[1]) and is_nonneg(a.args[2])
    return False


def _exp_diff(t, strict):
    """c1*m1 - c2*m2 with c1 >= c2 > 0, m1 of known sign and m2/m1 = exp(negative)"""
    p = tm.poly(t)
    if len(p) != 2:
        return False
    (m1, c1), (m2, c2) = p.items()
    if c1 < 0:
        (m1, c1), (m2, c2) = (m2, c2), (m1, c1)
    if not (c1 > 0 > c2 and c1 >= -c2):
        return False
    q = dict(m2)
    for a, e in m1:
        q[a] = q.get(a, 0) - e
    arg = tm.ZERO
    for a, e in q.items():
        if e == 0:
            continue
        if a.op != "app" or a.args[0] != "E":
            return False
        arg = tm.add(arg, tm.scale(a.args[1][0], e))
    arg = tm.neg(arg)
    if strict:
        return is_pos(arg) and all(_atom_pos(a) for a, e in m1)
    return is_nonneg(arg) and all(_atom_nonneg(a) or e % 2 == 0 for a, e in m1)


def clear_recips(t):
    """t * (product of positive denominators), or None"""
    for _ in range(6):
        t = flip_recips(t)
        p = tm.poly(t)
        r = {}
        for m in p:
            for a, e in m:
                if a.op == "recip":
                    r[a] = max(r.get(a, 0), e)
        if not r:
            return t
        for a in r:
            if not is_pos(a.args[0]):
                return None
        t = tm.add(*[tm.scale(tm.mul(*([tm.ipow(a, e) for a, e in m if a not in r] + [tm.ipow(a.args[0], r[a] - dict(m).get(a, 0)) for a in r])), c)
                     for m, c in p.items()])
    return None


def _grouped_nonneg(t, strict=False):
    """sum of payload * coefficient with payload >= 0 and coefficient >= 0 (coefficients in exponentials)"""
    p = tm.poly(t)
    if len(p) > 24:
        return False
    g = {}
    for m, c in p.items():
        co = tuple((a, e) for a, e in m if a.op == "recip" or (a.op == "app" and a.args[0] == "E"))
        pay = tuple((a, e) for a, e in m if not (a.op == "recip" or (a.op == "app" and a.args[0] == "E")))
        g.setdefault(pay, []).append((co, c))
    if len(g) == len(p) or (len(g) == 1 and not any(a.op == "recip" for m in p for a, e in m)):
        return False
    for pay, cs in g.items():
        if not all(_atom_nonneg(a) or e % 2 == 0 for a, e in pay):
            return False
        q = tm.add(*[tm.scale(tm._mono_term(co), c) if co else tm.const(c) for co, c in cs])
        if all(c > 0 for c in tm.poly(q).values()):
            if not is_nonneg(q):
                return False
            continue
        q = clear_recips(q)
        if q is None or not (is_nonneg(q) if q is not t else False):
            return False
    return True


tm.nonneg_hook = lambda a: _atom_nonneg(a)


def flip_recips(t):
    """1/d with d < 0 written as -(1/(-d))"""
    if t.op != "poly":
        return t
    rs = {a for m, _ in t.args for a, e in m if a.op == "recip" and e % 2}
    bad = {a for a in rs if len(tm.poly(a.args[0])) == 2 and _exp_diff(tm.neg(a.args[0]), True)}
    if not bad:
        return t
    out = {}
    for m, c in t.args:
        k = sum(1 for a, e in m if a in bad and e % 2)
        m2 = tuple(sorted(((tm._mk("recip", (tm.neg(a.args[0]),), "R", a.fv, a.maxb) if a in bad and e % 2 else a, e) for a, e in m), key=lambda ae: ae[0].id))
        out[m2] = out.get(m2, 0) + (-c if k % 2 else c)
    return tm._mkpoly(out)


def reduce_recips(t):
    """partial fractions: 1/(c0 + c1 x y..) times powers of x rewritten with x to the power zero"""
    if t.op != "poly":
        return t
    for a in {a for m, _ in t.args for a, e in m if a.op == "recip" and e == 1}:
        d = list(tm.poly(a.args[0]).items())
        if len(d) != 2:
            continue
        (m0, c0), (m1, c1) = d if not d[0][0] else d[::-1]
        if m0 or len(m1) < 1 or abs(m1[0][1]) != 1:
            continue
        x, s = m1[0]
        rest = tm._mono_term(m1[1:]) if len(m1) > 1 else tm.ONE
        for _ in range(8):
            out, hit = [], False
            for m, c in tm.poly(t).items():
                dm = dict(m)
                e = dm.get(x, 0) * s
                if dm.get(a) != 1 or not e:
                    out.append(tm.scale(tm._mono_term(m), c))
                    continue
                hit = True
                del dm[a], dm[x]
                other = tm._mono_term(tuple(dm.items()))
                q = tm._mono_term(((a, 1),))
                xs = lambda k: tm._mono_term(((x, k * s),)) if k else tm.ONE
                if e > 0:      # q x^e = x^(e-1) (1 - c0 q) / (c1 rest)
                    v = tm.scale(tm.mul(xs(e - 1), tm.sub(tm.ONE, tm.scale(q, c0)), tm.ipow(rest, -1) if rest is not tm.ONE else tm.ONE), 1 / c1)
                else:          # q x^e = x^e (1 - c1 rest x q) / c0
                    v = tm.scale(tm.mul(xs(e), tm.sub(tm.ONE, tm.scale(tm.mul(rest, xs(1), q), c1))), 1 / c0)
                out.append(tm.scale(tm.mul(v, other), c))
            if not hit:
                break
            t = tm.add(*out)
            if t.op != "poly":
                return t
    return t


def is_nonneg(t):
    """syntactic: t >= 0"""
    t = flip_recips(t)
    if t.op == "poly" and len(t.args) > 2 and any(c < 0 for c in tm.poly(t).values()) and any(a.op == "recip" for m, _ in t.args for a, e in m):
        t2 = reduce_recips(t)
        if t2 is not t and len(tm.poly(t2)) < len(t.args) and is_nonneg(t2):
            return True
    if any(c < 0 for c in tm.poly(t).values()) and (_exp_diff(t, False) or _grouped_nonneg(t)):
        return True
    for m, c in tm.poly(t).items():
        if c < 0:
            return t.sort == "I" and tm.known_nonneg(t)
        for a, e in m:
            if e % 2 and not _atom_nonneg(a):
                return t.sort == "I" and tm.known_nonneg(t)
    return True


def is_pos(t):
    t = flip_recips(t)
    p = tm.poly(t)
    some = False
    if any(c < 0 for c in p.values()) and _exp_diff(t, True):
        return True
    if len(p) > 2 and any(c < 0 for c in p.values()) and any(a.op == "recip" for m in p for a, e in m):
        t2 = reduce_recips(t)
        if t2 is not t and len(tm.poly(t2)) < len(p) and is_pos(t2):
            return True
    if not is_nonneg(t):
        return False
    for m, c in p.items():
        if c > 0 and all(_atom_pos(a) for a, e in m):
            some = True
    if not some and t.sort == "I":
        return tm.known_nonneg(tm.sub(t, tm.ONE))
    return some


def factor_pos(t):
    """t > 0 for t = (common monomial) * (two-term exponential difference), or a sum of such"""
    t = flip_recips(t)
    p = tm.poly(t)
    if len(p) == 2:
        return _exp_diff(t, True)
    if not p or len(p) > 6 or len(p) % 2:
        return False
    ms = list(p.items())
    m0, c0 = ms[0]
    for m1, c1 in ms[1:]:
        q = tm.add(tm.scale(tm._mono_term(m0), c0), tm.scale(tm._mono_term(m1), c1))
        if _exp_diff(q, True) and factor_pos(tm.sub(t, q)):
            return True
    return False


def _sign(t, strict):
    return is_pos(t) if strict else is_nonneg(t)


tm.sign_hook = _sign


def split_nonneg(t):
    """terms p_i with t = sum c_i p_i, every c_i > 0 and p_i >= 0"""
    p = tm.poly(t)
    if all(c > 0 for c in p.values()):
        if not is_nonneg(t):
            return None
        return [tm._mono_term(m) if m else tm.ONE for m in p]
    if len(p) > 24:
        return None
    g = {}
    for m, c in p.items():
        co = tuple((a, e) for a, e in m if a.op == "recip" or (a.op == "app" and a.args[0] == "E"))
        pay = tuple((a, e) for a, e in m if not (a.op == "recip" or (a.op == "app" and a.args[0] == "E")))
        g.setdefault(pay, []).append((co, c))
    if len(g) == len(p):
        return None
    out = []
    for pay, cs in g.items():
        if not pay or not all(_atom_nonneg(a) or e % 2 == 0 for a, e in pay):
            return None
        q = tm.add(*[tm.scale(tm._mono_term(co), c) if co else tm.const(c) for co, c in cs])
        if not is_pos(q):
            q = clear_recips(q)
            if q is None or not is_pos(q):
                return None
        out.append(tm._mono_term(pay))
    return out


tm.split_hook = split_nonneg


# ---------------------------------------------------------------- z3
class Opaque(Exception):
    pass


class Tr:
    def __init__(self, unfold=0, unfolder=None):
        self.c = {}
        self.ax = []
        self.exps = []
        self.funs = {}
        self.recs = {}
        self.n = 0
        self.unfold = unfold
        self.unfolder = unfolder

    def sort(self, s):
        return {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}[s]

    def const(self, t, pre):
        self.n += 1
        return z3.Const(f"{pre}{self.n}", self.sort(t.sort))

    def real(self, t, env):
        x = self.tr(t, env)
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x

    def tr(self, t, env=None):
        env = env or {}
        bound = bool(env) and bool(t.fv & env.keys())
        if not bound and t in self.c:
            return self.c[t]
        r = self._tr(t, env, bound)
        if not bound:
            self.c[t] = r
        return r

    def _atom_const(self, t, env, bound, pre):
        """opaque constant, or function of the bound variables it contains"""
        if not bound:
            return self.const(t, pre)
        bs = [v for v in env if v in t.fv]
        key = (t, tuple(bs))
        f = self.funs.get(key)
        if f is None:
            self.n += 1
            f = z3.Function(f"{pre}{self.n}", *[z3.IntSort()] * len(bs), self.sort(t.sort))
            self.funs[key] = f
        return f(*[env[v] for v in bs])

    def _tr(self, t, env, bound):
        op = t.op
        if op == "var":
            if t in env:
                return env[t]
            x = z3.Const(t.args[0], self.sort(t.sort))
            if t.sort == "I":
                lb = tm.lower_bound.get(t)
                if lb is not None:
                    self.ax.append(x >= lb)
                if t in tm.var_range:
                    self.c[t] = x
                    self.ax.append(x >= 0)
                    n = tm.var_range[t]
                    if not (n.fv & env.keys()) and t not in n.fv:
                        self.ax.append(x < self.tr(n, {}))
            elif t in positive:
                self.ax.append(x > 0)
            elif t in nonneg_atoms:
                self.ax.append(x >= 0)
            return x
        if op == "poly":
            isint = t.sort == "I"
            tot = []
            for m, c in t.args:
                fs = []
                for a, e in m:
                    x = self.tr(a, env)
                    if not isint and x.sort() == z3.IntSort():
                        x = z3.ToReal(x)
                    if e < 0:
                        x = self.recip(a, x, env)
                        e = -e
                    fs += [x] * e
                k = z3.IntVal(int(c)) if isint else z3.RealVal(str(c))
                if not fs:
                    tot.append(k)
                else:
                    p = fs[0]
                    for y in fs[1:]:
                        p = p * y
                    tot.append(p if c == 1 else k * p)
            return z3.Sum(tot) if len(tot) > 1 else (tot[0] if tot else (z3.IntVal(0) if isint else z3.RealVal(0)))
        if op == "app":
            return self.app(t, env, bound)
        if op == "recip":
            x = self.real(t.args[0], env)
            return self.recip(t.args[0], x, env)
        if op == "sum":
            c = self._atom_const(t, env, bound, "sum")
            if not bound:
                if _atom_pos(t):
                    self.ax.append(c > 0)
                elif _atom_nonneg(t):
                    self.ax.append(c >= 0)
            return c
        if op == "ite":
            a, b = self.tr(t.args[1], env), self.tr(t.args[2], env)
            if a.sort() != b.sort():
                a = z3.ToReal(a) if a.sort() == z3.IntSort() else a
                b = z3.ToReal(b) if b.sort() == z3.IntSort() else b
            return z3.If(self.tr(t.args[0], env), a, b)
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "not":
            return z3.Not(self.tr(t.args[0], env))
        if op == "and":
            return z3.And(*[self.tr(a, env) for a in t.args])
        if op == "or":
            return z3.Or(*[self.tr(a, env) for a in t.args])
        if op == "iff":
            return self.tr(t.args[0], env) == self.tr(t.args[1], env)
        if op == "le0":
            return self.tr(t.args[0], env) <= 0
        if op == "lt0":
            return self.tr(t.args[0], env) < 0
        if op == "eq0":
            return self.tr(t.args[0], env) == 0
        if op in ("forall", "exists"):
            b, n, body = t.args
            self.n += 1
            v = z3.Int(f"q{self.n}")
            e2 = dict(env)
            e2[b] = v
            nn = self.tr(n, env)
            bb = self.tr(body, e2)
            rng = z3.And(v >= 0, v < nn)
            return z3.ForAll([v], z3.Implies(rng, bb)) if op == "forall" else z3.Exists([v], z3.And(rng, bb))
        raise Opaque(op)

    def recip(self, a, x, env):
        key = ("recip", a)
        if a.fv & env.keys():
            return 1 / x
        if key in self.c:
            return self.c[key]
        if a.op == "app" and a.args[0] == "E":
            return self.tr(tm.exp(tm.neg(a.args[1][0])) if False else a, env) and 1 / x
        self.n += 1
        r = z3.Real(f"rc{self.n}")
        if x.sort() == z3.IntSort():
            x = z3.ToReal(x)
        self.ax.append(z3.Or(x == 0, r * x == 1))
        if is_pos(a):
            self.ax.append(r > 0)
            self.ax.append(x > 0)
        elif is_nonneg(a):
            self.ax.append(r >= 0)
        self.c[key] = r
        return r

    def app(self, t, env, bound):
        name, args = t.args
        if name in ("max", "min"):
            a, b = self.tr(args[0], env), self.tr(args[1], env)
            if a.sort() != b.sort():
                a = z3.ToReal(a) if a.sort() == z3.IntSort() else a
                b = z3.ToReal(b) if b.sort() == z3.IntSort() else b
            return z3.If(a >= b, a, b) if name == "max" else z3.If(a <= b, a, b)
        if name == "abs":
            a = self.tr(args[0], env)
            return z3.If(a >= 0, a, -a)
        if name in ("E", "sqrt", "log", "pow", "div0"):
            c = self._atom_const(t, env, bound, name)
            if bound:
                return c
            if name == "E":
                x = self.real(args[0], env)
                self.ax += [c > 0, (x > 0) == (c > 1), (x < 0) == (c < 1)]
                if len(self.exps) < 8:
                    for y, d in self.exps:
                        self.ax.append((x < y) == (c < d))
                    self.exps.append((x, c))
            elif name == "sqrt":
                x = self.real(args[0], env)
                self.ax += [c >= 0, z3.Implies(x >= 0, c * c == x)]
            elif name == "log" and tm.is_const(args[0]) and tm.cval(args[0]) > 1:
                self.ax.append(c > 0)
            return c
        zs = [self.tr(a, env) for a in args]
        zs = [z3.If(z, z3.IntVal(1), z3.IntVal(0)) if z.sort() == z3.BoolSort() else z for z in zs]
        key = (name, tuple(z.sort().name() for z in zs), t.sort)
        f = self.funs.get(key)
        if f is None:
            f = z3.Function(name + "_" + str(len(self.funs)), *[z.sort() for z in zs], self.sort(t.sort)) if zs else z3.Const(name, self.sort(t.sort))
            self.funs[key] = f
        r = f(*zs) if zs else f
        if not bound:
            self.c[t] = r
            if t.sort != "B":
                if _atom_pos(t):
                    self.ax.append(r > 0)
                elif _atom_nonneg(t):
                    self.ax.append(r >= 0)
            for g in app_facts:
                for fact in g(name, args, t):
                    self.ax.append(self.tr(fact, {}))
            pf = pair_facts.get(name) or (rec_pair_hook if name.startswith("rec") else None)
            if pf is not None and t.sort == "R":
                for o in self.recs.get(name, ()):
                    for fact in pf(o, t):
                        self.ax.append(self.tr(fact, {}))
                self.recs.setdefault(name, []).append(t)
            if self.unfold > 0 and self.unfolder:
                d = self.unfolder(name, args)
                if d is not None:
                    self.unfold -= 1
                    y = self.tr(d, {})
                    if y.sort() != r.sort():
                        y = z3.ToReal(y)
                    self.ax.append(r == y)
        return r


PATIENCE = float(os.environ.get("PYVC_PATIENCE", "1"))      # a second attempt gives the solver more time


def entails(hyps, goal, timeout=2000, unfold=0, unfolder=None, second=False, extra=()):
    """'yes' | 'no' | 'unknown' : hyps => goal"""
    if goal is TRUE:
        return "yes"
    hs = And(*hyps)
    if hs is FALSE:
        return "yes"
    if goal in (hs.args if hs.op == "and" else (hs,)):
        return "yes"
    t0 = time.time()
    try:
        tr = Tr(unfold, unfolder)
        g = tr.tr(goal)
        h = [tr.tr(x) for x in (hs.args if hs.op == "and" else (hs,)) if x is not TRUE]
        h += [tr.tr(x) for x in extra]
        s = z3.Solver()
        s.set("timeout", int(timeout * PATIENCE))
        for x in h:
            s.add(x)
        for x in tr.ax:
            s.add(x)
        s.add(z3.Not(g))
        r = s.check()
        if r == z3.unsat:
            out = "yes"
        elif r == z3.sat:
            out = "no"
        else:
            out = "unknown"
    except (Opaque, z3.Z3Exception) as e:
        out = "unknown"
    stats["z3_calls"] += 1
    stats["z3_s"] += time.time() - t0
    return out


def satisfiable(hyps, timeout=2000):
    try:
        tr = Tr()
        h = [tr.tr(x) for x in hyps]
        s = z3.Solver()
        s.set("timeout", int(timeout * PATIENCE))
        s.add(*h)
        s.add(*tr.ax)
        return str(s.check())
    except (Opaque, z3.Z3Exception):
        return "unknown"
