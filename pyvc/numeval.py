"""Numerical evaluation of terms at concrete sizes and data (falsifier for failed obligations)."""
from __future__ import annotations

import math

from . import terms as tm
from . import interp as ip


class Undefined(Exception):
    pass


class NumEnv:
    """vars: {Var or name: value}; funs: {name: python function of the evaluated arguments}"""

    def __init__(self, vars=None, funs=None, budget=3_000_000):
        self.vars = {}
        for k, v in (vars or {}).items():
            self.vars[k if isinstance(k, tm.T) else k] = v
        self.funs = dict(funs or {})
        self.memo = {}
        self.recmemo = {}
        self.left = budget

    def ev(self, t, b=None):
        b = b or {}
        fvs = [v for v in t.fv if v in b]
        key = (t, tuple((v, b[v]) for v in sorted(fvs, key=lambda v: v.id))) if fvs else t
        if key in self.memo:
            return self.memo[key]
        self.left -= 1
        if self.left < 0:
            raise Undefined("budget")
        r = self._ev(t, b)
        self.memo[key] = r
        return r

    def _ev(self, t, b):
        op = t.op
        ev = self.ev
        if op == "var":
            if t in b:
                return b[t]
            if t in self.vars:
                return self.vars[t]
            n = t.args[0]
            if n in self.vars:
                return self.vars[n]
            if n == "pi":
                return math.pi
            raise Undefined("variable " + n)
        if op == "poly":
            tot = 0
            for m, c in t.args:
                c = int(c) if c.denominator == 1 else float(c)
                p = c
                for a, e in m:
                    if p == 0:
                        break
                    x = ev(a, b)
                    if e < 0:
                        if x == 0:
                            raise Undefined("1/0")
                        p = p * float(x) ** e
                    else:
                        p = p * x ** e
                tot = tot + p
            return tot
        if op == "recip":
            x = ev(t.args[0], b)
            if x == 0:
                raise Undefined("1/0")
            return 1.0 / x
        if op == "sum":
            bs, rs, mono = t.args
            return self._sum(list(bs), list(rs), mono, dict(b))
        if op == "ite":
            return ev(t.args[1], b) if ev(t.args[0], b) else ev(t.args[2], b)
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "not":
            return not ev(t.args[0], b)
        if op == "and":
            return self._lazy(t.args, b, False)
        if op == "or":
            return self._lazy(t.args, b, True)
        if op == "iff":
            return bool(ev(t.args[0], b)) == bool(ev(t.args[1], b))
        if op == "le0":
            return ev(t.args[0], b) <= 0
        if op == "lt0":
            return ev(t.args[0], b) < 0
        if op == "eq0":
            x = ev(t.args[0], b)
            return x == 0 if not isinstance(x, float) else abs(x) < 1e-300
        if op in ("forall", "exists"):
            v, n, body = t.args
            N = ev(n, b)
            b2 = dict(b)
            und = None
            for k in range(int(N)):
                b2[v] = k
                try:
                    x = ev(body, b2)
                except Undefined as e:
                    und = e
                    continue
                if op == "forall" and not x:
                    return False
                if op == "exists" and x:
                    return True
            if und:
                raise und
            return op == "forall"
        if op == "app":
            return self._app(t, b)
        raise Undefined(op)

    def _lazy(self, args, b, want):
        und = None
        for a in args:
            try:
                if bool(self.ev(a, b)) == want:
                    return want
            except Undefined as e:
                und = e
        if und:
            raise und
        return not want

    def _sum(self, bs, rs, mono, b):
        if not bs:
            p = 1
            # indicator factors first
            for a, e in sorted(mono, key=lambda ae: 0 if tm._is_ind(ae[0]) else 1):
                x = self.ev(a, b)
                if x == 0:
                    if e < 0:
                        raise Undefined("1/0")
                    return 0
                p = p * (float(x) ** e if e < 0 else x ** e)
            return p
        # a binder whose range does not depend on later binders
        for j, n in enumerate(rs):
            if not any(v in n.fv for i, v in enumerate(bs) if i != j):
                break
        v = bs[j]
        N = int(self.ev(rs[j], b))
        rb, rr = bs[:j] + bs[j + 1:], rs[:j] + rs[j + 1:]
        tot = 0
        b = dict(b)
        for k in range(N):
            b[v] = k
            tot = tot + self._sum(rb, rr, mono, b)
        return tot

    def _app(self, t, b):
        name, args = t.args
        if name in ("max", "min"):
            x, y = self.ev(args[0], b), self.ev(args[1], b)
            return max(x, y) if name == "max" else min(x, y)
        if name in ("fdiv", "fmod"):
            p, q = self.ev(args[0], b), self.ev(args[1], b)
            if q == 0:
                raise Undefined("division by zero")
            return p // q if name == "fdiv" else p % q
        if name in ip.rec_defs:
            return self._rec(name, args, b)
        if name in ip.let_defs:
            f, p, body = ip.let_defs[name]
            xs = tuple(self.ev(a, b) for a in args)
            key = (name, xs)
            if key not in self.recmemo:
                self.recmemo[key] = self.ev(body, dict(zip(f + p, xs)))
            return self.recmemo[key]
        xs = [self.ev(a, b) for a in args]
        if name == "E":
            if xs[0] > 700:
                raise Undefined("overflow")
            return math.exp(xs[0])
        if name == "sqrt":
            if xs[0] < 0:
                if xs[0] > -1e-12:
                    return 0.0
                raise Undefined("sqrt of negative")
            return math.sqrt(xs[0])
        if name == "log":
            if xs[0] <= 0:
                raise Undefined("log")
            return math.log(xs[0])
        if name == "abs":
            return abs(xs[0])
        if name == "pow":
            try:
                r = float(xs[0]) ** xs[1]
            except (ZeroDivisionError, OverflowError):
                raise Undefined("pow")
            if isinstance(r, complex):
                raise Undefined("pow")
            return r
        f = self.funs.get(name)
        if f is None:
            from . import lib_np
            if name in lib_np.matfns:
                return self._matfn(name, xs)
            d = fun_hooks.get(name)
            if d is not None:
                return d(self, xs, args, b)
            raise Undefined("function " + name)
        return f(*xs)

    def _matfn(self, name, xs):
        from . import lib_np
        import numpy as np
        kind, formals, i, j, body, dim = lib_np.matfns[name]
        k = len(formals)
        key = (name, tuple(xs[:k]))
        r = self.recmemo.get(key)
        if r is None:
            b = dict(zip(formals, xs[:k]))
            n = int(self.ev(dim, b))
            if n <= 0:
                raise Undefined("empty matrix")
            if kind == "red":
                op, par, miss = j
                xs_ = np.array([float(self.ev(body, {**b, i: p})) for p in range(n) if not self.ev(miss, {**b, i: p})])
                if not len(xs_):
                    raise Undefined("empty reduction")
                r = np.quantile(xs_, par) if op == "quantile" else getattr(np, op)(xs_, ddof=int(par)) if op in ("std", "var") else getattr(np, op)(xs_)
                self.recmemo[key] = r = np.asarray(r)
                return int(r) if op.startswith("arg") else float(r)
            A = np.empty((n, n))
            for p in range(n):
                for q in range(n):
                    A[p, q] = float(self.ev(body, {**b, i: p, j: q}))
            try:
                if kind == "inv":
                    if np.linalg.cond(A) > 1e12:
                        raise Undefined("singular")
                    r = np.linalg.inv(A)
                elif kind == "chol":
                    r = np.linalg.cholesky(A)
                elif kind == "det":
                    r = np.linalg.det(A)
                elif kind == "eigval":
                    r = np.linalg.eigh(A)[0]
                elif kind == "eigvec":
                    r = np.linalg.eigh(A)[1]
                else:
                    raise Undefined(kind)
            except np.linalg.LinAlgError:
                raise Undefined("linear algebra")
            self.recmemo[key] = r
        idx = tuple(int(x) for x in xs[k:])
        if any(p < 0 or p >= s for p, s in zip(idx, getattr(r, "shape", ()))):
            raise Undefined("index")
        return float(r[idx]) if idx else float(r)

    def _rec(self, name, args, b):
        d = ip.rec_defs[name]
        xs = tuple(self.ev(a, b) for a in args)
        key = (name, xs)
        if key in self.recmemo:
            return self.recmemo[key]
        k = xs[0]
        m = {d["k"]: k}
        m.update(zip(d["idx"], xs[1:1 + len(d["idx"])]))
        m.update(zip(d["params"], xs[1 + len(d["idx"]):]))
        # $-variables are local to the definition: fresh environment
        r = self.ev(d["init"] if k <= 0 else d["step"], m)
        self.recmemo[key] = r
        return r


fun_hooks: dict = {}


def evnum(env, x):
    """('nan'|'inf'|value) of a Num"""
    if env.ev(x.nan):
        return "nan"
    if env.ev(x.inf):
        return "inf" if env.ev(x.r) > 0 else "-inf"
    return float(env.ev(x.r))


def differ(a, b, rtol=1e-6, scale=0.0):
    if isinstance(a, str) or isinstance(b, str):
        return a != b
    return abs(a - b) > rtol * max(abs(a), abs(b), scale)
