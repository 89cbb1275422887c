"""Contracts of the covariance combination, cvx/covariance/combination.py (properties C09-C13)."""
import random

import numpy as np

import os
from pyvc import terms as tm
from pyvc import lib_np
from pyvc.terms import (ZERO, ONE, TRUE, FALSE, And, Or, Not, Forall, Exists, Implies, add, sub, mul, div, const, log, mk_sum,
                        fresh, eq0, ge, lt, gt, le, eq, App, Iff)
from pyvc.values import Num, BoolV, Axis, Frame, Series, Ref, Seq, NT, Label, Arr, SymDict, Opaque, Unsupported
from pyvc.driver import Skip, equal, sequence
from pyvc import numeval as ne

P = "cvx.covariance.combination:"


class Setup:
    """K experts with covariances (and means) issued at consecutive times lo .. lo+m-1; returns at times 0 .. T-1"""

    def __init__(self, M, means=True, window=True, run=False, series=True):
        self.M, self.means = M, means
        T, N, K = M.nat("T", 1), M.nat("N", 1), M.nat("K", 1)
        lo, m = M.nat("lo"), M.nat("m", 2)
        self.T, self.N, self.K, self.lo, self.m = T, N, K, lo, m
        M.assume(le(add(lo, m), T))
        r, s, mu = M.data("r", 2), M.data("s", 4), M.data("mu", 3)
        self.r, self.s, self.mu = r, s, mu
        time, asset, expert = (lambda: Axis("time", lo, m)), (lambda: Axis("asset", ZERO, N)), (lambda: Axis("expert", ZERO, K))
        self.R = M.frame(Axis("time", ZERO, T), asset(), lambda t, i: Num(r(t, i)))
        tm.symmetric["s"] = (-2, -1)
        self.sig = M.box(SymDict(expert(), lambda k: SymDict(time(), lambda t: Frame(asset(), asset(), lambda i, j: Num(s(k, t, i, j))))))
        self.mean = None
        if means:
            cell = (lambda k, t: Series(asset(), lambda i: Num(mu(k, t, i)))) if series else (lambda k, t: Arr((N,), lambda i: Num(mu(k, t, i))))
            self.mean = M.box(SymDict(expert(), lambda k: SymDict(time(), lambda t: cell(k, t))))
        self.W = M.nat("W", 1) if window else None
        self.w = tm.tmin(self.W, sub(m, ONE)) if window else sub(m, ONE)     # returns scored per problem
        self.first = add(lo, self.w)                                          # first time with a full window
        self.run = self.times = None
        if run and not window:
            # the whole history is complete at the last time only: a run that reaches it, or one that does not
            q, gap = M.nat("q", 1), M.nat("gap", 1) if run == "early" else ZERO
            p = sub(add(lo, m), add(q, gap))
            M.assume(lt(add(q, gap), m))
        elif run:
            p, q = M.nat("p"), M.nat("q", 1)
            M.assume(gt(p, lo), le(add(p, q), add(lo, m)))
        if run:
            self.run = (p, q)
            self.first = tm.tmax(p, self.first)
        self.last = sub(add(*self.run) if run else add(lo, m), ONE)
        M.samplers = [self.sample]
        M.case = self.case

    # ------------------------------------------------ execution
    def build(self):
        self.obj = self.M.call(P + "from_sigmas", self.sig, self.R, means=self.mean)
        return self.obj

    def solve(self, isolated=False):
        kw = {}
        if self.W is not None:
            kw["window"] = Num(self.W)
        if self.run:
            p, q = self.run
            kw["times"] = self.M.box(Seq(q, lambda k: Label("time", add(p, k))))
        if self.times is not None:
            kw["times"] = self.times
        it = self.M.it
        n0 = it.nid
        it.writes = set()
        r = it.call_method(self.obj, "solve", [], kw)
        # objects and variables written that existed before the call
        self.changed = {loc for loc in it.writes if loc[0] <= n0} if isolated else set()
        it.writes = None
        return sequence(self.M, r)

    # ------------------------------------------------ specification
    def prec(self, k, t):
        """expert k's precision factor at time t: L L^T = inverse of its covariance"""
        it = self.M.it
        a = Arr((self.N, self.N), lambda i, j: Num(self.s(k, t, i, j)))
        return it.D(lib_np.cholesky(it, lib_np.inv(it, a)))

    def L(self, x, t):
        """weighted sum of the experts' factors at time t"""
        k = fresh("k", "I", self.K)
        Lk = self.prec(k, t)
        return Arr((self.N, self.N), lambda i, j: Num(mk_sum(k, self.K, mul(x(k), Lk.at(i, j).r))))

    def nu(self, x, t):
        """weighted sum of the experts' scaled means L_k^T mu_k at time t"""
        if not self.means:
            return lambda j: ZERO
        k, i = fresh("k", "I", self.K), fresh("i", "I", self.N)
        Lk = self.prec(k, t)
        return lambda j: mk_sum(k, self.K, mul(x(k), mk_sum(i, self.N, mul(Lk.at(i, j).r, self.mu(k, t, i)))))

    def loglik(self, x, t, w):
        """Gaussian log-likelihood, without its constant, of the last w returns up to t under the factors issued one step before each"""
        q, i, j = fresh("q", "I", w), fresh("i", "I", self.N), fresh("j", "I", self.N)
        u = sub(t, q)                       # scored return; predictions of time u - 1
        L, nu = self.L(x, sub(u, ONE)), self.nu(x, sub(u, ONE))
        z = sub(mk_sum(i, self.N, mul(L.at(i, j).r, self.r(u, i))), nu(j))
        one = sub(mk_sum(i, self.N, log(L.at(i, i).r)), div(mk_sum(j, self.N, mul(z, z)), const(2)))
        return mk_sum(q, w, one)

    # ------------------------------------------------ concrete points
    def sample(self, rng, small):
        M = self.M
        names = [(n, "x") for n in getattr(self, "xs", ())]
        env = M.sample(rng, small)
        for v in (self.K, self.N):
            env.vars[v] = min(env.vars[v], 3)
        if rng.random() < .4:           # a longer history, a short run
            env.vars[self.m] = rng.randint(6, 15)
            for v in (self.K, self.N):
                env.vars[v] = min(env.vars[v], 2)
            if self.W is not None:
                env.vars[self.W] = rng.randint(1, env.vars[self.m] + 1)
        env.vars[self.T] = max(env.vars[self.T], env.vars[self.lo] + env.vars[self.m])
        if self.run:
            p, q = self.run
            if p.op == "var":
                last = env.vars[self.lo] + env.vars[self.m]
                env.vars[p] = max(env.vars[self.lo] + rng.randint(1, env.vars[self.m] - 1), rng.choice([0, last - 3]))
                env.vars[q] = rng.choice([1, rng.randint(1, last - env.vars[p])])
            else:
                env.vars[q] = rng.randint(1, env.vars[self.m] - 1)
        N, K = env.vars[self.N], env.vars[self.K]
        seed = rng.random()
        memo = {}

        def cov(k, t):
            if (k, t) not in memo:
                g = np.random.default_rng(abs(hash((seed, k, t))) % 2**32)
                A = g.normal(size=(N, N))
                memo[k, t] = A @ A.T + (0.5 + g.random()) * np.eye(N)
            return memo[k, t]
        env.funs["s"] = lambda k, t, i, j: float(cov(k, t)[i, j])
        env.funs["r"] = lambda t, i: random.Random(f"{seed}r{t},{i}").gauss(0, 1)
        env.funs["mu"] = lambda k, t, i: random.Random(f"{seed}m{k},{t},{i}").gauss(0, .5)
        style = rng.choice(["simplex", "free", "corner"])

        def weights(name):
            g = random.Random(f"{seed}{name}")
            x = [g.random() + .05 for _ in range(K)]
            if style == "corner":
                x = [v if g.random() < .5 else 0.0 for v in x]
                x[g.randrange(K)] = 1.0
            if style == "free":
                return [v - (.3 if name.startswith("?") else 0) for v in x]
            return [v / sum(x) for v in x]
        class Any(dict):
            def get(self, n, d=None):
                if n in self:
                    return self[n]
                if n.startswith("x!"):
                    x = weights(n)
                    self[n] = lambda i: x[i]
                    return self[n]
                if n.startswith("argmax!"):
                    return lambda *i: memo.setdefault((n, i[:-1]), _simplex(f"{seed}{n}{i[:-1]}", K))[i[-1]]
                if n.startswith("solverfails!"):
                    return lambda *i: random.Random(f"{seed}{n}{i}").random() < .2
                return d
        env.funs = Any(env.funs)
        return env

    def later(self, t, t1=None):
        """the same point with other returns after t and other predictions after t1"""
        def perturb(env):
            b = int(env.ev(t))
            b1 = b if t1 is None else int(env.ev(t1))
            e2 = ne.NumEnv(dict(env.vars), None)
            f = dict(env.funs)
            r, s, mu = f["r"], f["s"], f["mu"]
            f["r"] = lambda u, i: r(u, i) if u <= b else 3.0 + 2 * r(u, i)
            f["s"] = lambda k, u, i, j: s(k, u, i, j) * (1 if u <= b1 else 2 + k + u % 3)
            f["mu"] = lambda k, u, i: mu(k, u, i) if u <= b1 else 1 - mu(k, u, i)
            e2.funs = type(env.funs)(f)
            return e2
        return perturb

    def sample_later(self, t, k):
        return self.sample

    def case_later(self, t):
        return lambda env: dict(self.case(env), cut=int(env.ev(t)))

    def case(self, env):
        v = lambda t: int(env.ev(t))
        K, N, T, lo, m = v(self.K), v(self.N), v(self.T), v(self.lo), v(self.m)
        c = dict(what="given", K=K, n=N, T=T, lo=lo, m=m, window=v(self.W) if self.W is not None else None,
                 r=[[float(env.funs["r"](t, i)) for i in range(N)] for t in range(T)],
                 s=[[[[float(env.funs["s"](k, t, i, j)) for j in range(N)] for i in range(N)] for t in range(lo, lo + m)] for k in range(K)],
                 mu=[[[float(env.funs["mu"](k, t, i)) for i in range(N)] for t in range(lo, lo + m)] for k in range(K)] if self.means else None)
        if self.run:
            c["run"] = [v(self.run[0]), v(self.run[1])]
        return c


class EwmaSetup(Setup):
    """from_ewmas: the experts are iterated EWMA predictors of the same returns, one per pair of half-lives"""

    def __init__(self, M, window=True, clip=True):
        Setup.__init__(self, M, True, window)
        self.h1, self.h2 = M.data("h1", 1), M.data("h2", 1)
        M.data_positive |= {"h1", "h2"}
        tm.symmetric["ps"] = (-2, -1)
        a, b = self.h1, self.h2
        # the experts' predictions are functions of the half-lives
        self.s = lambda k, t, i, j: App("ps", (a(k), b(k), t, i, j))
        self.mu = lambda k, t, i: App("pm", (a(k), b(k), t, i))
        M.assume(eq(self.T, add(self.lo, self.m)))
        self.m1, self.m2 = M.nat("m1", 1), M.nat("m2", 1)
        self.clip = M.pos("c") if clip else None
        self.tables = []

    def build(self):
        M, it = self.M, self.M.it
        cls = it.lookup(it.load("cvx.covariance.ewma"), "IEWMA")
        time, asset = Axis("time", self.lo, self.m), Axis("asset", ZERO, self.N)

        def contract(it, returns, vola_halflife, cov_halflife, min_periods_vola=None, min_periods_cov=None, mean=None, mu_halflife1=None,
                     mu_halflife2=None, clip_at=None, nan_to_num=None, **other):
            """iterated_ewma (contracts C01-C08): one prediction for every time lo .. T-1, labelled by the assets; positive definite
            covariances (assumed); predictions of a time are functions of the returns up to it, the half-lives and the options"""
            t = it.D(returns)
            num = lambda v, want: isinstance(it.D(v), Num) and it.D(v).r is want
            nn = it.D(nan_to_num)
            if other or nn is not None and not (isinstance(nn, BoolV) and nn.t is TRUE):
                return NotImplemented
            if not isinstance(t, Frame) or mu_halflife1 is not None or mu_halflife2 is not None:
                return NotImplemented
            self.tables.append((t, list(it.pc)))
            if not (num(min_periods_vola, self.m1) and num(min_periods_cov, self.m2)):
                return NotImplemented
            if self.clip is None and it.D(clip_at) is not None or self.clip is not None and not num(clip_at, self.clip):
                return NotImplemented
            a, b = as_r(it.D(vola_halflife)), as_r(it.D(cov_halflife))

            def at(k):
                u = add(self.lo, k)
                return NT(cls, [Label("time", u), Series(asset, lambda i: Num(App("pm", (a, b, u, i)))),
                                Frame(asset, asset, lambda i, j: Num(App("ps", (a, b, u, i, j)))), Series(asset, lambda i: Num(App("pv", (a, b, u, i))))])
            return it.new(Seq(self.m, at))
        it.contracts["cvx.covariance.ewma:iterated_ewma"] = contract
        pairs = M.box(Seq(self.K, lambda k: (Num(self.h1(k)), Num(self.h2(k)))))
        kw = dict(min_periods_vola=Num(self.m1), min_periods_cov=Num(self.m2), mean=BoolV(TRUE))
        if self.clip is not None:
            kw["clip_at"] = Num(self.clip)
        self.obj = M.call(P + "from_ewmas", self.R, pairs, **kw)
        return self.obj

    def case(self, env):
        v = lambda t: int(env.ev(t))
        return dict(what="ewmas", K=v(self.K), n=v(self.N), seed=1, window=v(self.W) if self.W is not None else None, lo=v(self.lo), m=v(self.m))

    def predictors(self, causal=False):
        """the tables handed to the predictors are the returns passed in (causal: computed from them without looking ahead)"""
        M = self.M
        if not self.tables:
            M.add("predictors are iterated EWMAs", "undecided", "iterated_ewma is not called")
            raise Skip()
        for f, _ in self.tables[-1:]:
            t, i = M.index(self.T), M.index(self.N, "i")
            M.prove("predictors see all the rows and assets",
                    And(Iff(f.rows.has(t), lt(t, self.T)), Iff(f.cols.has(i), lt(i, self.N))) if (f.rows.space, f.cols.space) == ("time", "asset") else FALSE, (), [t, i])
            if causal:
                M.depends("what the predictors see at a time is computed from the returns passed in up to that time", [f.at(t, i)],
                          lambda name, args: le(args[0], t) if name == "r" else None, (), [lt(t, self.T), lt(i, self.N)], [t, i])
            else:
                M.same_num("predictors see the returns passed in", f.at(t, i), Num(self.r(t, i)), (), [t, i])


def _simplex(seed, K):
    g = random.Random(seed)
    x = [g.random() for _ in range(K)]
    return [v / sum(x) for v in x]


def describe(S):
    return f"{'means' if S.means else 'no means'}, {'window' if S.W is not None else 'whole history'}{', run of times' if S.run else ''}"


def modes(ck, runs=(False,)):
    """runs the decorated body in every mode"""
    def go(body):
        for run in runs:
            for window in (True, False):
                for means in (True, False):
                    name = f"{'means' if means else 'no means'}, {'window' if window else 'whole history'}{', run of times' if run else ''}"
                    with ck.mode(name) as M:
                        body(Setup(M, means, window, run, series=bool(window)), M)
    return go


class Out:
    """outcome number k of a call"""

    def __init__(self, S, q, k):
        M = S.M
        v = M.D(q.at(k))
        self.none = FALSE
        if isinstance(v, Opaque) and v.kind == "maybe":
            self.none, v = v.none.t, v.v
        if not isinstance(v, NT):
            M.add("outcome is a record", "undecided", type(v).__name__)
            raise Skip()
        self.f = {n: M.D(x) for n, x in zip(v.cls.fields, v.vals)}
        self.time = self.f["time"]
        if not isinstance(self.time, Label) or self.time.space != "time":
            M.add("outcome labelled by a time", "undecided", str(self.time))
            raise Skip()
        w = self.f["weights"]
        if not isinstance(w, Series):
            M.add("weights are a series", "undecided", type(w).__name__)
            raise Skip()
        self.w = w
        # the problem whose solution the weights are
        e = fresh("e", "I", S.K)
        tm.lower_bound[e] = 0
        found = {x.args[0]: x for x in tm.walk(as_r(w.at(e))) if x.op == "app" and x.args[0].startswith("argmax!")}
        recs = [s for s in M.it.solves if any(v[1] in found for v in s["vars"])]
        if len(recs) != 1 or len(found) != 1 or len(recs[0]["ctx"]) > 1:
            M.add("weights come from one optimisation problem", "undecided", f"{len(recs)} problems")
            raise Skip()
        self.rec = recs[0]
        self.x, self.am, _ = [v for v in self.rec["vars"] if v[1] in found][0]
        app = found[self.am]
        self.ctx = app.args[1][:-1]
        self.at = dict(zip(self.rec["ctx"], self.ctx))
        self.fails = tm.subst(self.rec["fails"], self.at)

    def weight(self, e):
        return tm._app(self.am, tuple(self.ctx) + (e,), "R")

    def var(self, e):
        return tm._app(self.x, (e,), "R")

    def objective(self):
        o = self.rec["obj"]
        v = as_r(o.at())
        v = tm.subst(v, self.at)
        return tm.neg(v) if self.rec["sense"] == "min" else v


def as_r(v):
    return v.r if isinstance(v, Num) else v


def outcome_index(S, q):
    k = fresh("k", "I", q.n)
    return k


# ---------------------------------------------------------------- C09
def C09(ck):
    @modes(ck, (False, True))
    def _(S, M):
        S.build()
        q = S.solve()
        k = outcome_index(S, q)
        o = Out(S, q, k)
        t, ok = o.time.t, Not(o.none)
        e = fresh("e", "I", S.K)
        M.prove("weights keyed by the experts in order", Iff(o.w.axis.has(e), lt(e, S.K)) if o.w.axis.space == "expert" else FALSE, (), [e])
        M.same_num("weights are the maximiser found", o.w.at(e), Num(o.weight(e)), [ok], [k, e])
        M.prove("problem is over the experts' weights alone",
                TRUE if len(o.rec["vars"]) == 1 else FALSE)
        want = S.loglik(o.var, t, S.w)
        M.same_num("objective is the log-likelihood of the last `window` returns under the factors issued one step earlier",
                   Num(o.objective()), Num(want), [lt(k, q.n)], [k])
        simplex(M, S, o, k)
        M.reachable("an outcome", And(lt(k, q.n), ok), [k])
        M.total()


def simplex(M, S, o, k):
    """the constraints say: non-negative, sum to one"""
    K = S.K
    e = fresh("e", "I", K)
    spec = And(eq(mk_sum(e, K, o.var(e)), ONE), Forall(e, K, ge(o.var(e), ZERO)))
    cons = []
    for op, a, b in o.rec["cons"]:
        shape = a.shape if a.ndim >= b.ndim else b.shape
        idx = [fresh("c", "I", n) for n in shape]
        x, y = (as_r(z.at(*idx[len(idx) - z.ndim:])) for z in (a, b))
        c = {"Eq": eq, "LtE": le, "GtE": ge}[op](x, y)
        for v, n in zip(reversed(idx), reversed(shape)):
            c = Forall(v, n, c)
        cons.append(tm.subst(c, o.at))
    M.prove("constraints allow only non-negative weights that sum to one", spec, cons)
    M.prove("constraints allow every vector of non-negative weights that sum to one", And(*cons), [spec])


# ---------------------------------------------------------------- C10
def matrix(M, f, S, what):
    if not isinstance(f, Frame):
        M.add(f"{what} is a table", "undecided", type(f).__name__)
        raise Skip()
    for ax, nm in ((f.rows, "rows"), (f.cols, "columns")):
        assets(M, f"{what}: {nm}", ax, S)
    return f


def assets(M, what, ax, S):
    l = fresh("l", "I")
    tm.lower_bound[l] = 0
    if ax.space != "asset":
        M.add(f"{what} labelled by the assets", "undecided", f"labels of {ax.space}")
        raise Skip()
    M.prove(f"{what} labelled by the assets in order", Iff(ax.has(l), lt(l, S.N)), (), [l])


def C10(ck):
    @modes(ck, (False, True))
    def _(S, M):
        S.build()
        q = S.solve()
        k = outcome_index(S, q)
        o = Out(S, q, k)
        t, ok = o.time.t, Not(o.none)
        i, j = M.index(S.N, "i"), M.index(S.N, "j")
        e = fresh("e", "I", S.K)
        cov = matrix(M, o.f["covariance"], S, "covariance")
        mean = o.f["mean"]
        if not isinstance(mean, Series):
            M.add("mean is a series", "undecided", type(mean).__name__)
            raise Skip()
        assets(M, "mean", mean.axis, S)
        # the weights yielded are the weights combined
        x = lambda k2: as_r(o.w.at(k2))
        it = M.it
        L = S.L(x, t)
        LT = Arr(L.shape, lambda a, b: L.at(b, a))
        want = it.D(lib_np.inv(it, lib_np.matmul(it, L, LT)))
        M.same_num("covariance is the inverse of L L^T, L the weighted sum of the experts' factors at that time", cov.at(i, j), want.at(i, j), [ok], [k, i, j])
        M.same_num("covariance is symmetric", cov.at(i, j), cov.at(j, i), [ok], [k, i, j])
        nu = S.nu(x, t)
        if S.means:
            inv = it.D(lib_np.inv(it, LT))
            wm = it.D(lib_np.matmul(it, inv, Arr((S.N,), lambda a: Num(nu(a)))))
            M.same_num("mean is the inverse of L^T applied to the weighted sum of the scaled means", mean.at(i), wm.at(i), [ok], [k, i])
        else:
            M.same_num("mean is zero without means", mean.at(i), Num(ZERO), [ok], [k, i])
        M.reachable("an outcome", And(lt(k, q.n), ok), [k])
        M.total()
    with ck.mode("matrix lemmas") as M:
        M.fn = "lemmas"
        M.lean(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lean", "Combo.lean"),
               ["factor_sum_unit", "combined_posDef", "agree_factor", "agree_cov", "agree_mean"])


# ---------------------------------------------------------------- C11
def upto(t):
    """returns, covariances and means are read up to time t only"""
    def need(name, args):
        return le(args[0], t) if name == "r" else le(args[1], t) if name in ("s", "mu") else None
    return need


def before(t, t1):
    """returns up to t, predictions up to t1"""
    def need(name, args):
        return le(args[0], t) if name == "r" else le(args[1], t1) if name in ("s", "mu") else None
    return need


def C11(ck):
    @modes(ck, (False, True))
    def _(S, M):
        S.build()
        q = S.solve()
        k = outcome_index(S, q)
        o = Out(S, q, k)
        t, ok = o.time.t, Not(o.none)
        M.samplers = [S.sample_later(t, k)]
        M.case = S.case_later(t)
        i, j = M.index(S.N, "i"), M.index(S.N, "j")
        cov, mean = o.f["covariance"], o.f["mean"]
        perturb = S.later(t)
        M.depends("the problem solved reads returns up to its time and predictions issued before it", [Num(o.objective())], before(t, sub(t, ONE)), (), [lt(k, q.n)], [k], S.later(t, sub(t, ONE)))
        M.depends("combined covariance reads predictions up to its time only", [cov.at(i, j)], upto(t), (), [lt(k, q.n)], [k, i, j], perturb)
        M.depends("combined mean reads predictions up to its time only", [mean.at(i)], upto(t), (), [lt(k, q.n)], [k, i], perturb)
        want = S.loglik(o.var, t, S.w)
        M.same_num("each return is scored against the predictions issued one step earlier", Num(o.objective()), Num(want), [lt(k, q.n)], [k])
        simplex(M, S, o, k)
        M.total()
    for window in (True, False):
        with ck.mode("from_ewmas, " + ("window" if window else "whole history")) as M:
            S = EwmaSetup(M, window)
            S.build()
            S.predictors(causal=True)
            q = S.solve()
            k = outcome_index(S, q)
            o = Out(S, q, k)
            t = o.time.t
            i, j = M.index(S.N, "i"), M.index(S.N, "j")

            def need(t, t1):
                return lambda name, args: le(args[0], t) if name == "r" else le(args[2], t1) if name in ("ps", "pm", "pv") else None
            M.depends("the problem solved reads returns up to its time and predictions issued before it", [Num(o.objective())], need(t, sub(t, ONE)), (), [lt(k, q.n)], [k])
            M.depends("combined covariance reads predictions up to its time only", [o.f["covariance"].at(i, j)], need(t, t), (), [lt(k, q.n)], [k, i, j])
            M.depends("combined mean reads predictions up to its time only", [o.f["mean"].at(i)], need(t, t), (), [lt(k, q.n)], [k, i])
            want = S.loglik(o.var, t, S.w)
            M.same_num("each return is scored against the predictions issued one step earlier, expert k having the k-th pair of half-lives",
                       Num(o.objective()), Num(want), [lt(k, q.n)], [k])
            M.total()
    with ck.mode("later data do not change the window") as M:
        # a time that has an outcome with m1 predictions has the same window with m2 >= m1 predictions, if it has an outcome then
        lo, m1, m2, W, t = M.nat("lo"), M.nat("m1", 2), M.nat("m2", 2), M.nat("W", 1), M.nat("t")
        M.assume(le(m1, m2))
        M.fn = "lemma"
        w = lambda m: tm.tmin(W, sub(m, ONE))
        given = [ge(t, add(lo, w(m1))), lt(t, add(lo, m1)), ge(t, add(lo, w(m2)))]
        M.prove("the number of returns used at a time is the same with and without later data", eq(w(m1), w(m2)), given)
        M.prove("the same without a window", eq(m1, m2), [eq(t, add(lo, sub(m1, ONE))), eq(t, add(lo, sub(m2, ONE)))])


# ---------------------------------------------------------------- C12
def C12(ck):
    @modes(ck, (False, True))
    def _(S, M):
        S.build()
        q = S.solve()
        count = tm.tmax(ZERO, sub(add(S.last, ONE), S.first))
        M.prove("one outcome for every time with a full window of history", eq(q.n, count))
        k = outcome_index(S, q)
        M.prove("no outcome is left out", q.present(k), [lt(k, q.n)], [k])
        o = Out(S, q, k)
        M.prove("outcomes in time order, labelled by their time", eq(o.time.t, add(S.first, k)), [lt(k, q.n)], [k])
        M.prove("an outcome is missing only when the optimiser fails", Iff(o.none, o.fails), [lt(k, q.n)], [k])
        # the same problem whichever times are asked for: the contract of C09 at that time
        want = S.loglik(o.var, o.time.t, S.w)
        M.same_num("the problem posed at a time does not depend on the times asked for", Num(o.objective()), Num(want), [lt(k, q.n)], [k])
        simplex(M, S, o, k)
        M.reachable("an outcome", lt(k, q.n), [k])
        M.total()
    with ck.mode("whole history, run that ends before the last time") as M:
        S = Setup(M, True, False, "early")
        S.build()
        q = S.solve()
        M.prove("no outcome", eq(q.n, ZERO))
        M.total()
    with ck.mode("times that are not consecutive") as M:
        S = Setup(M, False, True)
        n = M.nat("q", 1)
        tau = M.data("tau", 1, "I")
        v = fresh("v", "I", n)
        M.assume(Forall(v, n, And(gt(tau(v), S.lo), lt(tau(v), add(S.lo, S.m)))))
        S.times = M.box(Seq(n, lambda k: Label("time", tau(k))))
        S.build()
        try:
            S.solve()
        except Unsupported:
            pass                # exceptions found so far are those raised before that point
        v = fresh("v", "I", n)
        ok = Forall(v, n, eq(tau(v), add(tau(ZERO), v)))
        M.prove("rejected", Or(*[c if not isinstance(c, (list, tuple)) else And(*c) for c, _ in M.it.raises]), [Not(ok)])


# ---------------------------------------------------------------- C13
def C13(ck):
    @modes(ck, (False, True))
    def _(S, M):
        S.build()
        q = S.solve(isolated=True)
        k = outcome_index(S, q)
        o = Out(S, q, k)
        e = fresh("e", "I", S.K)
        i, j = M.index(S.N, "i"), M.index(S.N, "j")
        M.prove("an outcome is None exactly when the optimiser fails at its time", Iff(o.none, o.fails), [lt(k, q.n)], [k])
        M.prove("one outcome for every time, whether or not the optimiser fails", eq(q.n, tm.tmax(ZERO, sub(add(S.last, ONE), S.first))))
        mine = lambda name, args: FALSE if name.startswith(("solverfails!", "argmax!")) and not (name == o.am) else \
            eq(args[0], o.ctx[0]) if name == o.am and o.ctx else None
        given = [lt(k, q.n), Not(o.none)]
        M.depends("weights of a time come from its own problem", [o.w.at(e)], mine, (), given, [k, e])
        M.depends("covariance of a time does not depend on other problems", [o.f["covariance"].at(i, j)], mine, (), given, [k, i, j])
        M.depends("mean of a time does not depend on other problems", [o.f["mean"].at(i)], mine, (), given, [k, i])
        M.depends("the problem of a time does not depend on other solutions", [Num(o.objective())], mine, (), [lt(k, q.n)], [k])
        M.total()
        if S.changed:
            M.add("solving changes no object that existed before the call", "undecided", ", ".join(sorted(map(str, S.changed)))[:300])
        else:
            M.add("solving changes no object that existed before the call", "discharged", by="execution")
