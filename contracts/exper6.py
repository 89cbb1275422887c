"""Contracts of the portfolio problems of Trader.backtest (property C29)."""
from pyvc import terms as tm
from pyvc import prove as pv
from pyvc.terms import ZERO, ONE, Not, Forall, add, sub, mul, div, neg, const, log, ipow, mk_sum, fresh, ge, le, eq, App, sqrt
from pyvc.values import Num, Axis, Frame, Seq, SymDict
from pyvc.driver import Skip, equal
from contracts.ewma import same_axis
from contracts.exper import TR, array, attr, mapping, table, honour_positive, pd_sampler
from contracts.exper2 import LIMITS, PB, books, limit_dict, formula, own_writes


def inputs(M, means=False, rhos=False):
    """a trader over T times (the constructor is executed); uncertainties may cover more times than the returns"""
    T, N, lead, trail = M.nat("T", 1), M.nat("N", 1), M.nat("lead"), M.nat("trail")
    r, S, mu, rho = M.data("r", 2), M.data("S", 3), M.data("mu", 2), M.data("rho", 2)
    tm.symmetric["S"] = (-2, -1)
    pv.pos_apps["S"] = lambda args: args[-1] is args[-2]
    pv.pos_apps["rho"] = lambda args: True
    M.data_positive.add("rho")
    ta, aa = Axis("time", lead, T), Axis("asset", ZERO, N)
    M.samplers = [honour_positive(M, pd_sampler(M, N))]
    kw = dict(r_hats=M.frame(ta, aa, lambda t, i: Num(mu(t, i)))) if means else {}
    M.rhos = M.frame(Axis("time", ZERO, add(lead, T, trail)), aa, lambda t, i: Num(rho(t, i))) if rhos else None
    M.preds = M.box(SymDict(ta, lambda t: Frame(aa, aa, lambda i, j: Num(S(t, i, j)))))
    tr = M.call(TR + "Trader", M.frame(ta, aa, lambda t, i: Num(r(t, i))), M.preds, **kw)
    M.tr, M.T = tr, T
    return T, N, lead, S, mu, rho, tr


class Posed:
    """the problem solved for every time (of every predictor, in a backtest of several): t is its time, x(i) an arbitrary value
    of the variable, S(i, j) / mu(i) the predictions of that time"""

    def __init__(self, M, N, first, size, S, mu=None, rho=None, depth=1):
        recs = [r for r in M.it.solves if len(r["loops"]) >= depth]
        if len(recs) != 1 or len(recs[0]["loops"]) != depth:
            M.add("one problem for every time", "undecided", str(len(recs)))
            raise Skip()
        self.M, self.rec = M, recs[0]
        used = {y.args[0] for y in tm.walk(self.obj().r) if y.op == "app"}
        main = [v for v in self.rec["vars"] if v[0] in used]
        if len(main) != 1:
            M.add("one decision variable", "undecided", str(len(main)))
            raise Skip()
        (self.xn, self.am, self.shape), = main
        loops = [j for j, _, _ in self.rec["loops"]]
        self.t = add(first, loops[-1])
        self.S = lambda a, b: S(*loops[:-1], self.t, a, b)
        self.mu = mu and (lambda a: mu(*loops[:-1], self.t, a))
        self.rho = rho and (lambda a: rho(self.t, a))
        self.N, self.size = N, size

    def obj(self):
        return self.rec["obj"].at(*[ZERO] * self.rec["obj"].ndim)

    def x(self, i):
        return App(self.xn, (i,) + (ZERO,) * (len(self.shape) - 1))

    def best(self, *ix):
        return App(self.am, ix + (ZERO,) * (len(self.shape) - 1))

    def values(self, choice, one=False):
        """sample the variable, too"""
        def wrap(smp):
            def f(rng, small):
                env = smp(rng, small)
                n = int(env.ev(self.size))
                w = [rng.choice(choice) for _ in range(n)]
                if one:
                    s = sum(w)
                    w = [q / s for q in w] if abs(s) > 0.1 else [1 / n] * n
                env.funs[self.xn] = lambda *k: w[int(k[0])] if int(k[0]) < n else 0.0
                return env
            return f
        self.M.samplers = [wrap(s) for s in self.M.samplers]

    def var(self):
        a, b = fresh("i", "I", self.N), fresh("j", "I", self.N)
        return mk_sum(a, self.N, mk_sum(b, self.N, mul(self.x(a), self.S(a, b), self.x(b))))

    def total(self, f, n=None):
        a = fresh("i", "I", n or self.N)
        return mk_sum(a, n or self.N, f(a))

    def sense(self, want):
        self.M.add("the problem is a m" + want + "imisation", "discharged" if self.rec["sense"] == "m" + want else "refuted", self.rec["sense"], by="execution")

    def risk_objective(self, v):
        obj = self.obj()
        if equal(list(self.M.it.hyps), obj.r, v):
            self.M.same_num("objective is the predicted variance", obj, Num(v))
        else:
            self.M.same_num("objective is the root of the predicted variance", obj, Num(sqrt(v)), [ge(v, ZERO)])

    def constraints(self, spec, what, hyps=()):
        got = [formula(*c) for c in self.rec["cons"]]
        for g in got:
            self.M.prove("every constraint posed is " + what, g, list(spec) + list(hyps))
        for s in spec:
            self.M.prove(what + " are constraints", s, got + list(hyps))


def limits(p, lim):
    i = [fresh("i", "I", p.N) for _ in range(3)]
    spec = []
    if "short_lim" in lim:
        spec.append(le(mk_sum(i[0], p.N, tm.tabs(p.x(i[0]))), lim["short_lim"]))
    if "upper_bound" in lim:
        spec.append(Forall(i[1], p.N, le(p.x(i[1]), lim["upper_bound"])))
    if "lower_bound" in lim:
        spec.append(Forall(i[2], p.N, ge(p.x(i[2]), lim["lower_bound"])))
    return spec


def case(M, kind, T, N, names, rhos=False):
    M.case = lambda env: dict(what=kind, seed=0, T=int(env.ev(T)), n=int(env.ev(N)), lims=list(names), rhos=rhos)


def C29(ck):
    for kind, title in KINDS.items():
        for unc in (False, True) if kind == "mean_variance" else (False,):
            for names in NAMES[kind]:
                with ck.mode(title + (" with uncertain means" if unc else "") + (", no limits" if not names and len(NAMES[kind]) > 1 else "")) as M:
                    T, N, lead, S, mu, rho, tr = inputs(M, kind in MEANS, unc)
                    kw, lim = arguments(M, kind, names)
                    case(M, kind, T, N, names, unc)
                    M.fn = TR + "Trader.backtest"
                    if unc:
                        kw["rhos"] = M.rhos
                    ch = own_writes(M, tr, lambda: M.it.call_method(tr, "backtest", [], dict(kw, portfolio_type=kind)))
                    M.add("nothing but the trader changes", "undecided" if ch else "discharged", ", ".join(ch)[:200], by="execution")
                    p = Posed(M, N, lead, add(N, ONE) if kind == "mean_variance" else N, S, mu, rho if unc else None)
                    PROBLEM[kind](M, p, lim)
                    M.total(allow=("SolverError",))
    for kind, cls in (("max_diverse", "MaxDiverse"), ("risk_parity", "RiskParity"), ("mean_variance", "MeanVariance")):
        for unc in (False, True) if kind == "mean_variance" else (False,):
            with ck.mode(KINDS[kind] + (" with uncertain means" if unc else "") + ": backtest of several predictors") as M:
                whole(M, kind, cls, unc)


def whole(M, kind, cls, unc):
    """every predictor's trader: returns of the following time, the problem of the time labelled with it, its weights"""
    K, N = M.nat("K", 1), M.nat("N", 1)
    r, S, mu, R, preds, names, lead, L, trail = books(M, K, N)
    aa, tp = Axis("asset", ZERO, N), Axis("time", lead, L)
    rho = M.data("rho", 2)
    pv.pos_apps["rho"] = lambda args: True
    M.data_positive.add("rho")
    n = sub(L, ONE)
    M.case = lambda env: dict(what=kind, seed=0, T=int(env.ev(n)), n=int(env.ev(N)), K=int(env.ev(K)), lims=list(NAMES[kind][0]), rhos=unc)
    args = [R, preds, names] + ([M.it.new(Seq(K, lambda q: Frame(tp, aa, lambda t, i: Num(mu(q, t, i)))))] if kind == "mean_variance" else [])
    M.fn = PB + cls
    b = M.call(PB + cls, *args)
    M.fn = PB + cls + ".backtest"
    kw, lim = arguments(M, kind, NAMES[kind][0])
    pos = [kw["additonal_cons"]] if "additonal_cons" in kw else []
    if kind == "mean_variance":
        pos.append(kw["sigma_des"])
        if unc:
            pos.append(M.frame(Axis("time", ZERO, add(lead, L, trail)), aa, lambda t, i: Num(rho(t, i))))
    ch = own_writes(M, b, lambda: setattr(M, "out", M.it.call_method(b, "backtest", pos, {})))
    M.add("nothing but the new traders changes", "undecided" if ch else "discharged", ", ".join(ch)[:200], by="execution")
    P = mapping(M, M.out, "name")
    same_axis(M, "one trader for every predictor", P.axis, Axis("name", ZERO, K))
    q, k, i = M.index(K, "q"), M.index(n, "k"), M.index(N, "i")
    tr = M.it.new(P.item(q))
    F = table(M, attr(M, tr, "returns"), "returns")
    same_axis(M, "one row per time followed by another time", F.rows, Axis("time", lead, n))
    M.same_num("the return traded at a time is that of the following time", F.at(add(lead, k), i), Num(r(add(lead, k, ONE), i)), (), [q, k, i])
    p = Posed(M, N, lead, add(N, ONE) if kind == "mean_variance" else N, S, mu, rho if unc else None, depth=2)
    PROBLEM[kind](M, p, lim, tr, n, (q,))
    M.total(allow=("SolverError",))


def arguments(M, kind, names):
    lim, d = limit_dict(M, names)
    kw = {}
    if kind != "risk_parity":
        kw["additonal_cons"] = d
    if kind == "robust_min_risk":
        lim["kappa"] = M.pos("kappa")
        kw["kappa"] = Num(lim["kappa"])
    if kind == "mean_variance":
        lim["target"] = M.pos("target")
        kw["sigma_des"] = Num(lim["target"])
    return kw, lim


def weights(M, p, tr, T, pre, scaled):
    """ws of the trader against the solutions"""
    tr = M.tr if tr is None else tr
    T = M.T if T is None else T
    t, i = M.index(T), M.index(p.size, "i")
    w = array(M, attr(M, tr, "ws"), (T, p.size), "weights")
    if not scaled:
        M.same_num("weights of a time solve the problem of that time", w.at(t, i), Num(p.best(*pre, t, i)), (), [*pre, t, i])
        return
    k = fresh("i", "I", p.size)
    total = mk_sum(k, p.size, p.best(*pre, t, k))         # not zero: the solution is positive, or non-negative with a weighted sum of one
    M.same_num("weights of a time are the solution of its problem scaled to sum to one", w.at(t, i), Num(div(p.best(*pre, t, i), total)), [Not(eq(total, ZERO))], [*pre, t, i])


def ratio(M, p, lim, tr=None, T=None, pre=(), sharpe=False):
    p.values([1, 2, 0.3, 0.05, 0, -0.2])
    p.sense("in")
    p.risk_objective(p.var())
    i, a = fresh("i", "I", p.N), fresh("i", "I", p.N)
    spec = [Forall(i, p.N, ge(p.x(i), ZERO)), eq(p.total(lambda i: mul(p.mu(i) if sharpe else sqrt(p.S(i, i)), p.x(i))), ONE)]
    if not sharpe:
        spec.append(Forall(a, p.N, le(p.x(a), mul(lim["upper_bound"], p.total(p.x)))))
    p.constraints(spec, "long-only weights, " + ("and the predicted mean" if sharpe else "their upper bound and the predicted volatilities' weighted sum"))
    weights(M, p, tr, T, pre, True)


def max_sharpe(M, p, lim, tr=None, T=None, pre=()):
    ratio(M, p, lim, tr, T, pre, True)


def risk_parity(M, p, lim, tr=None, T=None, pre=()):
    p.values([1, 2, 0.3, 0.05, 0.7])
    p.sense("in")
    v = p.var()
    want = add(mul(const(0.5), sqrt(v)), neg(div(p.total(lambda i: log(p.x(i))), p.N)))
    M.same_num("objective is half the predicted risk less the mean log weight", p.obj(), Num(want), [ge(v, ZERO)])
    p.constraints([], "none")
    weights(M, p, tr, T, pre, True)


def robust(M, p, lim, tr=None, T=None, pre=()):
    p.values([1, 2, -1, 0.3, -0.2, 0.05], one=True)
    p.sense("in")
    v = p.var()
    want = add(sqrt(v), mul(lim["kappa"], ipow(p.total(lambda i: mul(sqrt(p.S(i, i)), tm.tabs(p.x(i)))), 2)))
    M.same_num("objective is the predicted risk plus kappa times the squared uncertain exposure", p.obj(), Num(want), [ge(v, ZERO)])
    p.constraints([eq(p.total(p.x), ONE)] + limits(p, lim), "full investment and the limits of this run")
    weights(M, p, tr, T, pre, False)


def mean_variance(M, p, lim, tr=None, T=None, pre=()):
    p.values([1, 2, -1, 0.3, -0.2, 0.05], one=True)
    p.sense("ax")
    want = p.total(lambda i: mul(p.mu(i), p.x(i)))
    if p.rho:
        want = add(want, neg(p.total(lambda i: mul(p.rho(i), tm.tabs(p.x(i))))))
    M.same_num("objective is the predicted mean" + (" less the uncertainty" if p.rho else ""), p.obj(), Num(want))
    v = p.var()
    p.constraints([eq(p.total(p.x, p.size), ONE), le(sqrt(v), div(lim["target"], sqrt(const(252))))] + limits(p, lim),
                  "full investment with cash, the risk target and the limits of this run", [ge(v, ZERO)])
    weights(M, p, tr, T, pre, False)


KINDS = {"max_diverse": "maximum diversification", "max_sharpe": "maximum Sharpe ratio", "risk_parity": "risk parity", "robust_min_risk": "robust minimum risk", "mean_variance": "mean-variance"}
PROBLEM = {"max_diverse": ratio, "max_sharpe": max_sharpe, "risk_parity": risk_parity, "robust_min_risk": robust, "mean_variance": mean_variance}
NAMES = {"max_diverse": [("upper_bound",)], "max_sharpe": [("upper_bound",)], "risk_parity": [()], "robust_min_risk": [LIMITS, ()], "mean_variance": [LIMITS, ()]}
MEANS = ("max_sharpe", "mean_variance")
