"""Contracts of the factor models, the return predictors and the covariance errors, experiments/utils (properties C24-C26)."""
from pyvc import terms as tm
from pyvc import prove as pv
from pyvc.terms import ZERO, ONE, TRUE, FALSE, And, Or, Not, Implies, Iff, add, sub, mul, div, const, exp, log, ipow, mk_sum, fresh, ge, lt, gt, le, eq
from pyvc.values import Inst, StrV, Num, BoolV, Axis, Frame, Series, NT, Label, Arr, SymDict, DictV, ListV, NTClass, Seq, Unsupported
from pyvc import values
from pyvc.driver import Skip
from pyvc.interp import unsup
from contracts.exper2 import same_axis, weight
from contracts.exper import sqrt, trader, set_attr, attr, array, recursion, honour_positive, U, gaussian, pd_sampler, tab, table, labelled, mapping, vec

FM = "experiments.utils.factor_model:"
RC = "experiments.utils.return_combination:"
PB_ = "experiments.utils.portfolio_backtests:"


# ---------------------------------------------------------------- C24
def factor_model(M, T, N, rk, lo, n):
    """factor models at n times from lo on: exposures B (factors x assets), factor covariances S, diagonals d > 0"""
    B, S, d = M.data("B", 3), M.data("S", 3), M.data("d", 2)
    tm.symmetric["S"] = (-2, -1)
    pv.pos_apps["S"] = lambda args: args[-1] is args[-2]
    pv.pos_apps["d"] = lambda args: True
    M.data_positive.add("d")
    fx, ca = Axis("factor", ZERO, rk), Axis("asset", ZERO, N)
    cls = NTClass("FactorModel", ["time", "exposure", "factor_covariance", "diagonal"])

    def item(q):
        t = add(lo, q)
        return NT(cls, [Label("time", t), Frame(fx, ca, lambda a, i: Num(B(t, a, i))), Frame(fx, fx, lambda a, b: Num(S(t, a, b))), Series(ca, lambda i: Num(d(t, i)))])

    def Sig(t):
        def f(i, j):
            a, b = fresh("a", "I", rk), fresh("b", "I", rk)
            return add(mk_sum(a, rk, mk_sum(b, rk, mul(B(t, a, i), S(t, a, b), B(t, b, j)))), tm.ite(eq(i, j), d(t, i), ZERO))
        return f
    return M.it.new(Seq(n, item)), Sig, ca


def C24(ck):
    with ck.mode("full covariances") as M:
        T, N, rk, lo, n = M.nat("T", 1), M.nat("N", 1), M.nat("rk", 1), M.nat("lo"), M.nat("n", 1)
        M.assume(le(add(lo, n), T))
        fm, Sig, ca = factor_model(M, T, N, rk, lo, n)
        d = mapping(M, M.call(FM + "from_factor_to_full_covariance", fm), "time")
        t, i, j = fresh("t", "I"), M.index(N, "i"), M.index(N, "j")
        tm.lower_bound[t] = 0
        inside = And(ge(t, lo), lt(t, add(lo, n)))
        M.prove("one covariance for each factor model", Iff(d.axis.has(t), inside), (), [t])
        V = table(M, d.item(t), "covariance")
        M.same_num("exposures times factor covariance plus diagonal", V.at(i, j), Num(Sig(t)(i, j)), [inside], [t, i, j])
        labelled(M, "rows", V.rows, N)
        labelled(M, "columns", V.cols, N)
        M.total()
    with ck.mode("log-likelihoods of the factor models") as M:
        T, N, rk, lo, n = M.nat("T", 1), M.nat("N", 1), M.nat("rk", 1), M.nat("lo"), M.nat("n", 1)
        M.assume(le(add(lo, n), T))
        fm, Sig, ca = factor_model(M, T, N, rk, lo, n)
        r = M.data("r", 2)
        R = M.frame(Axis("time", ZERO, T), ca, lambda t, i: Num(r(t, i)))
        t = fresh("t", "I")
        tm.lower_bound[t] = 0
        inside = And(ge(t, lo), lt(t, add(lo, n)))
        M.assume(inside)
        u = add(t, ONE)
        want = gaussian(M, N, lambda i: r(u, i), lambda i: ZERO, lambda i, j: Sig(t)(i, j))
        v = M.D(M.call(FM + "factor_log_likelihood", R, fm))
        if not isinstance(v, Series) or v.axis.space != "time":
            M.add("value is a series labelled by times", "undecided", f"{v}"[:80])
            raise Skip()
        x = fresh("x", "I")
        tm.lower_bound[x] = 0
        M.prove("one value per factor model", Iff(v.axis.has(x), And(ge(x, lo), lt(x, add(lo, n)))), (), [x])
        M.same_num("value is the Gaussian log-density of the next return", v.at(t), Num(want), [lt(u, T)], [t])
        last = v.at(t)
        M.prove("no value without a next return", last.nan if isinstance(last, Num) else FALSE, [ge(u, T)], [t])
        M.total()
    factor_covariances(ck)
    constructed(ck)
    inflate(ck)


CB = "cvx.covariance.combination:"


def construct_case(memory, freq, more, k, n, pairs):
    """a run of the real construction near the given point (enough rows and assets for the estimates to exist)"""
    n = max(2, min(n, 5))
    memory, more = min(max(memory, 3 * max(1, min(k, 2, n - 1)) + 8), 40), max(1, min(more, 16))
    hs = {(round(min(max(a, 1.5), 30), 2), round(min(max(b, 5), 60), 2)): 1 for a, b in pairs[:2]}
    return dict(seed=5, T=memory + more, n=n, dist="normal", scale=0.01, index="date", cols="abc", miss=None, K=max(1, min(k, 2, n - 1)), memory=memory, freq=max(1, min(freq, 25)), more=more,
                pairs=[list(h) for h in hs], lam=0.05, lo=0, sub=False, what="construct")


def factor_covariances(ck):
    with ck.mode("factor covariances") as M:
        T, rk, K, s0 = M.nat("T", 1), M.nat("rk", 1), M.nat("K", 1), M.nat("s0")
        M.assume(le(sub(mul(const(3), rk), const(2)), s0), le(add(s0, const(2)), T))
        f, h1, h2 = M.data("f", 2), M.data("h1", 1), M.data("h2", 1)
        M.data_positive |= {"h1", "h2"}
        fx = Axis("factor", ZERO, rk)
        X = M.frame(Axis("time", ZERO, T), fx, lambda t, a: Num(f(t, a)))
        pairs = M.box(Seq(K, lambda k: (Num(h1(k)), Num(h2(k)))))
        it, seen, solved = M.it, [], []
        cls = it.lookup(it.load("cvx.covariance.ewma"), "IEWMA")
        res = it.lookup(it.load("cvx.covariance.combination"), "Result")

        def ewma(it, returns, vola_halflife, cov_halflife, min_periods_vola=None, min_periods_cov=None, **other):
            """iterated_ewma (C01-C08): one prediction for every time from the min_periods_vola + min_periods_cov - 1st row on, labelled by
            the columns; a function of the rows up to its time and the half-lives"""
            t, a, b, v, c = it.D(returns), it.D(vola_halflife), it.D(cov_halflife), it.D(min_periods_vola), it.D(min_periods_cov)
            if not isinstance(t, Frame) or not all(isinstance(x, Num) for x in (a, b, v, c)):
                return NotImplemented
            for n, x in other.items():
                x = it.D(x)
                if not (x is None or isinstance(x, BoolV) and x.t is (TRUE if n == "nan_to_num" else FALSE)):
                    return NotImplemented
            lo = add(v.r, c.r, const(-2))
            if not it.prove(And(ge(lo, ZERO), le(lo, T), ge(v.r, ONE), ge(c.r, ONE))):
                return NotImplemented
            seen.append(t)
            args = (a.r, b.r)

            def at(k):
                u = add(lo, k)
                return NT(cls, [Label("time", u), Series(fx, lambda i: Num(tm.App("pm", args + (u, i)))), Frame(fx, fx, lambda i, j: Num(tm.App("ps", args + (u, i, j)))),
                                Series(fx, lambda i: Num(tm.App("pv", args + (u, i))))])
            return it.new(Seq(sub(T, lo), at))
        it.contracts["cvx.covariance.ewma:iterated_ewma"] = ewma

        def solve(it, self, window=None, times=None, kwargs=None):
            """solve (C09-C13) of predictions at consecutive times l .. l + m - 1: one outcome for every time from l + min(window, m - 1) on,
            labelled by the assets; it combines that time's predictions with weights fitted to the window, so it is a function of
            the predictions and returns up to its time (that the solver converges is assumed: C13)"""
            g = {n: it.D(it.getattr(self, n)) for n in ("sigmas", "means", "returns")}
            w = it.D(window)
            if it.D(times) is not None or kwargs is not None and getattr(it.D(kwargs), "items", None) or not isinstance(w, Num):
                return NotImplemented
            S = g["sigmas"]
            if not isinstance(S, SymDict) or not isinstance(S.at(ZERO), SymDict):
                return NotImplemented
            k = fresh("k", "I", K)
            ax = it.affine(S.at(k).axis)
            if k in ax.off.fv or k in ax.n.fv or not it.prove(And(ge(ax.n, const(2)), ge(w.r, ONE))):
                return NotImplemented
            solved.append((g, w.r, ax))
            w = tm.tmin(w.r, sub(ax.n, ONE))

            def at(q):
                u = add(ax.off, w, q)
                return NT(res, [Label("time", u), Series(fx, lambda i: Num(tm.App("cmean", (u, i)))), Frame(fx, fx, lambda i, j: Num(tm.App("cmb", (u, i, j)))),
                                Series(S.axis, lambda k: Num(tm.App("cw", (u, k))))])
            return it.new(Seq(sub(ax.n, w), at))
        it.contracts[CB + "_CovarianceCombination.solve"] = solve
        M.case = lambda env: construct_case(20, 6, 12, int(env.ev(rk)), 4, [[float(env.ev(h1(tm.const(k)))), float(env.ev(h2(tm.const(k))))] for k in range(int(env.ev(K)))])
        out = mapping(M, M.call(FM + "construct_factor_covariance", X, pairs, Label("time", s0)), "time")
        M.add("the predictors are combined once", "discharged" if len(solved) == 1 else "undecided", str(len(solved)), by="execution")
        if len(solved) != 1 or not seen:
            raise Skip()
        g, w, ax = solved[0]
        t, a, b, k = fresh("t", "I"), M.index(rk, "a"), M.index(rk, "b"), M.index(K, "k")
        tm.lower_bound[t] = 0
        for who, x in (("the predictors", seen[-1]), ("the combination", g["returns"])):
            x = table(M, x, "factor returns")
            same_axis(M, who + " see all the rows", x.rows, Axis("time", ZERO, T))
            M.same_num(who + " see the factor returns passed in", x.at(t, a), Num(f(t, a)), [lt(t, T)], [t, a])
        S = g["sigmas"]
        M.prove("one predictor per pair of half-lives", Iff(S.axis.has(k), lt(k, K)), (), [k])
        same_axis(M, "predictions from the given time on are combined", S.at(k).axis, Axis("time", s0, sub(T, s0)))
        V = table(M, S.at(k).at(t), "prediction")
        inside = [ge(t, s0), lt(t, T)]
        scale = add(ONE, tm.ite(And(eq(k, ZERO), eq(a, b)), const("0.05"), ZERO))
        M.same_num("iterated EWMA predictions, the first predictor's variances raised by 5%", V.at(a, b),
                   Num(mul(scale, tm.App("ps", (h1(k), h2(k), t, a, b)))), inside, [t, a, b, k])
        m = g["means"]
        z = M.D(M.D(m.at(k)).at(t)) if isinstance(m, SymDict) else None
        if not isinstance(z, (Arr, Series)):
            M.add("no means", "undecided", str(m)[:80])
            raise Skip()
        M.same_num("no means", z.at(a), Num(ZERO), inside, [t, a, k])
        M.prove("window of ten returns", eq(w, const(10)))
        first = add(s0, tm.tmin(const(10), sub(T, add(s0, ONE))))
        M.prove("one covariance for every time a window is complete at", Iff(out.axis.has(t), And(ge(t, first), lt(t, T))), (), [t])
        V = table(M, out.item(t), "covariance")
        M.same_num("covariance of a time is the combined one", V.at(a, b), Num(tm.App("cmb", (t, a, b))), [ge(t, first), lt(t, T)], [t, a, b])
        M.total()


def constructed(ck):
    with ck.mode("constructed factor models") as M:
        mem, L, N, rk, fr, K = M.nat("memory", 10), M.nat("L", 1), M.nat("N", 1), M.nat("rk", 1), M.nat("freq", 1), M.nat("K", 1)
        T, lo = add(mem, L), sub(mul(const(3), rk), const(2))        # lo: first time factor returns have iterated EWMAs
        M.assume(ge(mem, add(lo, const(10))))
        r, h1, h2 = M.data("r", 2), M.data("h1", 1), M.data("h2", 1)
        M.data_positive |= {"h1", "h2"}
        aa, fx = Axis("asset", ZERO, N), Axis("factor", ZERO, rk)
        R = M.frame(Axis("time", ZERO, T), aa, lambda t, i: Num(r(t, i)))
        pairs = M.box(Seq(K, lambda k: (Num(h1(k)), Num(h2(k)))))
        it, trained, built = M.it, [], []
        B = lambda at, a, i: tm.App("pc", at + (a, i))

        def pca(it, returns, n_components=None, **other):
            """cvx.linalg.pca (assumed): the exposures are a function of the table and the number of components"""
            t = it.D(returns)
            if other or not isinstance(t, Frame):
                return NotImplemented
            ax = it.affine(t.rows)
            trained.append((t, it.D(n_components)))
            return NT(NTClass("PCA", ["exposure"]), [Frame(fx, aa, lambda a, i: Num(B((ax.off, ax.n), a, i)))])
        it.contracts["cvx.linalg:pca"] = pca
        M.case = lambda env: construct_case(int(env.ev(mem)), int(env.ev(fr)), int(env.ev(L)), int(env.ev(rk)), int(env.ev(N)), [[float(env.ev(h1(tm.const(k)))), float(env.ev(h2(tm.const(k))))] for k in range(int(env.ev(K)))])

        def cov(it, factors, cm_iewma_pairs, start_date):
            """construct_factor_covariance (mode above): one covariance for every time from the start + min(10, rows after it) to the last
            row; a function of the start and the factor returns up to its time"""
            t, s = it.D(factors), it.D(start_date)
            if not isinstance(t, Frame) or not isinstance(s, Label) or it.D(cm_iewma_pairs) is not it.D(pairs):
                return NotImplemented
            ax = it.affine(t.rows)
            end = add(ax.off, ax.n)
            if not it.prove(And(eq(ax.off, ZERO), ge(s.t, lo), le(add(s.t, const(2)), end))):
                return NotImplemented
            built.append((t, s.t, end))
            first = add(s.t, tm.tmin(const(10), sub(end, add(s.t, ONE))))
            return it.new(SymDict(Axis("time", first, sub(end, first)), lambda u: Frame(fx, fx, lambda a, b: Num(tm.App("fc", (s.t, u, a, b))))))
        it.contracts[FM + "construct_factor_covariance"] = cov
        out = M.D(M.call(FM + "construct_cmiewma_factor_model", R, Num(rk), pairs, Num(fr), Num(mem)))
        if getattr(out, "kind", "") != "blocks":
            raise Unsupported("factor models that are not yielded by updates")
        n = out.seq.n
        b, q = M.index(n, "b"), fresh("q", "I")
        tm.lower_bound[q] = 0
        t = add(mem, mul(b, fr))        # time of the b-th update
        M.prove("updates every `update_frequency` times, none after the end", lt(t, T), (), [b])
        M.prove("updates reach the end", ge(add(mem, mul(n, fr)), T))
        blk = out.seq.at(b)
        if not isinstance(blk, Seq) or not blk.full():
            raise Unsupported("factor models of an update")
        cnt = tm.tmin(fr, sub(T, t))
        M.prove("one factor model for every time up to the next update", eq(blk.n, cnt), (), [b])
        M.it.hyps += [ge(q, ZERO), lt(q, cnt)]
        m = blk.at(q)
        if not isinstance(m, NT) or tuple(m.cls.fields) != ("time", "exposure", "factor_covariance", "diagonal"):
            raise Unsupported("factor model")
        time, expo, fcov, diag = (M.D(x) for x in m.vals)
        u = add(t, q)
        M.prove("labelled by its time", eq(time.t, u) if isinstance(time, Label) and time.space == "time" else FALSE, (), [b, q])
        a, c, i, s = M.index(rk, "a"), M.index(rk, "a"), M.index(N, "i"), M.index(T, "s")
        E = lambda a, i: B((sub(t, mem), mem), a, i)
        expo = table(M, expo, "exposures")
        M.same_num("exposures are the principal components of the `memory` returns before the update", expo.at(a, i), Num(E(a, i)), (), [b, q, a, i])
        labelled(M, "exposures", expo.cols, N)
        (x, nc), = trained[-1:]
        j = next((v for v in it.affine(x.rows).off.fv if v.args[0].startswith("j!")), b)
        M.it.hyps += [ge(j, ZERO), lt(j, n)]
        tj = add(mem, mul(j, fr))
        same_axis(M, "principal components of the `memory` returns before the update", x.rows, Axis("time", sub(tj, mem), mem))
        labelled(M, "principal components", x.cols, N)
        M.same_num("principal components of the returns", x.at(s, i), Num(r(s, i)), (), [j, s, i])
        M.same_num("as many components as asked for", nc, Num(rk))
        (x, start, end), = built[-1:]
        o = fresh("i", "I", N)
        EJ = lambda a, i: B((sub(tj, mem), mem), a, i)
        M.same_num("factor returns are the returns weighted by the exposures", x.at(s, a), Num(mk_sum(o, N, mul(r(s, o), EJ(a, o)))), (), [j, s, a])
        M.prove("factor covariances start ten returns before the update", eq(start, sub(tj, const(10))), (), [j])
        M.prove("factor returns up to the next update", eq(end, tm.tmin(add(tj, fr), T)), (), [j])
        fcov = table(M, fcov, "factor covariance")
        M.same_num("factor covariance is the combined one of its time", fcov.at(a, c), Num(tm.App("fc", (sub(t, const(10)), u, a, c))), (), [b, q, a, c])
        if not isinstance(diag, Series):
            raise Unsupported("residual variances")
        v, z = fresh("s", "I", add(u, ONE)), fresh("s", "I", add(u, ONE))

        def rest(s):
            f, o = fresh("a", "I", rk), fresh("i", "I", N)
            return sub(r(s, i), mk_sum(f, rk, mul(mk_sum(o, N, mul(r(s, o), E(f, o))), E(f, i))))
        w = lambda s: weight(const(21), sub(u, s))
        M.same_num("residual variances average the squared residuals so far, the weights halving every 21 returns", diag.at(i),
                   Num(div(mk_sum(v, add(u, ONE), mul(w(v), ipow(rest(v), 2))), mk_sum(z, add(u, ONE), w(z)))), (), [b, q, i])
        M.depends("reads returns up to its time only", [expo.at(a, i), fcov.at(a, c), diag.at(i)],
                  lambda n, ix: le(ix[0], u) if n == "r" else lt(add(ix[0], ix[1]), add(u, ONE)) if n == "pc" else le(ix[1], u) if n == "fc" else None, (), (), [b, q, a, c, i])
        M.total()


def inflate(ck):
    with ck.mode("inflated variances") as M:
        T, N, lo, n, lam = M.nat("T", 1), M.nat("N", 1), M.nat("lo"), M.nat("n", 1), M.pos("lam")
        S = M.data("S", 3)
        aa, ta = Axis("asset", ZERO, N), Axis("time", lo, n)
        d = mapping(M, M.call(U + "add_to_diagonal", M.box(SymDict(ta, lambda t: Frame(aa, aa, lambda i, j: Num(S(t, i, j)))), input=False), Num(lam)), "time")
        t, i, j = fresh("t", "I"), M.index(N, "i"), M.index(N, "j")
        tm.lower_bound[t] = 0
        inside = And(ge(t, lo), lt(t, add(lo, n)))
        M.prove("one covariance for each one given", Iff(d.axis.has(t), inside), (), [t])
        V = table(M, d.item(t), "covariance")
        M.same_num("variances are raised by the factor, covariances kept", V.at(i, j), Num(mul(S(t, i, j), add(ONE, tm.ite(eq(i, j), lam, ZERO)))), [inside], [t, i, j])
        labelled(M, "rows", V.rows, N)
        labelled(M, "columns", V.cols, N)
        M.total()


# ---------------------------------------------------------------- C25
def numbers(M, name, space, n, integer=False):
    """a list of n distinct numbers (lags, half-lives), used as labels of the result"""
    L = M.data(name, 1, "I" if integer else "R")
    pv.pos_apps[name] = lambda args: True
    M.data_positive.add(name)
    values.number_labels[space] = lambda p: Num(L(p))
    return L, M.it.new(Seq(n, lambda q: Label(space, q)))


def C25(ck):
    with ck.mode("daily predictors") as M:
        T, n = M.nat("T", 1), M.nat("n", 1)
        r = M.data("r", 1)
        R = M.box(Series(Axis("time", ZERO, T), lambda t: Num(r(t))))
        L, lags = numbers(M, "L", "lag", n, True)
        f = table(M, M.call(RC + "daily_predictors", R, lags))
        M.case = lambda env: dict(what="daily", seed=0, r=tab(env, "r", T), lags=list(dict.fromkeys(int(x) for x in tab(env, "L", n))))
        t, k = M.index(T), M.index(n, "k")
        M.same_num("column of a lag is the return that many rows earlier", f.at(t, k), Num(r(sub(t, L(k))), lt(t, L(k))), (), [t, k])
        M.total()
    with ck.mode("exponentially weighted predictors") as M:
        T, n = M.nat("T", 1), M.nat("n", 1)
        r = M.data("r", 1)
        R = M.box(Series(Axis("time", ZERO, T), lambda t: Num(r(t))))
        h, hs = numbers(M, "h", "halflife", n)
        f = table(M, M.call(RC + "ewma_predictors", R, hs))
        M.case = lambda env: dict(what="ewma", seed=0, r=tab(env, "r", T), hs=list(dict.fromkeys(float(x) for x in tab(env, "h", n))))
        t, k = M.index(T), M.index(n, "k")
        same_axis(M, "one row for every time after the first", f.rows, Axis("time", ONE, sub(T, ONE)))
        s, u = fresh("s", "I", t), fresh("s", "I", t)
        w = lambda s: weight(h(k), sub(sub(t, ONE), s))
        M.same_num("average of the earlier returns, the weights halving every half-life", f.at(t, k), Num(div(mk_sum(s, t, mul(w(s), r(s))), mk_sum(u, t, w(u)))), [ge(t, ONE)], [t, k])
        M.depends("reads earlier returns only", [f.at(t, k)], lambda x, ix: lt(ix[0], t) if x == "r" else None, (), [ge(t, ONE)], [t, k])
        M.total()
    with ck.mode("split into positive and negative parts") as M:
        T, K = M.nat("T", 1), M.nat("K", 1)
        p = M.data("p", 2)
        P = M.frame(Axis("time", ZERO, T), Axis("pred", ZERO, K), lambda t, k: Num(p(t, k)))
        f = table(M, M.call(RC + "feature_engineer", P))
        t, k = M.index(T), M.index(K, "k")
        M.case = lambda env: dict(what="parts", seed=0, r=[0.0] * int(env.ev(T)), K=int(env.ev(K)), P=tab(env, "p", T, K))
        x = p(t, k)
        M.prove("twice the columns", eq(M.it.affine(f.cols).n, mul(const(2), K)))
        same_axis(M, "rows of the forecasts", f.rows, Axis("time", ZERO, T))
        o = M.it.affine(f.cols).off
        M.same_num("first the positive parts", f.at(t, add(o, k)), Num(tm.ite(lt(x, ZERO), ZERO, x)), (), [t, k])
        M.same_num("then the negative parts", f.at(t, add(o, K, k)), Num(tm.ite(gt(x, ZERO), ZERO, x)), (), [t, k])
        M.total()
    lasso_modes(ck)


def lasso_problem(M, rec, K, m, y, X, al):
    """the recorded problem minimises |y - X w|^2 + al |w|_1 over w, without constraints; returns the names of its solution"""
    if len(rec["vars"]) != 1 or len(rec["vars"][0][2]) != 1:
        M.add("one vector variable", "undecided", str(rec["vars"])[:80])
        raise Skip()
    (xn, am, shape), = rec["vars"]
    M.add("the problem is a minimisation", "discharged" if rec["sense"] == "min" else "refuted", rec["sense"], by="execution")
    M.add("the problem has no constraints", "refuted" if rec["cons"] else "discharged", "", by="execution")
    w = lambda k: tm.App(xn, (k,))
    s, k, l = fresh("s", "I", m), fresh("k", "I", K), fresh("k", "I", K)
    want = add(mk_sum(s, m, ipow(sub(y(s), mk_sum(k, K, mul(X(s, k), w(k)))), 2)), mul(al, mk_sum(l, K, tm.tabs(w(l)))))
    M.same_num("objective is the squared error over the preceding rows plus the penalty", rec["obj"].at(), Num(want), (), [])
    return am


def lasso_modes(ck):
    for which in ("function", "class"):
        with ck.mode("lasso combination, " + which) as M:
            m, L, K, al = M.nat("m", 1), M.nat("L", 1), M.nat("K", 1), M.pos("alpha")
            T = add(m, L)
            lead, trail = (ZERO, ZERO) if which == "function" else (M.nat("lead"), M.nat("trail"))
            p, r = M.data("p", 2), M.data("r", 1)
            rows, cols = Axis("time", lead, T), Axis("pred", ZERO, K)
            P = M.frame(rows, cols, lambda t, k: Num(p(t, k)))
            R = M.box(Series(Axis("time", ZERO, add(lead, T, trail)), lambda t: Num(r(t))))
            if which == "function":
                out = M.call(RC + "ewma_return_combination", R, P, Num(al), Num(m))
            else:
                cb = M.call(RC + "ReturnCombinatorOld")
                M.it.call_method(cb, "build", [Num(m), Num(K), Num(al)], {})
                M.fn = RC + "ReturnCombinatorOld.fit"
                out = M.it.call_method(cb, "fit", [R, P], {})
            hat, ws = M.it.unpack(out, 2)
            (rec,) = M.it.solves
            (j, n, pres), = rec["loops"]
            off = lead if which == "function" else lead
            M.it.hyps += [ge(j, ZERO), lt(j, n)]
            t0 = add(lead, m, j)
            am = lasso_problem(M, rec, K, m, lambda s: r(add(sub(t0, m), s)), lambda s, k: p(add(sub(t0, m), s), k), al)
            W = table(M, ws, "weights")
            i, k = M.index(L), M.index(K, "k")
            t = add(lead, m, i)
            M.same_num("weights of a time solve the problem of that time", W.at(t, k), Num(tm.App(am, (i, k))), (), [i, k])
            same_axis(M, "weights: one row for every time after the first `memory` ones", W.rows, Axis("time", add(lead, m), L))
            h = M.D(hat)
            q = fresh("k", "I", K)
            M.same_num("combined forecast is the weighted sum of that time's forecasts", h.at(t), Num(mk_sum(q, K, mul(p(t, q), tm.App(am, (i, q))))), (), [i])
            same_axis(M, "forecasts: one row for every time after the first `memory` ones", h.axis, Axis("time", add(lead, m), L))
            M.total(allow=("SolverError",))


# ---------------------------------------------------------------- C26
TM = "experiments.utils.trading_model:"


def spread(x, T):
    """root mean squared deviation of x(0..T-1) from its mean"""
    a, b = fresh("s", "I", T), fresh("s", "I", T)
    mean = div(mk_sum(a, T, x(a)), T)
    return sqrt(div(mk_sum(b, T, ipow(sub(x(b), mean), 2)), T))


def mean_of(x, T):
    s = fresh("s", "I", T)
    return div(mk_sum(s, T, x(s)), T)


def path(ret):
    """value of one compounding the returns"""
    k = fresh("k", "I")
    return recursion(k, ONE, lambda x: mul(x, add(ONE, ret(sub(k, ONE)))))


def positive_path(M, ret):
    """the value path of returns above -1 is positive (induction; what the contract of compute_max_drawdown, C19, requires)"""
    k = fresh("k", "I")
    tm.lower_bound[k] = 1
    x, g = M.real("x"), add(ONE, ret(sub(k, ONE)))
    M.prove("the path starts positive", gt(ONE, ZERO))
    M.prove("the path stays positive when no return is a total loss", gt(mul(x, g), ZERO), [gt(x, ZERO), gt(g, ZERO)], [k])


def drawdown_contract(M):
    """compute_max_drawdown reads the value path only and returns a number (what number: C19); the paths it is called on are recorded"""
    seen = []

    def contract(it, self):
        seen.append(it.getattr(self, "Vs"))
        return Num(tm.Var("drawdown!", "R"))
    M.it.contracts[TM + "Trader.compute_max_drawdown"] = contract
    return seen


def tables(ck):
    """create_table: every strategy's own figures under its own name, for any number of strategies and any position of PRESCIENT among them"""
    for best, target in ((False, "target"), (True, "target"), (False, "cash"), (True, "cash")):
        with ck.mode(f"table, {'with' if best else 'without'} PRESCIENT, {target}") as M:
            T, N, J, sd, b = M.nat("T", 2), M.nat("N", 1), M.nat("J", 1), M.pos("sd"), M.nat("b")
            if best:
                M.assume(lt(b, J))
            tr = M.D(trader(M, T, N)[2])
            ident, f = M.data("id", 1), M.data("rf", 1)
            rf = M.box(Series(Axis("time", ZERO, T), lambda t: Num(f(t))))
            F = {x: M.data(x, 1) for x in ("mean_return", "risk", "sharpe", "drawdown")}
            cls = NTClass("metrics", tuple(F))

            def contract(it, self, diluted_with_cash, sigma_des, rf, excess):
                """contract of get_metrics (proved in the other modes); the strategy is known by the mark it carries"""
                k = it.D(it.getattr(self, "ident")).r
                if k.op != "app" or k.args[0] != "id":
                    return NotImplemented
                M.prove("diluted with cash if there is a target", Iff(truth(M, it.D(diluted_with_cash)), TRUE if target == "target" else FALSE))
                if target == "target":
                    M.same_num("at the target risk", it.D(sigma_des), Num(sd))
                M.prove("excess returns as asked", truth(M, it.D(excess)))
                got = M.D(rf) if rf is not None else None
                if isinstance(got, Series):
                    t = M.index(T)
                    M.same_num("with the cash rate given", got.at(t), Num(f(t)), (), [t])
                else:
                    M.add("with the cash rate given", "undecided", str(got)[:60])
                return NT(cls, [Num(F[x](k.args[1][0])) for x in cls.fields])
            M.it.contracts[TM + "Trader.get_metrics"] = contract
            M.it.printed = [M.it.new(ListV(()))]
            M.it.named = {"strategy": {"PRESCIENT": b if best else None}}
            M.fn = PB_ + "create_table"
            M.case = lambda env: dict(what="table", seed=0, n=2, T=5, target=target == "target",
                                      names=[("PRESCIENT" if best and q == int(env.ev(b)) else f"S{q}") for q in range(min(12, int(env.ev(J))))])
            M.call(PB_ + "create_table", M.box(SymDict(Axis("strategy", ZERO, J), lambda q: Inst(tr.cls, dict(tr.attrs, ident=Num(ident(q)))))),
                   Num(sd) if target == "target" else None, rf, BoolV(TRUE), BoolV(TRUE if best else FALSE))
            q = M.index(J, "q")
            loops, single = [], []
            for x in M.it.printed:
                if isinstance(x, list):
                    if any(not isinstance(p, str) for p in x) or any("PRESCIENT" in p for p in x):
                        single.append((len(loops), join_text(x)))
                else:
                    s = M.D(x)
                    if isinstance(s, Seq):
                        loops.append(s)
                    elif not (isinstance(s, ListV) and not s.items):
                        unsup(f"lines printed by {type(s).__name__}")
            M.add("one row per strategy, PRESCIENT last", "discharged" if len(loops) == 1 and len(single) == best and all(k for k, _ in single) else "undecided", f"{len(loops)} loops, {len(single)} rows", by="execution")
            if len(loops) != 1 or len(single) != best:
                raise Skip()
            s = loops[0]
            M.prove("rows in the order of the strategies", eq(s.n, J))
            M.prove("a row for every strategy but PRESCIENT", Iff(s.present(q), Not(eq(q, b)) if best else TRUE))
            one_row(M, join_text(M.D(s.at(q)).parts), q, F, [Not(eq(q, b))] if best else [], [q])
            for _, row in single:
                one_row(M, row, b, F, [], [])
            M.total()


def one_row(M, row, q, F, hyps, vars_):
    """name & return & risk & Sharpe ratio & drawdown"""
    names = [p for p in row if isinstance(p, Label)]
    vals = [p for p in row if isinstance(p, StrV)]
    text = "".join(p if isinstance(p, str) else "#" if isinstance(p, Label) else "{}" for p in row)
    cells = [x.strip() for x in text.rstrip("\\ ").split("&")]
    ok = len(vals) == 4 and len(names) + len(vals) + sum(isinstance(p, str) for p in row) == len(row) and cells == ["#" if names else "PRESCIENT", "{}\\%", "{}\\%", "{}", "{}\\%"]
    M.add("row of a strategy: its name and four figures", "discharged" if ok else "undecided", text[:100], by="execution")
    if not ok:
        raise Skip()
    if names:
        M.prove("row carries the strategy's own name", Implies(And(*hyps), eq(names[0].t, q)))
    for p, x, sp, sc in zip(vals, F, ("\0fmt:.1f", "\0fmt:.1f", "\0fmt:.1f", "\0fmt:.0f"), (100, 100, 1, 100)):
        M.add("figure rounded as before", "discharged" if p.parts[0] == sp else "undecided", p.parts[0][1:], by="execution")
        M.same_num(f"{x.replace('_', ' ')} of the strategy itself", M.D(p.parts[1]), Num(mul(const(sc), F[x](q))), hyps, vars_)


def join_text(line):
    """text, names and formatted figures of a printed line"""
    out = []
    for p in line:
        if isinstance(p, StrV) and not (p.parts and isinstance(p.parts[0], str) and p.parts[0].startswith("\0fmt:")):
            xs = join_text(p.parts)      # a text built before
        else:
            xs = [p]
        for x in xs:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
    return out


def truth(M, v):
    return v.t if isinstance(v, BoolV) else TRUE if v is True else FALSE if v is False else M.it.truth(v)


def C26(ck):
    for kind in ("no cash", "cash, zero rate", "cash", "excess"):
        with ck.mode("metrics, " + kind) as M:
            T, N, af = M.nat("T", 2), M.nat("N", 1), M.pos("af")
            r, S, tr = trader(M, T, N)
            cash = kind != "no cash"
            w, W = vec(M, "w", T, add(N, ONE) if cash else N)
            f = M.data("rf", 1)
            set_attr(M, tr, ws=W, portfolio_type="vol_cont" if cash else "min_risk", adjust_factor=Num(af))
            kw = {}
            if kind in ("cash", "excess"):
                kw["rf"] = M.box(Series(Axis("time", ZERO, T), lambda t: Num(f(t))))
            if kind == "excess":
                kw["excess"] = BoolV(TRUE)
            M.fn = TM + "Trader.get_metrics"
            M.case = lambda env: dict(what="metrics", seed=0, R=tab(env, "r", T, N), W=tab(env, "w", T, add(N, ONE) if cash else N), rfs=tab(env, "rf", T), cash=cash, rf=kind in ("cash", "excess"),
                                      excess=kind == "excess", dil=False, af=float(env.ev(af)), sd=0.1, nd=2)
            seen = drawdown_contract(M)
            v = M.D(M.it.call_method(tr, "get_metrics", [], kw))

            def ret(t):
                i = fresh("i", "I", N)
                x = mk_sum(i, N, mul(w(t, i), r(t, i)))
                if "rf" in kw:
                    x = add(x, mul(w(t, N), f(t)))
                return div(x, af)
            mean = mul(const(252), mean_of((lambda t: sub(ret(t), f(t))) if kind == "excess" else ret, T))
            risk = mul(sqrt(const(252)), spread(ret, T))
            got = {n: M.D(x) for n, x in zip(v.cls.fields, v.vals)}
            M.same_num("mean annual return", got["mean_return"], Num(mean))
            M.same_num("annual risk", got["risk"], Num(risk))
            M.same_num("Sharpe ratio is mean over risk", got["sharpe"], Num(div(mean, risk)), [gt(risk, ZERO)])
            M.add("drawdown is computed once", "discharged" if len(seen) == 1 else "undecided", str(len(seen)), by="execution")
            if len(seen) != 1:
                raise Skip()
            V = array(M, seen[0], (T, ONE), "value path")
            X = path(ret)
            t = M.index(T)
            M.same_rec("drawdown of the path compounding the returns", V.at(t, ZERO), Num(X(add(t, ONE))), (), [t])
            M.same_num("drawdown is reported", got["drawdown"], Num(tm.Var("drawdown!", "R")))
            positive_path(M, ret)
            M.total()
    tables(ck)
    with ck.mode("returns at a given risk") as M:
        T, N, sd = M.nat("T", 2), M.nat("N", 1), M.pos("sd")
        r, S, tr = trader(M, T, N)
        g, rets = vec(M, "g", T, ONE)
        set_attr(M, tr, rets=rets)
        M.fn = TM + "Trader.get_risk_adj_returns"
        M.case = lambda env: dict(what="risk", seed=0, R=tab(env, "r", T, N), g=tab(env, "g", T, ONE), af=1.0, sd=float(env.ev(sd)))
        M.it.call_method(tr, "get_risk_adj_returns", [Num(sd)], {})
        a = array(M, attr(M, tr, "rets_adjusted"), (T, ONE), "adjusted returns")
        t, k = M.index(T), M.index(T, "u")
        risk = spread(lambda t: g(t, ZERO), T)
        M.same_num("returns scaled to the given annual risk", a.at(t, ZERO), Num(mul(div(sd, mul(sqrt(const(252)), risk)), g(t, ZERO))), [gt(risk, ZERO)], [t])
        M.total()
    with ck.mode("value path at a given risk") as M:
        T, N, sd, af = M.nat("T", 2), M.nat("N", 1), M.pos("sd"), M.pos("af")
        r, S, tr = trader(M, T, N)
        g, rets = vec(M, "g", T, ONE)
        risk = spread(lambda t: g(t, ZERO), T)
        M.assume(gt(risk, ZERO))
        set_attr(M, tr, rets=rets, adjust_factor=Num(af))
        M.fn = TM + "Trader.get_risk_adj_portfolio_growth"
        M.case = lambda env: dict(what="growth", seed=0, R=tab(env, "r", T, N), g=tab(env, "g", T, ONE), af=float(env.ev(af)), sd=float(env.ev(sd)))
        M.it.call_method(tr, "get_risk_adj_portfolio_growth", [Num(sd)], {})
        V = array(M, attr(M, tr, "Vs_adjusted"), (T, ONE), "value path")
        t = M.index(T)
        X = path(lambda t: div(mul(sd, g(t, ZERO)), mul(sqrt(const(252)), risk, af)))
        M.same_rec("path compounding the adjusted returns", V.at(t, ZERO), Num(X(add(t, ONE))), (), [t])
        M.total()
    with ck.mode("forecast uncertainty") as M:
        T, N, nd = M.nat("T", 1), M.nat("N", 1), M.pos("nd")
        r = M.data("r", 2)
        R = M.frame(Axis("time", ZERO, T), Axis("asset", ZERO, N), lambda t, i: Num(r(t, i)))
        M.case = lambda env: dict(what="rho", seed=0, R=tab(env, "r", T, N), nd=float(env.ev(nd)))
        f = table(M, M.call(TM + "construct_rho", R, Num(nd)))
        same_axis(M, "rows of the returns", f.rows, Axis("time", ZERO, T))
        labelled(M, "columns", f.cols, N)
        t, i = M.index(T), M.index(N, "i")
        s, u, v, q = (fresh("s", "I", t) for _ in range(4))
        w = lambda s: weight(const(125), sub(sub(t, ONE), s))
        tot = mk_sum(u, t, w(u))
        mean = div(mk_sum(s, t, mul(w(s), r(s, i))), tot)
        dev = sub(r(v, i), mean)
        var = div(mul(tot, mk_sum(v, t, mul(w(v), dev, dev))), sub(ipow(tot, 2), mk_sum(q, t, ipow(w(q), 2))))
        M.same_num("multiple of the exponentially weighted deviation of the earlier returns", f.at(t, i), Num(mul(nd, sqrt(var))), [ge(t, const(2))], [t, i])
        M.same_num("zero before two returns are known", f.at(t, i), Num(ZERO), [lt(t, const(2))], [t, i])
        M.depends("reads earlier returns only", [f.at(t, i)], lambda x, ix: lt(ix[0], t) if x == "r" else None, (), (), [t, i])
        M.total()
    with ck.mode("squared error of covariances") as M:
        T, N, lo, n = M.nat("T", 1), M.nat("N", 1), M.nat("lo"), M.nat("n", 1)
        M.assume(lt(add(lo, n), T))
        r, S = M.data("r", 2), M.data("S", 3)
        aa = Axis("asset", ZERO, N)
        R = M.frame(Axis("time", ZERO, T), aa, lambda t, i: Num(r(t, i)))
        Sig = M.box(SymDict(Axis("time", lo, n), lambda t: Frame(aa, aa, lambda i, j: Num(S(t, i, j)))))
        v = M.D(M.call(U + "MSE", R, Sig))
        if not isinstance(v, Series):
            M.add("value is a series", "undecided", str(v)[:80])
            raise Skip()
        same_axis(M, "one value per covariance", v.axis, Axis("time", lo, n))
        t = fresh("t", "I")
        tm.lower_bound[t] = 0
        i, j = fresh("i", "I", N), fresh("j", "I", N)
        u = add(t, ONE)
        d = sub(S(t, i, j), mul(r(u, i), r(u, j)))
        M.same_num("squared distance to the outer product of the next return", v.at(t), Num(mk_sum(i, N, mk_sum(j, N, mul(d, d)))), [ge(t, lo), lt(t, add(lo, n))], [t])
        M.total()
