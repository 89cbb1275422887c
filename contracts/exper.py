"""Contracts of the experiment utilities, experiments/utils (properties C16-C23)."""
from pyvc import terms as tm
from pyvc import prove as pv
from pyvc import lib_np
from pyvc.terms import (ZERO, ONE, TRUE, FALSE, And, Or, Not, Forall, Exists, Implies, add, sub, mul, div, const, exp, log, ipow, mk_sum,
                        fresh, eq0, ge, lt, gt, le, eq, App, sqrt, Iff)
from pyvc.values import unsup, Num, BoolV, Axis, Frame, Series, Ref, Seq, NT, Label, Arr, SymDict, NTClass
from pyvc.driver import Skip, equal, sequence
from pyvc import numeval as ne
from pyvc import interp as ip

U = "experiments.utils.experiment_utils:"
HALF = div(ONE, const(2))
tri = lambda n: mul(HALF, n, add(n, ONE))


def array(M, v, shape, what="value"):
    a = M.D(v)
    if not isinstance(a, Arr) or a.ndim != len(shape):
        M.add(f"{what} is an array of {len(shape)} dimensions", "undecided", type(a).__name__)
        raise Skip()
    for k, (x, y) in enumerate(zip(a.shape, shape)):
        M.prove(f"{what}: size of dimension {k}", eq(x, y))
    return a


def recursion(k, init, step):
    """X(0) = init, X(k) = step(X(k-1))"""
    ph = f"sp!{next(tm._fresh)}"
    tm.lower_bound[k] = 1
    f = ip.make_rec(k, [], init, step(tm._app(ph, (), "R")), ph)
    return lambda kt: f(kt, ())


def whole_numbers(M, rng, small):
    """sample with small integers as data, so that floating-point evaluation is exact"""
    env = M.sample(rng, small)
    sd = rng.random()
    for n in M.funs:
        env.funs[n] = lambda *ix, n=n: __import__("random").Random(f"{sd}{n}{ix}").randint(-3, 3)
    return env


def vec(M, name, *dims, positive=False):
    f = M.data(name, len(dims))
    return f, M.box(Arr(dims, lambda *i: Num(f(*i))))


def mapping(M, v, space):
    """a dictionary keyed by labels of a space"""
    d = M.D(v)
    if not isinstance(d, SymDict) or d.axis.space != space:
        M.add(f"result is a dictionary keyed by {space}", "undecided", type(d).__name__)
        raise Skip()
    d.item = lambda k: M.D(d.fn(k))
    return d


def table(M, v, what="value"):
    f = M.D(v)
    if not isinstance(f, Frame):
        M.add(f"{what} is a table", "undecided", type(f).__name__)
        raise Skip()
    return f


def labelled(M, what, ax, N, space="asset"):
    l = fresh("l", "I")
    tm.lower_bound[l] = 0
    if ax.space != space:
        M.add(f"{what} labelled by the {space}s", "undecided", f"labels of {ax.space}")
        raise Skip()
    return M.prove(f"{what} labelled by the {space}s in order", Iff(ax.has(l), lt(l, N)), (), [l])


# ---------------------------------------------------------------- C22
def packed(n, i, j):
    """position of entry (i, j), i <= j, in the upper triangle read row by row: n + (n-1) + ... + (n-i+1) + (j-i)"""
    return add(mul(i, n), tm.neg(tri(sub(i, ONE))), sub(j, i))


def C22(ck):
    with ck.mode("one row") as M:
        n = M.nat("n", 1)
        L = tri(n)
        R, row = vec(M, "R", L)
        M.case = lambda env: dict(what="row", n=int(env.ev(n)), rows=[[float(env.funs["R"](p)) for p in range(int(env.ev(L)))]])
        a = array(M, M.call(U + "from_row_to_covariance", row, Num(n)), (n, n))
        i, j = M.index(n, "i"), M.index(n, "j")
        M.same_num("upper triangle, read row by row, is the row", a.at(i, j), Num(R(packed(n, i, j))), [le(i, j)], [i, j])
        M.same_num("symmetric", a.at(i, j), a.at(j, i), (), [i, j])
        M.reachable("inputs")
        M.total()
    with ck.mode("table of rows") as M:
        T, n = M.nat("T", 1), M.nat("n", 1)
        L = tri(n)
        R, rows = vec(M, "R", T, L)
        M.case = lambda env: dict(what="row", n=int(env.ev(n)), rows=[[float(env.funs["R"](t, p)) for p in range(int(env.ev(L)))] for t in range(int(env.ev(T)))])
        a = array(M, M.call(U + "from_row_matrix_to_covariance", rows, Num(n)), (T, n, n))
        t, i, j = M.index(T, "t"), M.index(n, "i"), M.index(n, "j")
        M.same_num("row t gives matrix t: upper triangle is the row", a.at(t, i, j), Num(R(t, packed(n, i, j))), [le(i, j)], [t, i, j])
        M.same_num("matrix t is symmetric", a.at(t, i, j), a.at(t, j, i), (), [t, i, j])
        M.total()


# ---------------------------------------------------------------- C17
def C17(ck):
    for mp in (0, 1):
        with ck.mode("rolling window" + (", warm-up zero" if not mp else "")) as M:
            T, N, mem = M.nat("T", 1), M.nat("N", 1), M.nat("mem", 1)
            m = M.nat("m", 1) if mp else ZERO
            s = sub(m, ONE) if mp else ZERO
            r = M.data("r", 2)
            R = M.frame(Axis("time", ZERO, T), Axis("asset", ZERO, N), lambda t, i: Num(r(t, i)))
            M.case = lambda env: dict(what="table", memory=int(env.ev(mem)), m=int(env.ev(m)),
                                      X=[[float(env.funs["r"](t, i)) for i in range(int(env.ev(N)))] for t in range(int(env.ev(T)))])
            M.samplers = [lambda rng, small: whole_numbers(M, rng, small)]
            d = mapping(M, M.call(U + "rolling_window", R, Num(mem), min_periods=Num(m)), "time")
            t, i, j = M.index(T, "t"), M.index(N, "i"), M.index(N, "j")
            M.prove("one covariance for every time after the warm-up, no other", Iff(d.axis.has(t), ge(t, s)), (), [t])
            f = table(M, d.item(t))
            labelled(M, "rows", f.rows, N)
            labelled(M, "columns", f.cols, N)
            M.reachable("inputs", ge(t, s), [t])

            def want(t):
                n = tm.tmin(add(t, ONE), mem)
                q = fresh("q", "I", n)
                return div(mk_sum(q, n, mul(r(sub(t, q), i), r(sub(t, q), j))), n)
            u = fresh("u", "I")
            tm.lower_bound[u] = 0
            M.induct("average over exactly the window", lambda t: table(M, d.item(t)).at(i, j), want, t,
                     [("window not yet full", {mem: add(t, ONE, u)}), ("full window", {t: add(mem, u)})], (), [i, j])
            M.total()


# ---------------------------------------------------------------- C16
def gaussian(M, N, x, mu, Sig):
    """log-density at x of the normal distribution with mean mu and covariance Sig (vectors and matrix as functions of indices)"""
    S = Arr((N, N), lambda i, j: Num(Sig(i, j)))
    inv = M.D(lib_np.inv(M.it, S))
    det = lib_np.det(M.it, S).r
    pv.pos_apps[det.args[0]] = lambda args: True          # covariances are positive definite
    tm.clear_memo()
    i, j = fresh("i", "I", N), fresh("j", "I", N)
    quad = mk_sum(i, N, mk_sum(j, N, mul(sub(x(i), mu(i)), inv.at(i, j).r, sub(x(j), mu(j)))))
    return mul(div(tm.neg(ONE), const(2)), add(mul(N, log(mul(const(2), tm.Var("pi", "R")))), log(det), quad))


def pd_sampler(M, N, names=("S",)):
    def smp(rng, small):
        env = M.sample(rng, small)
        n = int(env.ev(N))
        sd = rng.random()
        cache = {}

        def mk(nm):
            def f(*ix):
                A = cache.get((nm, ix[:-2]))
                if A is None:
                    rr = __import__("random").Random(f"{sd}{nm}{ix[:-2]}")
                    B = [[rr.gauss(0, 1) for _ in range(n + 1)] for _ in range(n)]
                    sc = [10 ** rr.choice([-1, 0, 0, 1]) for _ in range(n)]
                    A = cache[nm, ix[:-2]] = [[sc[p] * sc[q] * sum(B[p][z] * B[q][z] for z in range(n + 1)) for q in range(n)] for p in range(n)]
                if not (0 <= ix[-2] < n and 0 <= ix[-1] < n):
                    raise ne.Undefined("index")
                return A[int(ix[-2])][int(ix[-1])]
            return f
        for nm in names:
            env.funs[nm] = mk(nm)
        return env
    return smp


def tab(env, name, *dims):
    f = env.funs[name]

    def go(ix, rest):
        return float(f(*ix)) if not rest else [go(ix + (k,), rest[1:]) for k in range(rest[0])]
    return go((), [int(env.ev(d)) for d in dims])


def C16_arrays(ck, fn):
    for means in (False, True):
        with ck.mode(f"{fn}, {'with' if means else 'without'} means") as M:
            T, N, c = M.nat("T", 1), M.nat("N", 1), M.pos("c")
            r, R = vec(M, "r", T, N)
            S, Sg = vec(M, "S", T, N, N)
            tm.symmetric["S"] = (-2, -1)
            mu, mean = vec(M, "mu", T, N)
            M.samplers = [pd_sampler(M, N)]
            M.case = lambda env: dict(what=fn, k=float(env.ev(c)), R=tab(env, "r", T, N), S=tab(env, "S", T, N, N), mu=tab(env, "mu", T, N) if means else None)
            t = M.index(T, "t")
            want = gaussian(M, N, lambda i: mul(c, r(t, i)), lambda i: mul(c, mu(t, i)) if means else ZERO, lambda i, j: mul(c, c, S(t, i, j)))
            a = array(M, M.call(U + fn, R, Sg, means=mean if means else None, scale=Num(c)), (T,), "log-likelihoods")
            M.same_num("value is the Gaussian log-density", a.at(t), Num(want), (), [t])
            M.reachable("inputs")
            M.total()


def C16(ck):
    C16_arrays(ck, "log_likelihood")
    C16_arrays(ck, "log_likelihood_sequential")
    for kind in ("plain", "rank", "low"):
        for means in (False, True):
            C16_dict(ck, kind, means)
    C16_em(ck)


def C16_em(ck):
    """composition: the score of the EM pairs, started at the low-rank format of the same rank"""
    with ck.mode("em_low_rank_log_likelihood") as M:
        T, N, lo, n, rk = M.nat("T", 1), M.nat("N", 1), M.nat("lo"), M.nat("n", 1), M.nat("rk", 1)
        M.assume(le(add(lo, n), T), le(rk, N))
        r, S, F, d = M.data("r", 2), M.data("S", 3), M.data("F", 3), M.data("d", 2)
        tm.symmetric["S"] = (-2, -1)
        pv.pos_apps["S"] = lambda args: args[-1] is args[-2]
        pv.pos_apps["d"] = lambda args: True
        M.data_positive.add("d")
        M.samplers = [pd_sampler(M, N)]
        ra, ca, keys, fx = Axis("time", ZERO, T), Axis("asset", ZERO, N), Axis("time", lo, n), Axis("factor", ZERO, rk)
        R = M.frame(ra, ca, lambda t, i: Num(r(t, i)))
        Sig = M.box(SymDict(keys, lambda k: Frame(ca, ca, lambda i, j: Num(S(k, i, j)))))
        cls, calls = NTClass("LowRankDiag", ["F", "d"]), []

        def pairs(tag):
            """what the generators yield (C14, C15): a pair for every time, in order; finite, with positive diagonals"""
            return M.it.new(Seq(n, lambda k: (Label("time", add(lo, k)), NT(cls, [Frame(ca, fx, lambda i, a: Num(App(tag + "F", (add(lo, k), i, a)))),
                                                                                  Series(ca, lambda i: Num(App(tag + "d", (add(lo, k), i))))]))))

        def same(it, x, f, what):
            x = it.D(x)
            if not isinstance(x, SymDict) or x.axis.space != "time":
                unsup(what + " is not one dictionary over the times")
            k = fresh("t", "I")
            M.prove(what + " covers the times of the covariances", Iff(x.axis.has(k), keys.has(k)), (), [k])
            k = M.index(n, "k")
            f(it.D(x.at(add(lo, k))), add(lo, k), k)

        def covs(v, t, k):
            i, j = M.index(N, "i"), M.index(N, "j")
            M.same_num("covariances handed on unchanged", v.at(i, j), Num(S(t, i, j)), (), [k, i, j])

        def start(it, sigmas, r, low_rank_format=None):
            same(it, sigmas, covs, "argument of the initial approximation")
            flag = it.D(low_rank_format)
            M.prove("initial approximation of the rank asked for", eq(it.D(r).r, rk))
            M.add("initial approximation in low-rank format", "discharged" if isinstance(flag, BoolV) and flag.t is TRUE else "refuted", str(flag), by="execution")
            calls.append("start")
            return pairs("start")

        def em(it, sigmas, initial_sigmas):
            same(it, sigmas, covs, "argument of the EM fit")

            def first(v, t, k):
                i, a = M.index(N, "i"), M.index(rk, "a")
                M.same_num("EM starts at the initial approximation of the time", it.D(v.vals[0]).at(i, a), Num(App("startF", (t, i, a))), (), [k, i, a])
                M.same_num("EM starts at the diagonal of the time", it.D(v.vals[1]).at(i), Num(App("startd", (t, i))), (), [k, i])
            same(it, initial_sigmas, first, "start of the EM fit")
            calls.append("em")
            return M.it.new(Seq(n, lambda k: (Label("time", add(lo, k)), NT(cls, [Frame(ca, fx, lambda i, a: Num(F(add(lo, k), i, a))), Series(ca, lambda i: Num(d(add(lo, k), i)))]))))
        M.it.contracts["cvx.covariance.regularization:regularize_covariance"] = start
        M.it.contracts["cvx.covariance.regularization:em_regularize_covariance"] = em
        M.fn = U + "em_low_rank_log_likelihood"
        v = M.D(M.call(U + "em_low_rank_log_likelihood", R, Sig, Num(rk)))
        if set(calls) != {"start", "em"}:
            unsup("score without one initial approximation and one EM fit")
        if not isinstance(v, Series) or v.axis.space != "time":
            M.add("value is a series labelled by times", "undecided", f"{v}"[:80])
            raise Skip()
        t = fresh("t", "I")
        tm.lower_bound[t] = 0
        M.assume(keys.has(t))
        a, u = fresh("a", "I", rk), add(t, ONE)
        want = gaussian(M, N, lambda i: r(u, i), lambda i: ZERO, lambda i, j: add(mk_sum(a, rk, mul(F(t, i, a), F(t, j, a))), tm.ite(eq(i, j), d(t, i), ZERO)))
        M.prove("one value per prediction with a following return, no other", Iff(v.axis.has(t), lt(u, T)), (), [t])
        M.same_num("value is the Gaussian log-density of the next return under the EM pair", v.at(t), Num(want), [lt(u, T)], [t])
        M.total()


def C16_dict(ck, kind, means):
    names = dict(plain="log_likelihood_regularized without rank", rank="log_likelihood_regularized with rank", low="log_likelihood_low_rank")
    with ck.mode(f"{names[kind]}, {'with' if means else 'without'} means") as M:
        T, N, lo, n, rk = M.nat("T", 1), M.nat("N", 1), M.nat("lo"), M.nat("n", 1), M.nat("rk", 1)
        M.assume(le(add(lo, n), T), le(rk, N))
        r = M.data("r", 2)
        ra, ca = Axis("time", ZERO, T), Axis("asset", ZERO, N)
        R = M.frame(ra, ca, lambda t, i: Num(r(t, i)))
        mu = M.data("mu", 2)
        mean = M.frame(ra, ca, lambda t, i: Num(mu(t, i))) if means else None
        keys = Axis("time", lo, n)
        M.samplers = [pd_sampler(M, N)]
        S = M.data("S", 3)
        tm.symmetric["S"] = (-2, -1)
        pv.pos_apps["S"] = lambda args: args[-1] is args[-2]
        t = fresh("t", "I")
        tm.lower_bound[t] = 0
        M.assume(keys.has(t))
        if kind == "low":
            F, d = M.data("F", 3), M.data("d", 2)
            pv.pos_apps["d"] = lambda args: True
            M.data_positive.add("d")
            fx, cls = Axis("factor", ZERO, rk), NTClass("LowRankDiag", ["F", "d"])
            pred = M.box(SymDict(keys, lambda k: NT(cls, [Frame(ca, fx, lambda i, a: Num(F(k, i, a))), Series(ca, lambda i: Num(d(k, i)))])))
            a = fresh("a", "I", rk)
            Sig = lambda i, j: add(mk_sum(a, rk, mul(F(t, i, a), F(t, j, a))), tm.ite(eq(i, j), d(t, i), ZERO))
        else:
            pred = M.box(SymDict(keys, lambda k: Frame(ca, ca, lambda i, j: Num(S(k, i, j)))))
            Sig = lambda i, j: S(t, i, j)
        if kind == "rank":
            reg = sequence(M, M.call("cvx.covariance.regularization:regularize_covariance", pred, Num(rk)))
            V = table(M, reg.at(sub(t, lo))[1])
            Sig = lambda i, j: V.at(i, j).r
        M.case = lambda env: dict(what="dict", kind=kind, r=int(env.ev(rk)), lo=int(env.ev(lo)), R=tab(env, "r", T, N), mu=tab(env, "mu", T, N) if means else None,
                                  **{nm: tab(env, nm, *dims) for nm, dims in ((("F", (T, N, rk)), ("d", (T, N))) if kind == "low" else (("S", (T, N, N)),))}, n=int(env.ev(n)))
        u = add(t, ONE)
        want = gaussian(M, N, lambda i: r(u, i), lambda i: mu(t, i) if means else ZERO, Sig)
        fn = "log_likelihood_low_rank" if kind == "low" else "log_likelihood_regularized"
        kw = dict(r=Num(rk)) if kind == "rank" else {}
        v = M.D(M.call(U + fn, R, pred, means=mean, **kw))
        if not isinstance(v, Series) or v.axis.space != "time":
            M.add("value is a series labelled by times", "undecided", f"{v}"[:80])
            raise Skip()
        M.prove("one value per prediction with a following return, no other", Iff(v.axis.has(t), lt(u, T)), (), [t])
        x = fresh("x", "I")
        tm.lower_bound[x] = 0
        M.prove("no value at a time without a prediction", Implies(v.axis.has(x), keys.has(x)), (), [x])
        M.same_num("value is the Gaussian log-density of the next return", v.at(t), Num(want), [lt(u, T)], [t])
        M.reachable("inputs", lt(u, T), [t])
        M.total()


# ---------------------------------------------------------------- C19
TR = "experiments.utils.trading_model:"


def honour_positive(M, smp):
    def f(rng, small):
        env = smp(rng, small)
        for n in M.data_positive:
            g = env.funs[n]
            env.funs[n] = lambda *ix, g=g: 2.0 ** round(3 * g(*ix))
        return env
    return f


def trader(M, T, N):
    """a Trader built from returns r and positive definite covariances S (the constructor is executed)"""
    r, S = M.data("r", 2), M.data("S", 3)
    tm.symmetric["S"] = (-2, -1)
    pv.pos_apps["S"] = lambda args: args[-1] is args[-2]
    ta, aa = Axis("time", ZERO, T), Axis("asset", ZERO, N)
    R = M.frame(ta, aa, lambda t, i: Num(r(t, i)))
    Sig = M.box(SymDict(ta, lambda t: Frame(aa, aa, lambda i, j: Num(S(t, i, j)))))
    M.samplers = [honour_positive(M, pd_sampler(M, N))]
    tr = M.call(TR + "Trader", R, Sig)
    return r, S, tr


def set_attr(M, o, **kw):
    c = M.D(o)
    at = dict(c.attrs)
    at.update(kw)
    M.it.heap[o.id] = type(c)(c.cls, at)


def attr(M, o, name):
    return M.it.getattr(o, name)


def C19(ck):
    with ck.mode("turnover") as M:
        T, N = M.nat("T", 2), M.nat("N", 1)
        w, W = vec(M, "w", T, N)
        s = fresh("s", "I", sub(T, ONE))
        i, j = fresh("i", "I", N), fresh("i", "I", N)
        rel = div(mk_sum(i, N, tm.tabs(sub(w(add(s, ONE), i), w(s, i)))), mk_sum(j, N, tm.tabs(w(s, j))))
        q = fresh("q", "I", sub(T, ONE))
        M.assume(Forall(q, sub(T, ONE), gt(mk_sum(j, N, tm.tabs(w(q, j))), ZERO)))
        M.case = lambda env: dict(what="turn", W=tab(env, "w", T, N))
        v = M.D(M.call(U + "turnover", W))
        M.same_num("mean relative one-norm change, in percent per year", v, Num(div(mul(const(25200), mk_sum(s, sub(T, ONE), rel)), sub(T, ONE))))
        M.total()
    with ck.mode("total returns") as M:
        T, N = M.nat("T", 1), M.nat("N", 1)
        r, S, tr = trader(M, T, N)
        w, W = vec(M, "w", T, N)
        set_attr(M, tr, ws=W, portfolio_type="min_risk", adjust_factor=Num(ONE))
        M.case = lambda env: dict(what="rets", **base(env))
        base = lambda env: dict(R=tab(env, "r", T, N), S=tab(env, "S", T, N, N), W=tab(env, "w", T, N))
        M.it.call_method(tr, "get_total_returns", [], {})
        a = array(M, attr(M, tr, "rets"), (T, ONE), "total returns")
        t, i = M.index(T, "t"), fresh("i", "I", N)
        M.same_num("sum of weight times return", a.at(t, ZERO), Num(mk_sum(i, N, mul(w(t, i), r(t, i)))), (), [t])
        M.total()
    for rf in (False, True):
        with ck.mode(f"total returns with cash at {'a given' if rf else 'zero'} rate") as M:
            T, N = M.nat("T", 1), M.nat("N", 1)
            r, S, tr = trader(M, T, N)
            w, W = vec(M, "w", T, add(N, ONE))
            f = M.data("rf", 1)
            M.case = lambda env: dict(what="vcrets", R=tab(env, "r", T, N), S=tab(env, "S", T, N, N), W=tab(env, "w", T, add(N, ONE)), rf=tab(env, "rf", T) if rf else None)
            set_attr(M, tr, ws=W, portfolio_type="vol_cont", adjust_factor=Num(ONE), diluted=BoolV(TRUE))
            kw = dict(rf=M.box(Series(Axis("time", ZERO, T), lambda t: Num(f(t))))) if rf else {}
            M.it.call_method(tr, "get_total_returns", [], kw)
            a = array(M, attr(M, tr, "rets"), (T, ONE), "total returns")
            t, i = M.index(T, "t"), fresh("i", "I", N)
            cash = mul(w(t, N), f(t)) if rf else ZERO
            M.same_num("sum of weight times return, cash included", a.at(t, ZERO), Num(add(mk_sum(i, N, mul(w(t, i), r(t, i))), cash)), (), [t])
            M.total()
    with ck.mode("dilution with cash") as M:
        T, N, sd = M.nat("T", 1), M.nat("N", 1), M.pos("sd")
        r, S, tr = trader(M, T, N)
        w, W = vec(M, "w", T, N)
        set_attr(M, tr, ws=W, portfolio_type="min_risk", adjust_factor=Num(ONE))
        t, i, j = M.index(T, "t"), fresh("i", "I", N), fresh("j", "I", N)
        M.assume(gt(mk_sum(i, N, mk_sum(j, N, mul(w(t, i), S(t, i, j), w(t, j)))), ZERO))
        M.case = lambda env: dict(what="dilute", R=tab(env, "r", T, N), S=tab(env, "S", T, N, N), W=tab(env, "w", T, N), sd=float(env.ev(sd)))
        M.it.call_method(tr, "dilute_with_cash", [Num(sd)], {})
        a = array(M, attr(M, tr, "ws_diluted"), (T, add(N, ONE)), "diluted weights")
        k, l = M.index(N, "k"), M.index(N, "l")
        M.same_num("proportional to the portfolio", Num(mul(a.at(t, k).r, w(t, l))), Num(mul(a.at(t, l).r, w(t, k))), (), [t, k, l])
        M.same_num("weights with cash sum to one", Num(add(mk_sum(i, N, a.at(t, i).r), a.at(t, N).r)), Num(ONE), [eq(mk_sum(i, N, w(t, i)), ONE)], [t])
        M.same_num("predicted annual variance is the target", Num(mk_sum(i, N, mk_sum(j, N, mul(const(252), a.at(t, i).r, S(t, i, j), a.at(t, j).r)))), Num(mul(sd, sd)), (), [t])
        M.total()
    for late in (False, True):
        with ck.mode("total returns diluted with cash" + (" on the way" if late else "")) as M:
            T, N, sd = M.nat("T", 1), M.nat("N", 1), M.pos("sd")
            r, S, tr = trader(M, T, N)
            w, W = vec(M, "w", T, N)
            f = M.data("rf", 1)
            set_attr(M, tr, ws=W, portfolio_type="min_risk", adjust_factor=Num(ONE))
            t, i, j = M.index(T, "t"), fresh("i", "I", N), fresh("j", "I", N)
            var = mk_sum(i, N, mk_sum(j, N, mul(w(t, i), S(t, i, j), w(t, j))))
            q = fresh("q", "I", T)
            M.assume(gt(var, ZERO), Forall(q, T, gt(tm.subst(var, {t: q}), ZERO)))
            M.case = lambda env: dict(what="dilrets", R=tab(env, "r", T, N), S=tab(env, "S", T, N, N), W=tab(env, "w", T, N), sd=float(env.ev(sd)), rf=tab(env, "rf", T), late=late)
            if not late:
                M.it.call_method(tr, "dilute_with_cash", [Num(sd)], {})
            M.it.call_method(tr, "get_total_returns", [], dict(diluted_with_cash=BoolV(TRUE), sigma_des=Num(sd), rf=M.box(Series(Axis("time", ZERO, T), lambda t: Num(f(t))))))
            a = array(M, attr(M, tr, "rets"), (T, ONE), "total returns")
            theta = div(sd, mul(sqrt(const(252)), sqrt(var)))
            M.same_num("scaled portfolio return plus cash return", a.at(t, ZERO),
                       Num(add(mul(theta, mk_sum(i, N, mul(w(t, i), r(t, i)))), mul(sub(ONE, theta), f(t)))), (), [t])
            M.total()
    with ck.mode("volatility control") as M:
        T, N, sd = M.nat("T", 1), M.nat("N", 1), M.pos("sd")
        r, S, tr = trader(M, T, N)
        w, W = vec(M, "w", T, N, ONE)
        o = M.data("o", 1)
        pv.pos_apps["o"] = lambda args: True
        M.data_positive.add("o")
        set_attr(M, tr, portfolio_type="vol_cont", adjust_factor=Num(ONE))
        M.case = lambda env: dict(what="vcw", R=tab(env, "r", T, N), S=tab(env, "S", T, N, N), W=tab(env, "w", T, N, ONE), o=tab(env, "o", T), sd=float(env.ev(sd)))
        v = M.it.call_method(tr, "get_vol_cont_w", [W, M.box(Arr((T,), lambda t: Num(o(t)))), Num(sd)], {})
        a = array(M, v, (T, add(N, ONE)), "weights with cash")
        t, k, i = M.index(T, "t"), M.index(N, "k"), fresh("i", "I", N)
        M.same_num("weights scaled to the target volatility", a.at(t, k), Num(div(mul(sd, w(t, k, ZERO)), mul(sqrt(const(252)), o(t)))), (), [t, k])
        M.same_num("weights with cash sum to one", Num(add(mk_sum(i, N, a.at(t, i).r), a.at(t, N).r)), Num(ONE), [eq(mk_sum(i, N, w(t, i, ZERO)), ONE)], [t])
        M.total()
    with ck.mode("value path") as M:
        T, N, af = M.nat("T", 1), M.nat("N", 1), M.pos("af")
        r, S, tr = trader(M, T, N)
        g, rets = vec(M, "g", T, ONE)
        set_attr(M, tr, rets=rets, adjust_factor=Num(af))
        M.case = lambda env: dict(what="growth", R=tab(env, "r", T, N), S=tab(env, "S", T, N, N), g=tab(env, "g", T, ONE), af=float(env.ev(af)))
        M.it.call_method(tr, "get_portfolio_growth", [], {})
        v = array(M, attr(M, tr, "Vs"), (T, ONE), "value path")
        t, k = M.index(T, "t"), fresh("k", "I")
        X = recursion(k, ONE, lambda x: mul(x, add(ONE, div(g(sub(k, ONE), ZERO), af))))
        M.same_rec("product of one plus return over the multiplier", v.at(t, ZERO), Num(X(add(t, ONE))), (), [t])
        M.total()
    with ck.mode("maximum drawdown") as M:
        T, N = M.nat("T", 1), M.nat("N", 1)
        r, S, tr = trader(M, T, N)
        V, Vs = vec(M, "V", T, ONE)
        pv.pos_apps["V"] = lambda args: True
        M.data_positive.add("V")
        set_attr(M, tr, Vs=Vs)
        M.case = lambda env: dict(what="drawdown", R=tab(env, "r", T, N), S=tab(env, "S", T, N, N), V=tab(env, "V", T, ONE))
        d = M.D(M.it.call_method(tr, "compute_max_drawdown", [], {}))
        d = d.at(ZERO) if isinstance(d, Arr) else d
        # peak and drawdown so far, after k values
        k, s, q = fresh("k", "I"), fresh("s", "I"), fresh("q", "I")
        last = lambda k: V(sub(k, ONE), ZERO)
        P = recursion(k, V(ZERO, ZERO), lambda x: tm.tmax(x, last(k)))
        D = recursion(k, ZERO, lambda x: tm.tmax(x, sub(ONE, div(last(k), P(k)))))
        M.same_rec("largest drop from the running peak", d, Num(D(T)))
        M.total()
