"""Contracts of the experiment utilities, experiments/utils (properties C18, C20, C21, C23)."""
from pyvc import terms as tm
from pyvc import prove as pv
from pyvc import lib_np, logic
from pyvc.terms import (ZERO, ONE, TRUE, FALSE, And, Or, Not, Forall, Exists, Implies, add, sub, mul, div, const, exp, log, ipow, mk_sum,
                        fresh, eq0, ge, lt, gt, le, eq, App, sqrt, Iff)
from pyvc.values import unsup, vsubst, Num, BoolV, Axis, Frame, Series, Ref, Seq, NT, Label, Arr, SymDict, NTClass, Opaque, DictV, ListV
from pyvc.driver import Skip, equal, sequence
from pyvc import numeval as ne
from pyvc import interp as ip
from contracts.ewma import IE, MOD, same_axis, returns, ewavg, weight, is_frame, covariance_parts, asset_labels, vola_contract, center_contract, check_vola_contract, check_center_contract, table as data_table
from contracts.exper import array, mapping, table, labelled, tab, trader, attr, vec, TR

VEC = "experiments.utils.iterated_ewma_vec:"


# ------------------------------------------------------------------ C23
def opened(M, x):
    """the centred tables written out: data - moving mean (contract of center, proved as a lemma)"""
    x = ip.expand_lets(x)
    for c in reversed(M.centers):
        m = {y: sub(c["data"].at(*y.args[1]).r, App(c["mu"], y.args[1])) for y in tm.walk(x) if y.op == "app" and y.args[0] == c["x"]}
        if m:
            x = ip.expand_lets(tm.subst_terms(x, m))
    return x


def above(x, y, sign=1):
    """x >= y (sign 1) or x <= y (sign -1) by the bounds of minima and maxima"""
    if x is y:
        return True
    if x.op == "app" and x.args[0] in ("min", "max"):
        f = any if (x.args[0] == "max") == (sign > 0) else all
        return f(above(q, y, sign) for q in x.args[1])
    return pv.is_nonneg(sub(x, y) if sign > 0 else sub(y, x))


def clips(x):
    """every two-sided clip of x at lo and hi written as mid + half * clip((x - mid) / half, 1)"""
    def pattern(y):
        """(x, lo, hi) where y is x clipped at lo and hi"""
        if y.op != "app" or y.args[0] not in ("min", "max"):
            return None
        inner = "max" if y.args[0] == "min" else "min"
        for p, hi in (y.args[1], y.args[1][::-1]):
            if p.op == "app" and p.args[0] == inner:
                for q, lo in (p.args[1], p.args[1][::-1]):
                    lo, hi = (lo, hi) if inner == "max" else (hi, lo)
                    half = div(sub(hi, lo), const(2))
                    if pv.is_pos(half):
                        return q, lo, half
        return None
    unit = set()
    for _ in range(16):
        todo = [(y, z) for y in tm.walk(x) if y not in unit for z in (pattern(y),) if z]
        todo = [(y, z) for y, z in todo if not any(w is not y and w in set(tm.walk(y)) for w, _ in todo)]
        if not todo:
            return x
        y, (q, lo, half) = todo[0]
        mid = add(lo, half)
        u = div(sub(q, mid), half)
        if not (above(u, const(-1)) and above(u, ONE, -1)):
            u = tm.tmin(tm.tmax(u, const(-1)), ONE)
            unit.add(u)
        x = tm.subst_terms(x, {y: add(mid, mul(half, u))})
    return x


def vec_callee(M, e, A=None):
    """_ewma_array(y, h): the normalised exponential average of the rows so far, entry by entry.
    _ewma_array(y, h, c, m) where y are the squared rows of the table handed to volatility() by the package, with the same
    half-life, warm-up and squared clipping level: the squares of its result on the rows it has; where y are the rows of the
    table handed to center(): its moving mean.  Both are proved in the lemma modes of this check."""
    def contract(it, y, halflife, clip_at=None, min_periods=None):
        a = it.D(y)
        h, c, m = it.D(halflife), it.D(clip_at), it.D(min_periods)
        if not isinstance(a, Arr) or a.ndim not in (2, 3) or not isinstance(h, Num):
            return NotImplemented
        hy = list(it.hyps) + list(it.pc)
        if a.ndim == 3:
            return average(it, a, h, hy) if c is None else NotImplemented
        t, i = fresh("t", "I"), fresh("i", "I", a.shape[1])
        tm.lower_bound[t] = 0
        hy2 = hy + [lt(t, a.shape[0])]
        for r in M.volas:
            off = r["rows"].off
            d = opened(M, r["data"].at(add(off, t), i).r)
            cs = c is None and r["c"] is None or isinstance(c, Num) and r["c"] is not None and equal(hy, c.r, mul(r["c"], r["c"]))
            ms = r["c"] is None or isinstance(m, Num) and equal(hy, m.r, r["m"])
            if cs and ms and h.r is r["h"] and equal(hy, a.shape[0], r["rows"].n) and equal(hy2, a.at(t, i).r, mul(d, d)):
                early = f"{r['name']}#early"
                return it.new(Arr(a.shape, lambda t, i: Num(tm.ite(ge(t, r["skip"]), ipow(App(r["name"], (add(off, t), i)), 2), App(early, (t, i))))))
        if c is not None:
            return NotImplemented
        for r in M.centers:
            off = r["rows"].off
            d = opened(M, r["data"].at(add(off, t), i).r)
            if h.r is r["h"] and equal(hy, a.shape[0], r["rows"].n) and equal(hy2, a.at(t, i).r, d):
                return it.new(Arr(a.shape, lambda t, i: Num(App(r["mu"], (add(off, t), i)))))
        return average(it, a, h, hy)

    def average(it, a, h, hy):
        ix = [fresh("i", "I", n) for n in a.shape]
        v = a.at(*ix)
        cell = lambda t, *i: a.at(t, *i).r
        if a.ndim == 3 and A is not None and a.shape[1] is a.shape[2]:      # products of the second-stage data of the package
            t, i, j = ix
            hy2 = hy + [lt(t, a.shape[0])]
            tm.lower_bound[t] = 0
            if equal(hy2, clips(logic.simplify_deep(v.r, hy2)), clips(opened(M, mul(A(add(e.p, t), i), A(add(e.p, t), j))))):
                cell = lambda t, i, j: mul(A(add(e.p, t), i), A(add(e.p, t), j))
        if not (logic.prove(hy, Not(v.nan)) and logic.prove(hy, Not(v.inf))):
            return NotImplemented
        nm = f"norm{len(ne.fun_hooks)}"                          # the reciprocal of the positive sum of the weights
        pv.pos_apps[nm] = lambda args: True
        ne.fun_hooks[nm] = lambda env, xs, args, b: 1 / sum(0.5 ** (q / env.ev(h.r)) for q in range(int(xs[0]) + 1))

        def f(t, *i):
            s = fresh("s", "I", add(t, ONE))
            return Num(mul(App(nm, (t,)), mk_sum(s, add(t, ONE), mul(weight(h.r, sub(t, s)), cell(s, *i)))))
        return it.new(Arr(a.shape, f))
    M.it.contracts[VEC + "_ewma_array"] = contract


def C23(ck):
    for clip in (False, True):
        with ck.mode("volatility, clipping " + ("on" if clip else "off"), lemma=True) as M:
            T, N, m = M.nat("T", 1), M.nat("N", 1), M.nat("m", 1)
            h = M.pos("h")
            c = M.pos("c") if clip else None
            r, R = returns(M, T, N)
            v = is_frame(M, M.call(MOD + "volatility", R, halflife=Num(h), min_periods=Num(m), clip_at=Num(c) if clip else None))
            y = M.box(Arr((T, N), lambda t, i: Num(mul(r(t, i), r(t, i)))))
            g = M.D(M.call(VEC + "_ewma_array", y, halflife=Num(h), clip_at=Num(mul(c, c)) if clip else None, min_periods=Num(m)))
            t, i = M.index(T), M.index(N, "i")
            if clip:
                M.same_rec("same recursion for the variances", Num(ipow(v.at(t, i).r, 2)), g.at(t, i), [ge(t, sub(m, ONE))], [t, i])
            else:
                M.induct("same variances", lambda k: g.at(k, i), lambda k: ipow(v.at(k, i).r, 2), t, vars=[i])
            M.total()
    with ck.mode("moving mean", lemma=True) as M:
        T, N = M.nat("T", 1), M.nat("N", 1)
        h = M.pos("h")
        r, R = returns(M, T, N)
        res = M.D(M.call(MOD + "center", R, halflife=Num(h), min_periods=Num(ZERO), mean_adj=BoolV(TRUE)))
        mu = is_frame(M, res[1])
        y = M.box(Arr((T, N), lambda t, i: Num(r(t, i))))
        g = M.D(M.call(VEC + "_ewma_array", y, halflife=Num(h)))
        t, i = M.index(T), M.index(N, "i")
        M.induct("same moving mean", lambda k: g.at(k, i), lambda k: mu.at(k, i).r, t, vars=[i])
        M.total()
    for dim in (2, 3):
        with ck.mode(f"average of {dim}-dimensional data", lemma=True) as M:
            shape = (M.nat("T", 1),) + (M.nat("N", 1),) * (dim - 1)
            h = M.pos("h")
            y = M.data("y", dim)
            g = M.D(M.call(VEC + "_ewma_array", M.box(Arr(shape, lambda *i: Num(y(*i)))), halflife=Num(h)))
            t, ix = M.index(shape[0]), [M.index(n, "i") for n in shape[1:]]
            M.induct("normalised exponential average", lambda k: g.at(k, *ix), lambda k: ewavg(lambda s: y(s, *ix), add(k, ONE), h), t, vars=ix)
            M.total()
    for mean in (False, True):
        for clip in (False, True):
            with ck.mode(f"mean={mean}, clipping " + ("on" if clip else "off")) as M:
                e = IE(M, mean, clip)
                M.N = e.N
                if mean:
                    M.assume(ge(e.a, ONE))
                    M.assume(ge(e.b, ONE))
                vn = f"vola{len(M.volas)}"
                pv.pos_apps[vn] = lambda args: True                     # no volatility is zero
                e.run()
                q, z = fresh("q", "I", e.n), fresh("z", "I", e.N)
                M.assume(Forall(q, e.n, Forall(z, e.N, gt(e.vola(add(e.p, q), z), ZERO))))
                k = M.index(e.out.n, "k")
                A = e.second(e.pred(k).cov.at(M.index(e.N, "i"), M.index(e.N, "j")).r)
                vec_callee(M, e, A)
                v = M.D(M.call(VEC + "iterated_ewma", e.R, **e.kw))
                means = None
                if mean:
                    if not isinstance(v, NT):
                        M.add("means and covariances are returned", "undecided", type(v).__name__)
                        raise Skip()
                    means, v = (M.D(v.vals[list(v.cls.fields).index(f)]) for f in ("mean", "covariance"))
                v = mapping(M, v, "time")
                l = fresh("l", "I")
                tm.lower_bound[l] = 0
                t = add(e.p, k)
                M.prove("the two cover the same times", Iff(v.axis.has(l), And(ge(l, add(e.p, e.b)), lt(l, add(e.p, e.out.n)))), (), [l])
                M.prove("times of the package's predictions", Iff(e.out.present(k), ge(k, e.b)), (), [k])
                k, P = covariance_parts(M, e, k)
                i, j = M.index(e.N, "i"), M.index(e.N, "j")
                ij = P.cov.at(i, j)
                Qii, Qjj = (e.Q(A, k, q, q) for q in (i, j))
                S = v.item(t)
                M.same_num("same covariance", S.at(i, j), ij, [gt(Qii, ZERO), gt(Qjj, ZERO)], [k, i, j])
                if mean:
                    M.same_num("same mean", mapping(M, means, "time").item(t).at(i), P.mean.at(i), (), [k, i])
                M.total()


# ------------------------------------------------------------------ C21
RC = "experiments.utils.return_combination:"


def trailing(x, t, com):
    """exponentially weighted mean of x(0..t) with weights ((com) / (1 + com))^back"""
    g = div(com, add(ONE, com))
    s, u = fresh("s", "I", add(t, ONE)), fresh("s", "I", add(t, ONE))
    w = lambda q: exp(mul(log(g), sub(t, q)))
    return div(mk_sum(s, add(t, ONE), mul(w(s), x(s))), mk_sum(u, add(t, ONE), w(u)))


def ridge(M, y, X, v, m, K, alpha, h):
    """solution of the ridge regression of y on the K columns of X over m rows, the weights of the rows halving every h rows
    into the past with mean one, the penalty of coefficient k alpha v(k)"""
    q = fresh("s", "I", m)
    tot = mk_sum(q, m, weight(h, sub(sub(m, ONE), q)))
    b = lambda t: mul(m, div(weight(h, sub(sub(m, ONE), t)), tot))

    def gram(i, j):
        s = fresh("s", "I", m)
        return Num(add(mk_sum(s, m, mul(b(s), X(s, i), X(s, j))), mul(alpha, tm.ite(eq(i, j), v(i), ZERO))))
    A = Arr((K, K), gram)
    G = M.D(lib_np.inv(M.it, M.box(A)))

    def beta(k):
        s, j = fresh("s", "I", m), fresh("j", "I", K)
        return Num(mk_sum(j, K, mul(G.at(k, j).r, mk_sum(s, m, mul(b(s), X(s, j), y(s))))))
    return beta


def C21(ck):
    tuning(ck)
    with ck.mode("weights") as M:
        m, K, h, al = M.nat("m", 1), M.nat("K", 1), M.pos("h"), M.pos("alpha")
        y, X, v = M.data("y", 1), M.data("X", 2), M.data("v", 1)
        M.data_positive.add("v")
        pv.pos_apps["v"] = lambda args: True
        rows, cols = Axis("time", ZERO, m), Axis("pred", ZERO, K)
        cb = M.call(RC + "ReturnCombinator")
        M.fn = RC + "ReturnCombinator._get_weights"
        w = M.D(M.it.call_method(cb, "_get_weights", [M.box(Series(rows, lambda t: Num(y(t)))), M.frame(rows, cols, lambda t, k: Num(X(t, k))),
                                 M.box(Series(cols, lambda k: Num(v(k)))), Num(al), Num(h)], {}))
        k = M.index(K, "k")
        M.same_num("weighted ridge regression", w.at(k), ridge(M, y, X, v, m, K, al, h)(k), (), [k])
        M.total()
    with ck.mode("scales") as M:
        n, T, K, com = M.nat("n", 1), M.nat("T", 1), M.nat("K", 1), M.pos("com")
        P = M.data("P", 3)
        cb = M.call(RC + "ReturnCombinator")
        M.fn = RC + "ReturnCombinator._get_scales"
        rows, cols = Axis("time", ZERO, T), Axis("pred", ZERO, K)
        sc = M.D(M.it.call_method(cb, "_get_scales", [forecasts(M, P, n, rows, cols), Num(com)], {}))
        i, t, k = M.index(n, "i"), M.index(T), M.index(K, "k")
        v = M.D(sc.at(i)).at(t, k)
        M.same_num("trailing variance of the forecasts", v, Num(trailing(lambda s: ipow(P(i, s, k), 2), sub(t, ONE), com)), [ge(t, ONE)], [i, t, k])
        M.prove("none before the first forecast", Iff(v.nan, lt(t, ONE)), (), [t])
        M.total()
    with ck.mode("fit") as M:
        n, m, L, K, al = M.nat("n", 1), M.nat("m", 1), M.nat("L", 1), M.nat("K", 1), M.pos("alpha")
        lead, trail = M.nat("lead"), M.nat("trail")          # the returns may start before and end after the forecasts
        T = add(m, L)
        P, R = M.data("P", 3), M.data("R", 2)
        M.case = lambda env: dict(what="fit", seed=0, data=tab(env, "R", add(lead, T, trail), n), P=tab(env, "P", n, add(lead, T), K), memory=int(env.ev(m)), alpha=float(env.ev(al)),
                                  lead=int(env.ev(lead)), K=int(env.ev(K)))
        rows, cols, assets = Axis("time", lead, T), Axis("pred", ZERO, K), Axis("asset", ZERO, n)
        cb = M.call(RC + "ReturnCombinator")
        M.fn = RC + "ReturnCombinator.fit"
        out = M.it.call_method(cb, "fit", [M.frame(Axis("time", ZERO, add(lead, T, trail)), assets, lambda t, i: Num(R(t, i))), forecasts(M, P, n, rows, cols), Num(m), Num(al)], {})
        hat, ws = M.it.unpack(out, 2)
        i, t, k = M.index(n, "i"), M.index(L), M.index(K, "k")
        tt = add(lead, m, t)

        def spec(i, t, k):
            return ridge(M, lambda s: R(add(sub(t, m), s), i), lambda s, k: P(i, add(sub(t, m), s), k),
                         lambda k: trailing(lambda s: ipow(P(i, add(lead, s), k), 2), sub(sub(t, lead), ONE), const(250)), m, K, al, const(500))(k)
        W, H = table(M, M.it.getitem(ws, Num(i)), "weights"), table(M, hat, "forecasts")
        M.same_num("weights on the preceding returns and forecasts", W.at(tt, k), spec(i, tt, k), (), [i, t, k])
        q = fresh("k", "I", K)
        M.same_num("combined forecast", H.at(tt, i), Num(mk_sum(q, K, mul(P(i, tt, q), spec(i, tt, q).r))), (), [i, t])
        for nm, F in (("weights", W), ("forecasts", H)):
            same_axis(M, f"{nm}: one row for every time after the first `memory` ones", F.rows, Axis("time", add(lead, m), L))
        labelled(M, "forecasts", H.cols, n)
        labelled(M, "weights", W.cols, K, "pred")

        def past(x, ix):
            return lt(ix[0], tt) if x == "R" else lt(ix[1], tt) if x == "P" else None
        M.depends("weights use returns and forecasts of earlier times only", [W.at(tt, k)], past, (), (), [i, t, k])
        M.depends("forecast uses returns of earlier times only", [H.at(tt, i)], lambda x, ix: past(x, ix) if x == "R" else le(ix[1], tt) if x == "P" else None, (), (), [i, t])
        M.total()


def tuning(ck):
    """tune_alpha: the fit of every candidate, and its scores over the forecasts' times"""
    with ck.mode("scores of the candidates") as M:
        n, m, L, K, J = M.nat("n", 1), M.nat("m", 1), M.nat("L", 1), M.nat("K", 1), M.nat("J", 1)
        lead, trail = M.nat("lead"), M.nat("trail")
        P, R, al = M.data("P", 3), M.data("R", 2), M.data("al", 1)
        H, W = M.data("H", 3), M.data("W", 4)
        M.data_positive.add("al")
        T = add(m, L)
        rows, cols, assets = Axis("time", lead, T), Axis("pred", ZERO, K), Axis("asset", ZERO, n)
        table_ = M.frame(Axis("time", ZERO, add(lead, T, trail)), assets, lambda t, i: Num(R(t, i)))
        preds = forecasts(M, P, n, rows, cols)
        alphas = M.it.new(Seq(J, lambda q: Num(al(q))))
        out_rows = Axis("time", add(lead, m), L)
        seen = []

        def fit(it, self, returns, returns_predictions, memory, alpha):
            """forecasts of the times after the first `memory` ones, weights (contract of fit, proved above)"""
            if len(it.loops) != 1:
                return NotImplemented
            (q, _, _), = it.loops
            t, i, k = fresh("t", "I"), fresh("i", "I", n), fresh("k", "I", K)
            F = table(M, returns, "returns")
            ti = M.index(add(lead, T, trail), "t")
            M.same_num("fitted on the returns given", F.at(ti, i), Num(R(ti, i)), (), [ti, i])
            f = M.D(it.as_seq(returns_predictions).at(i))
            tp = M.index(T, "t")
            M.same_num("fitted on the forecasts given", f.at(add(lead, tp), k), Num(P(i, add(lead, tp), k)), (), [tp, i, k])
            M.prove("fitted with the memory given", eq(M.D(memory).r, m))
            M.same_num("fitted with the candidate", M.D(alpha), Num(al(q)))
            seen.append(q)
            return (it.new(Frame(out_rows, assets, lambda t, i: Num(H(q, t, i)))), it.new(Seq(n, lambda i: Frame(out_rows, cols, lambda t, k: Num(W(q, i, t, k))))))
        M.it.contracts[RC + "ReturnCombinator.fit"] = fit
        M.fn = RC + "tune_alpha"
        out = M.call(RC + "tune_alpha", table_, preds, alphas, memory=Num(m))
        a, c, e, ws = M.it.unpack(out, 4)
        if not seen:
            unsup("the candidates are not fitted one by one")
        q, i, k, t = M.index(J, "q"), M.index(n, "i"), M.index(K, "k"), M.index(L, "t")
        u, v, u2, v2 = fresh("t", "I", L), fresh("i", "I", n), fresh("t", "I", L), fresh("i", "I", n)
        at = lambda f, u: f(add(lead, m, u))
        err = mk_sum(u, L, mk_sum(v, n, ipow(sub(H(q, add(lead, m, u), v), R(add(lead, m, u), v)), 2)))
        cells = mul(L, n)
        cs, es, wl, als = (M.it.as_seq(x) for x in (c, e, ws, a))
        for nm, s in (("candidates", als), ("correlations", cs), ("errors", es), ("weights", wl)):
            M.prove(f"one of the {nm} for every candidate", eq(s.n, J))
        M.same_num("candidates in the order given", M.D(als.at(q)), Num(al(q)), (), [q])
        M.same_num("root mean squared error over the forecasts", M.D(es.at(q)), Num(sqrt(div(err, cells))), [ge(err, ZERO)], [q])
        mean = lambda g: div(mk_sum(u2, L, mk_sum(v2, n, g(add(lead, m, u2), v2))), cells)
        h, r = (lambda t, i: H(q, t, i)), (lambda t, i: R(t, i))
        co = lambda g, f: mk_sum(u, L, mk_sum(v, n, mul(sub(g(add(lead, m, u), v), mean(g)), sub(f(add(lead, m, u), v), mean(f)))))
        M.same_num("correlation of forecasts and returns", M.D(cs.at(q)), Num(div(co(h, r), mul(sqrt(co(h, h)), sqrt(co(r, r))))), [gt(co(h, h), ZERO), gt(co(r, r), ZERO)], [q])
        w = M.D(M.it.as_seq(M.it.new(M.D(wl.at(q)))).at(i))
        M.same_num("weights of the fit of the candidate", w.at(add(lead, m, t), k), Num(W(q, i, add(lead, m, t), k)), (), [q, i, t, k])
        M.total()


def forecasts(M, P, n, rows, cols):
    return M.it.new(Seq(n, lambda i: Frame(rows, cols, lambda t, k: Num(P(i, t, k)))))


# ------------------------------------------------------------------ C20
LIMITS = ("short_lim", "upper_bound", "lower_bound")


def limit_dict(M, names, zero=False, prefix=""):
    vals = {k: ZERO if zero and k == "lower_bound" else M.real(prefix + k) if k == "lower_bound" else M.pos(prefix + k) for k in names}
    return vals, M.box(DictV([(k, Num(v)) for k, v in vals.items()]))


def formula(op, lhs, rhs):
    """an array constraint as a formula"""
    nd = max(lhs.ndim, rhs.ndim)
    shape = lib_np.broadcast(None, [lhs.shape, rhs.shape])
    ix = [fresh("i", "I", n) for n in shape]
    x, y = (lib_np.as_num(a.at(*lib_np.bidx(a.shape, nd, ix))).r for a in (lhs, rhs))
    f = {"Eq": eq, "LtE": le, "GtE": ge}[op](x, y)
    for i, n in reversed(list(zip(ix, shape))):
        f = tm.subst(f, {i: ZERO}) if n is ONE else Forall(i, n, f)
    return f


def min_risk_problem(M, rec, S, N, lim, what=""):
    """the recorded problem minimises x' S x (or its root) subject to sum x = 1 and the limits"""
    used = {y.args[0] for y in tm.walk(rec["obj"].at().r) if y.op == "app"}
    main = [v for v in rec["vars"] if v[0] in used]
    if len(main) != 1:
        M.add(what + "one decision variable", "undecided", str(len(main)))
        raise Skip()
    (xn, am, shape), = main
    x = (lambda i: App(xn, (i,))) if len(shape) == 1 else (lambda i: App(xn, (i, ZERO)))
    ix = [fresh("i", "I", N) for _ in range(5)]
    v = mk_sum(ix[0], N, mk_sum(ix[1], N, mul(x(ix[0]), S(ix[0], ix[1]), x(ix[1]))))
    spec = [eq(mk_sum(ix[2], N, x(ix[2])), ONE)]
    if "short_lim" in lim:
        spec.append(le(mk_sum(ix[3], N, tm.tabs(x(ix[3]))), lim["short_lim"]))
    if "upper_bound" in lim:
        spec.append(Forall(ix[4], N, le(x(ix[4]), lim["upper_bound"])))
    if "lower_bound" in lim:
        spec.append(Forall(ix[4], N, ge(x(ix[4]), lim["lower_bound"])))

    def invested(smp):
        def f(rng, small):
            env = smp(rng, small)
            n = int(env.ev(N))
            w = [rng.choice([1, 2, -1, 0.3, -0.2, 0.05]) for _ in range(n)]
            s = sum(w)
            w = [q / s for q in w] if abs(s) > 0.1 else [1 / n] * n
            env.funs[xn] = lambda *k: w[int(k[0])] if int(k[0]) < n else 0.0
            return env
        return f
    old = M.samplers
    M.samplers = [invested(s) for s in old]
    M.add(what + "the problem is a minimisation", "discharged" if rec["sense"] == "min" else "refuted", rec["sense"], by="execution")
    obj = rec["obj"].at()
    if equal(list(M.it.hyps), obj.r, v):
        M.same_num(what + "objective is the predicted variance", obj, Num(v))
    else:
        M.same_num(what + "objective is the root of the predicted variance", obj, Num(sqrt(v)), [ge(v, ZERO)])
    got = [formula(*c) for c in rec["cons"]]
    for g in got:
        M.prove(what + "every constraint posed is full investment or a limit of this run", g, spec)
    for s in spec:
        M.prove(what + "full investment and the limits of this run are constraints", s, got)
    M.samplers = old
    return am, shape


def own_writes(M, tr, f):
    """objects that existed before the call and were changed by it, other than the trader itself"""
    it = M.it
    n0, h0 = it.nid, dict(it.heap)
    f()
    return [str(type(h0[i]).__name__) for i in h0 if i <= n0 and i != tr.id and it.heap.get(i) is not h0[i]]


def C20(ck):
    causal_modes(ck)
    runs_modes(ck)
    later_runs(ck)
    subsets = [[k for q, k in enumerate(LIMITS) if b >> q & 1] for b in range(8)]
    for names in subsets:
        for zero in (False, True) if "lower_bound" in names else (False,):
            with ck.mode("minimum risk, limits: " + (", ".join(names) or "none") + (" (zero)" if zero else "")) as M:
                T, N = M.nat("T", 1), M.nat("N", 1)
                r, S, tr = trader(M, T, N)
                lim, d = limit_dict(M, names, zero)
                M.case = lambda env: dict(what="runs", runs=[(False, "min_risk", list(names), zero)])
                M.fn = TR + "Trader.backtest"
                ch = own_writes(M, tr, lambda: M.it.call_method(tr, "backtest", [], dict(portfolio_type="min_risk", additonal_cons=d)))
                (rec,) = M.it.solves
                t, i = M.index(T), M.index(N, "i")
                (j, n, pres), = rec["loops"]
                am, shape = min_risk_problem(M, rec, lambda a, b: S(j, a, b), N, lim)
                w = array(M, attr(M, tr, "ws"), (T, N), "weights")
                M.same_num("weights of a time solve the problem of that time", w.at(t, i), Num(App(am, (t, i) + (ZERO,) * (len(shape) - 1))), (), [t, i])
                M.add("nothing but the trader changes", "undecided" if ch else "discharged", ", ".join(ch)[:200], by="execution")
                M.total(allow=("SolverError",))

PB = "experiments.utils.portfolio_backtests:"


def predictor(M, S, first, n, N):
    """covariances labelled with the n times from `first` on"""
    aa = Axis("asset", ZERO, N)
    return M.box(SymDict(Axis("time", first, n), lambda t: Frame(aa, aa, lambda i, j: Num(S(t, i, j)))))


def causal_modes(ck):
    for mean in (False, True):
        with ck.mode("alignment" + (", with means" if mean else "")) as M:
            # returns at times 0..T-1, predictions at times lead..lead+L-1, window [start, end]
            N, lead, L, trail = M.nat("N", 1), M.nat("lead"), M.nat("L", 1), M.nat("trail")
            off, W = M.nat("off"), M.nat("W", 1)
            rest = M.nat("rest")
            L = add(off, W, rest)
            T = add(lead, L, trail)
            r, S, mu = M.data("r", 2), M.data("S", 3), M.data("mu", 2)
            ta, aa = Axis("time", ZERO, T), Axis("asset", ZERO, N)
            R = M.frame(ta, aa, lambda t, i: Num(r(t, i)))
            start = add(lead, off)
            end = add(start, W, const(-1))
            M.case = window_case("causal", N, ONE, lead, L, trail, off, rest, mean=mean)
            args = [R, predictor(M, S, lead, L, N), Label("time", start), Label("time", end)]
            if mean:
                args.append(M.frame(Axis("time", lead, L), aa, lambda t, i: Num(mu(t, i))))
            M.fn = PB + "_get_causal"
            out = M.call(PB + "_get_causal", *args)
            parts = M.it.unpack(out, 3 if mean else 2)
            F = table(M, parts[0], "returns")
            want = Axis("time", start, sub(W, ONE))
            same_axis(M, "one row per time of the window followed by another time of it", F.rows, want)
            labelled(M, "returns", F.cols, N)
            k, i, j = M.index(sub(W, ONE), "k"), M.index(N, "i"), M.index(N, "j")
            t = add(start, k)
            M.same_num("the return paired with a time is that of the following time", F.at(t, i), Num(r(add(t, ONE), i)), (), [k, i])
            P = mapping(M, parts[1], "time")
            same_axis(M, "covariances of the same times", P.axis, want)
            M.same_num("the covariance paired with a time is the one labelled with it", P.item(t).at(i, j), Num(S(t, i, j)), (), [k, i, j])
            if mean:
                F = table(M, parts[2], "means")
                same_axis(M, "means of the same times", F.rows, want)
                labelled(M, "means", F.cols, N)
                M.same_num("the mean paired with a time is the one labelled with it", F.at(t, i), Num(mu(t, i)), (), [k, i])
            M.total()


def window_case(kind, N, K, lead, L, trail, off=ZERO, rest=ZERO, mean=False, user=True, lim=()):
    return lambda env: dict(what="window", seed=0, kind=kind, mean=mean, user=user, lim=list(lim), data=tab(env, "r", add(lead, L, trail), N), K=int(env.ev(K)), lead=int(env.ev(lead)),
                            L=int(env.ev(L)), off=int(env.ev(off)), rest=int(env.ev(rest)))


def books(M, K, N, mean=False):
    """K predictors over the same times, their names, and the returns"""
    lead, L, trail = M.nat("lead"), M.nat("L", 2), M.nat("trail")
    r, S, mu = M.data("r", 2), M.data("S", 4), M.data("mu", 3)
    tm.symmetric["S"] = (-2, -1)
    pv.pos_apps["S"] = lambda args: args[-1] is args[-2]
    ta, aa = Axis("time", ZERO, add(lead, L, trail)), Axis("asset", ZERO, N)
    R = M.frame(ta, aa, lambda t, i: Num(r(t, i)))
    tp = Axis("time", lead, L)
    preds = M.it.new(Seq(K, lambda q: SymDict(tp, lambda t: Frame(aa, aa, lambda i, j: Num(S(q, t, i, j))))))
    names = M.it.new(Seq(K, lambda q: Label("name", q)))
    return r, S, mu, R, preds, names, lead, L, trail


def later_runs(ck):
    """two backtests in one process: the second one is the one its own arguments ask for"""
    cases = [("a run after a run with other limits", False, "min_risk", LIMITS[:2], ("lower_bound",)),
             ("a run after the same trader's run with other limits", True, "min_risk", LIMITS, ("upper_bound",)),
             ("a run without limits after a volatility-controlled run", True, "vol_cont", LIMITS, ()),
             ("a run after a run with the caller's constraints", False, "cons", (), ("short_lim",))]
    for title, same, kind, lim1, lim2 in cases:
        with ck.mode(title) as M:
            T, N = M.nat("T", 1), M.nat("N", 1)
            r, S, tr = trader(M, T, N)
            tr0 = tr if same else trader(M, T, N)[2]
            M.case = lambda env: dict(what="runs", runs=[(False, "vol_cont" if kind == "vol_cont" else "min_risk", list(lim1), False), (same, "min_risk", list(lim2), False)])
            kw = dict(portfolio_type="vol_cont", sigma_des=Num(M.pos("target"))) if kind == "vol_cont" else dict(portfolio_type="min_risk")
            if kind == "cons":
                kw["cons"] = M.it.new(ListV([]))
            M.fn = TR + "Trader.backtest"
            _, d1 = limit_dict(M, lim1)
            M.it.call_method(tr0, "backtest", [], dict(kw, additonal_cons=d1))
            n = len(M.it.solves)
            lim, d = limit_dict(M, lim2, prefix="second_")
            M.it.call_method(tr, "backtest", [], dict(portfolio_type="min_risk", additonal_cons=d))
            rec, = M.it.solves[n:]
            (j, _, _), = rec["loops"]
            am, shape = min_risk_problem(M, rec, lambda a, b: S(j, a, b), N, lim)
            t, i = M.index(T), M.index(N, "i")
            w = array(M, attr(M, tr, "ws"), (T, N), "weights")
            M.same_num("weights of a time solve the problem of that time", w.at(t, i), Num(App(am, (t, i) + (ZERO,) * (len(shape) - 1))), (), [t, i])
            M.total(allow=("SolverError",))
    with ck.mode("default limits after a run with other limits") as M:
        T, N = M.nat("T", 1), M.nat("N", 1)
        r, S, tr = trader(M, T, N)
        M.fn = TR + "Trader.backtest"
        M.it.call_method(tr, "backtest", [], dict(portfolio_type="min_risk"))
        first = M.it.solves[-1]
        _, d = limit_dict(M, LIMITS)
        M.it.call_method(tr, "backtest", [], dict(portfolio_type="min_risk", additonal_cons=d))
        M.it.call_method(tr, "backtest", [], dict(portfolio_type="min_risk"))
        last = M.it.solves[-1]
        (xa, _, _), = first["vars"]
        (xb, _, _), = last["vars"]
        rename = lambda f: tm.rewrite_apps(f, lambda name, args, sort: App(xa, args) if name == xb else None)
        f1, f2 = [formula(*c) for c in first["cons"]], [rename(formula(*c)) for c in last["cons"]]
        for g in f2:
            M.prove("same constraints as in the first run", g, f1)
        for g in f1:
            M.prove("all constraints of the first run", g, f2)
        M.total(allow=("SolverError",))


def runs_modes(ck):
    with ck.mode("mean-variance backtests: data traded") as M:
        K, N = M.nat("K", 1), M.nat("N", 1)
        r, S, mu, R, preds, names, lead, L, trail = books(M, K, N)
        aa, tp = Axis("asset", ZERO, N), Axis("time", lead, L)
        means = M.it.new(Seq(K, lambda q: Frame(tp, aa, lambda t, i: Num(mu(q, t, i)))))
        M.case = window_case("MeanVariance", N, K, lead, L, trail, user=False)
        M.fn = PB + "MeanVariance"
        b = M.call(PB + "MeanVariance", R, preds, names, means)
        lim, d = limit_dict(M, LIMITS)
        M.fn = PB + "MeanVariance.backtest"
        out = M.it.call_method(b, "backtest", [d, Num(M.pos("target"))], {})
        P = mapping(M, out, "name")
        n = sub(L, ONE)
        q, k, i, j = M.index(K, "q"), M.index(n, "k"), M.index(N, "i"), M.index(N, "j")
        tr = M.it.new(P.item(q))
        t = add(lead, k)
        F, G = table(M, attr(M, tr, "returns"), "returns"), table(M, attr(M, tr, "r_hats"), "means")
        for nm, ax in (("returns", F.rows), ("means", G.rows)):
            same_axis(M, nm + ": one row per time followed by another time", ax, Axis("time", lead, n))
        M.same_num("the return traded at a time is that of the following time", F.at(t, i), Num(r(add(t, ONE), i)), (), [q, k, i])
        M.same_num("the mean used at a time is the one labelled with it", G.at(t, i), Num(mu(q, t, i)), (), [q, k, i])
        rec = M.it.solves[-1]
        (q1, _, _), (k1, _, _) = rec["loops"]
        seen = [x for op, a, b in rec["cons"] for v in (a, b) for x in [lib_np.as_num(v.at(*[fresh("i", "I", z) for z in v.shape])).r]]
        seen.append(lib_np.as_num(rec["obj"].at(*[ZERO] * rec["obj"].ndim)).r)
        M.depends("the problem of a time uses predictions labelled with that time only", [Num(x) for x in seen],
                  lambda x, ix: And(eq(ix[0], q1), eq(ix[1], add(lead, k1))) if x in ("S", "mu") else FALSE if x == "r" else None, (), (), [q1, k1])
        M.total(allow=("SolverError",))
    kinds = [("equally weighted backtests", "EqWeighted", None), ("minimum-risk backtests", "MinRisk", LIMITS), ("minimum-risk backtests, no limits", "MinRisk", ())]
    for title, cls, lims in kinds:
        for dates in (False, True):
            with ck.mode(title + (" between given dates" if dates else "")) as M:
                K, N = M.nat("K", 1), M.nat("N", 1)
                r, S, mu, R, preds, names, lead, L, trail = books(M, K, N)
                start, end = lead, add(lead, L, const(-1))
                args = {}
                if dates:
                    off, rest = M.nat("off"), M.nat("rest")
                    M.assume(gt(L, add(off, rest, ONE)))
                    start, end = add(lead, off), add(lead, L, const(-1), tm.neg(rest))
                    args = dict(start_date=Label("time", start), end_date=Label("time", end))
                M.case = window_case(cls, N, K, lead, L, trail, *((off, rest) if dates else ()), user=dates, lim=lims or ())
                M.fn = PB + cls
                b = M.call(PB + cls, R, preds, names, **args)
                M.fn = PB + cls + ".backtest"
                lim, d = limit_dict(M, lims or ())
                ch = own_writes(M, b, lambda: setattr(M, "out", M.it.call_method(b, "backtest", [] if lims is None else [d], {})))
                P = mapping(M, M.out, "name")
                same_axis(M, "one trader for every predictor", P.axis, Axis("name", ZERO, K))
                n = sub(end, start)
                q, k, i, j = M.index(K, "q"), M.index(n, "k"), M.index(N, "i"), M.index(N, "j")
                tr = M.it.new(P.item(q))
                t = add(start, k)
                F = table(M, attr(M, tr, "returns"), "returns")
                same_axis(M, "one row per time followed by another time of the window", F.rows, Axis("time", start, n))
                M.same_num("the return traded at a time is that of the following time", F.at(t, i), Num(r(add(t, ONE), i)), (), [q, k, i])
                if lims is None:
                    w = array(M, attr(M, tr, "ws"), (n, N), "weights")
                    M.same_num("equal weights", w.at(k, i), Num(div(ONE, N)), (), [q, k, i])
                else:
                    (rec,) = M.it.solves
                    (q1, _, _), (k1, _, _) = rec["loops"]
                    am, shape = min_risk_problem(M, rec, lambda a, b: S(q1, add(start, k1), a, b), N, lim)
                    w = array(M, attr(M, tr, "ws"), (n, N), "weights")
                    M.same_num("weights of a time solve the problem posed with the covariance labelled with it", w.at(k, i), Num(App(am, (q, k, i) + (ZERO,) * (len(shape) - 1))), (), [q, k, i])
                M.add("nothing but the new traders changes", "undecided" if ch else "discharged", ", ".join(ch)[:200], by="execution")
                M.total(allow=("SolverError",))


# ------------------------------------------------------------------ C18
LR = "experiments.utils.low_rank_ewma:"


def spectral_facts(M, i, K):
    """A(i, i) = sum of lam_m V(i, m)^2 over all eigenvalues, the K leading ones apart, for every decomposition made"""
    out = []
    for o in M.it.obs:
        if o[0] == "eig":
            _, A, w, V = o
            n = A.shape[0]
            lo, hi = fresh("m", "I", sub(n, K)), fresh("m", "I", K)
            term = lambda m: mul(w.at(m).r, ipow(V.at(i, m).r, 2))
            out.append(eq(add(mk_sum(lo, sub(n, K), term(lo)), mk_sum(hi, K, term(add(sub(n, K), hi)))), logic.simplify_under(A.at(i, i).r, M.it.known())))
    return out


def update_contract(M):
    """_low_rank_sum(F, d, r) on finite F (n x K, K < n), d >= 0 and r: loadings and a diagonal of the same shapes, the diagonal
    not negative, total variances those of F, d and r together (positive), arguments unchanged; proved in mode "update".
    The sign of d is an obligation of the caller (check_updates)."""
    it = M.it

    def contract(it, F, d, r):
        F, d, r = (it.D(x) for x in (F, d, r))
        cls = it.func(LR + "LowRankCovariance")
        if not all(isinstance(x, Arr) for x in (F, d, r)) or (F.ndim, d.ndim, r.ndim) != (2, 1, 1) or not isinstance(cls, NTClass) or cls.fields != ("F", "d"):
            return NotImplemented
        n, K = F.shape
        if d.shape[0] is not n or r.shape[0] is not n or it.decide(And(ge(K, ONE), lt(K, n))) is not True:
            return NotImplemented
        i, m = fresh("i", "I", n), fresh("k", "I", K)
        for v in (F.at(i, m), d.at(i), r.at(i)):
            if not all(x is FALSE or it.simp(x, [lt(i, n), lt(m, K)]) is FALSE for x in (v.nan, v.inf)):
                return NotImplemented
        no = f"{next(tm._fresh)}"
        ctx = tuple(j for j, _, _ in it.loops)
        rec = dict(no=no, ctx=ctx, loops=list(it.loops), pc=list(it.pc), vals=[it.freeze(F), it.freeze(d), it.freeze(r)], names=("LRF!" + no, "LRd!" + no))
        it.calls.append(rec)
        it.obs.append(("assume", "in no low-rank update has an asset zero loadings together with a zero new return (the code divides by zero there)"))
        for x in rec["names"]:
            ip.call_defs[x] = rec
        pv.nonneg_names.add(rec["names"][1])
        update_hook(rec, n, K)
        return NT(cls, [it.new(Arr((n, K), lambda i, m: Num(App(rec["names"][0], ctx + (i, m))))), it.new(Arr((n,), lambda i: Num(App(rec["names"][1], ctx + (i,)))))])
    it.contracts[LR + "_low_rank_sum"] = contract


def update_hook(rec, n, K):
    """numerical value of the result of an update, used only to look for failing inputs"""
    def get(env, ix):
        import numpy as np
        key = (rec["no"], ix)
        if key not in env.recmemo:
            b = dict(zip(rec["ctx"], ix))
            N, k = int(env.ev(n)), int(env.ev(K))
            F, d, r = rec["vals"]
            Fv = np.array([[float(env.ev(F.at(const(i), const(m)).r, b)) for m in range(k)] for i in range(N)])
            dv, rv = (np.array([float(env.ev(x.at(const(i)).r, b)) for i in range(N)]) for x in (d, r))
            s2 = (Fv ** 2).sum(axis=1) + rv ** 2
            if k >= N or s2.min() <= 0:
                raise ne.Undefined("update")
            s = np.sqrt(s2)
            lam, Q = np.linalg.eigh((Fv @ Fv.T + np.outer(rv, rv)) / np.outer(s, s))
            F2 = s[:, None] * Q[:, N - k:] * np.sqrt(np.maximum(lam[N - k:], 0))
            env.recmemo[key] = (F2, s2 + dv - (F2 ** 2).sum(axis=1))
        return env.recmemo[key]

    def hook(which):
        def f(env, xs, args, b):
            c = len(rec["ctx"])
            try:
                return float(get(env, tuple(xs[:c]))[which][tuple(int(x) for x in xs[c:])])
            except IndexError:
                raise ne.Undefined("index")
        return f
    for q, x in enumerate(rec["names"]):
        ne.fun_hooks[x] = hook(q)


def updated(rec, c, i, K):
    """equation of the update number c for asset i: (new diagonal, what it equals)"""
    m = {v: x for v, x in zip(rec["ctx"], c)}
    F, d, r = (tm_sub(v, m) for v in rec["vals"])
    k, q = fresh("k", "I", K), fresh("k", "I", K)
    tot = add(mk_sum(k, K, ipow(F(i, k), 2)), d(i), ipow(r(i), 2))
    return App(rec["names"][1], c + (i,)), sub(tot, mk_sum(q, K, ipow(App(rec["names"][0], c + (i, q)), 2))), tot


def tm_sub(v, m):
    return lambda *ix: tm.subst(v.at(*ix).r, m)


def check_updates(M):
    """the diagonals given to the updates are not negative"""
    for rec in M.it.calls:
        d = rec["vals"][1]
        i = M.index(d.shape[0], "i")
        M.prove("diagonal given to an update is not negative", ge(d.at(i).r, ZERO), [lt(j, n) for j, n, _ in rec["loops"]], [i] + list(rec["ctx"]))


def one_update(M):
    if len(M.it.calls) != 1 or len(M.it.calls[0]["ctx"]) != 1:
        M.add("one low-rank update for each time after the first", "undecided", f"{len(M.it.calls)} update calls by contract")
        raise Skip()
    return M.it.calls[0]


def running(M, name, X, rec, k, i, K, spec, given=()):
    """X(k, i) = spec(k, i) for all times k by induction over the updates: update k - 1 leads from time k - 1 to time k"""
    M.same_num(name + ", first time", Num(X(ZERO, i)), Num(spec(ZERO, i)), list(given), [i])
    old = tm.lower_bound.get(k, 0)
    for case, lo in (("second time", 1), ("later times", 2)):
        kk = ONE if lo == 1 else k
        tm.lower_bound[k] = lo
        tm.clear_memo()
        lhs, rhs, _ = updated(rec, (sub(kk, ONE),), i, K)
        step = tm.subst_terms(X(kk, i), {lhs: rhs})
        if lo == 2:
            q = fresh("k", "I", K)
            prev = App(rec["names"][1], (sub(k, const(2)), i))
            step = tm.subst_terms(step, {prev: sub(spec(sub(k, ONE), i), mk_sum(q, K, ipow(App(rec["names"][0], (sub(k, const(2)), i, q)), 2)))})
            # the previous value itself must be what the induction hypothesis speaks of
            M.same_num(name + ", state before a later time", Num(X(sub(k, ONE), i)), Num(add(prev, mk_sum(q, K, ipow(App(rec["names"][0], (sub(k, const(2)), i, q)), 2)))), list(given), [k, i])
        M.same_num(f"{name}, {case}", Num(step), Num(spec(kk, i)), list(given), [i] + ([k] if lo == 2 else []))
    tm.lower_bound[k] = old
    tm.clear_memo()


def low_rank_parts(M, v, N, K, what):
    """loadings and diagonal of a prediction as functions of the asset"""
    if not isinstance(v, NT) or list(v.cls.fields) != ["F", "d"]:
        M.add(what + " is a pair of loadings F and diagonal d", "undecided", type(v).__name__)
        raise Skip()
    F, d = M.D(v.vals[0]), M.D(v.vals[1])
    if not isinstance(F, Frame) or not isinstance(d, Series):
        M.add(what + " is a table of loadings and a diagonal", "undecided", type(F).__name__)
        raise Skip()
    labelled(M, "loadings", F.rows, N)
    labelled(M, "diagonal", d.axis, N)
    M.prove("number of factors", eq(F.cols.n, K))
    return F, d


def low_rank_running(ck):
    with ck.mode("running") as M:
        T, n, K, m, h = M.nat("T", 1), M.nat("N", 2), M.nat("K", 1), M.nat("m"), M.pos("h")
        M.assume(lt(K, n))
        r, R = returns(M, T, n)
        update_contract(M)
        M.case = lambda env: dict(what="run", seed=0, data=tab(env, "r", T, n), n=int(env.ev(n)), rank=int(env.ev(K)), h=env.ev(h), m=int(env.ev(m)))
        s = sequence(M, M.call(LR + "_ewma_low_rank", R, Num(h), Num(m), Num(K)))
        k, i = M.index(T, "k"), M.index(n, "i")
        M.prove("one candidate for each time", eq(s.n, T))
        M.prove("predictions from the end of the warm-up on", Iff(s.present(k), ge(k, sub(m, ONE))), (), [k])
        rec = one_update(M)
        t, lr = s.at(k) if isinstance(s.at(k), tuple) else (None, None)
        g = [s.present(k)]
        if isinstance(t, Label) and t.space == "time":
            M.prove("labelled with the time of the last value used", eq(t.t, k), g, [k])
        else:
            M.add("labelled with a time", "undecided", repr(t))
        F, d = low_rank_parts(M, lr, n, K, "prediction")
        q = M.index(K, "q")
        for nm, v in (("loadings", F.at(i, q)), ("diagonal", d.at(i))):
            M.prove(nm + " are finite numbers", And(Not(v.nan), Not(v.inf)), g, [k, i, q])
        M.prove("diagonal is not negative", ge(d.at(i).r, ZERO), g, [k, i])

        def X(k_, i_):
            _, lr = s.at(k_)
            F, d = M.D(lr.vals[0]), M.D(lr.vals[1])
            z = fresh("k", "I", K)
            return add(mk_sum(z, K, ipow(F.at(i_, z).r, 2)), d.at(i_).r)
        running(M, "total variance is the exact exponential average of squares", X, rec, k, i, K, lambda k_, i_: ewavg(lambda u: ipow(r(u, i_), 2), add(k_, ONE), h))
        M.depends("a prediction uses values up to its time only", [F.at(i, q), d.at(i)], lambda x, ix: le(ix[0], k) if x == "r" else None, (), g, [k, i, q])
        check_updates(M)
        M.total()


def clipped(x, c):
    return x if c is None else tm.tmax(tm.tmin(x, c), tm.neg(c))


def low_rank_iterated(ck):
    check_vola_contract(ck, False)
    check_vola_contract(ck, True)
    check_center_contract(ck)
    for mean in (False, True, "own"):
        for clip in (False, True):
            for zero in (False, True) if not mean else (False,):
                with ck.mode(f"iterated predictor, mean={mean}, clipping " + ("on" if clip else "off") + (", no volatility warm-up" if zero else "")) as M:
                    iterated_mode(M, mean, clip, zero)


def iterated_mode(M, mean, clip, zero):
    # with means the first centred values are zero: warm-ups of two or more
    N, n, K, a, b = M.nat("N", 2), M.nat("n", 1), M.nat("K", 1), ZERO if zero else M.nat("a", 1 if mean else 0), M.nat("m", 2 if mean else 0)
    M.assume(lt(K, N))
    T = add(a, n)
    h1, h2, c = M.pos("h1"), M.pos("h2"), M.pos("c") if clip else None
    g1, g2 = (M.pos("g1"), M.pos("g2")) if mean == "own" else (None, None)
    m1 = ZERO if zero else add(a, ONE)
    r, R = returns(M, T, N)
    vola_contract(M)
    center_contract(M)
    update_contract(M)
    vn = f"vola{len(M.volas)}"
    pv.pos_apps[vn] = lambda args: True
    M.it.obs.append(("assume", "no volatility is zero and no return at the end of the volatility warm-up is (such an asset has no scaled return)"))
    q, z = fresh("q", "I", n), fresh("z", "I", N)
    M.assume(Forall(q, n, Forall(z, N, gt(App(vn, (add(a, q), z)), ZERO))))
    M.case = lambda env: dict(what="iter", seed=0, data=tab(env, "r", T, N), n=int(env.ev(N)), rank=int(env.ev(K)), h=env.ev(h2), hv=env.ev(h1), mv=int(env.ev(m1)), m=int(env.ev(b)),
                              mean=bool(mean), h1=env.ev(g1) if g1 is not None else None, h2=env.ev(g2) if g2 is not None else None, c=env.ev(c) if clip else None)
    kw = dict(min_periods_vola=Num(m1), min_periods_cov=Num(b), clip_at=Num(c) if clip else None, mean=BoolV(TRUE if mean else FALSE))
    if mean == "own":
        kw.update(mu_halflife1=Num(g1), mu_halflife2=Num(g2))
    s = sequence(M, M.call(LR + "low_rank_iterated_ewma", R, Num(h1), Num(h2), Num(K), **kw))
    k, i = M.index(n, "k"), M.index(N, "i")
    M.prove("one candidate for each time from the end of the volatility warm-up", eq(s.n, n))
    M.prove("predictions from the end of the correlation warm-up on", Iff(s.present(k), ge(k, sub(b, ONE))), (), [k])
    rec = one_update(M)
    p = s.at(k)
    if not isinstance(p, NT) or not {"time", "mean", "covariance", "volatility"} <= set(p.cls.fields):
        M.add("prediction is a record (time, mean, covariance, volatility)", "undecided", type(p).__name__)
        raise Skip()
    names = list(p.cls.fields)
    part = lambda f: M.D(p.vals[names.index(f)])
    t, v = part("time"), part("volatility")
    g = [s.present(k)]
    if isinstance(t, Label) and t.space == "time":
        M.prove("labelled with the time of the last return used", eq(t.t, add(a, k)), g, [k])
    else:
        M.add("labelled with a time", "undecided", repr(t))
    F, d = low_rank_parts(M, part("covariance"), N, K, "covariance")
    labelled(M, "volatility", v.axis, N)
    w = add(a, k)
    M.same_num("volatility is the moving volatility of that time", v.at(i), Num(App(vn, (w, i))), g, [k, i])
    # total variance before the rescaling, positive: of the first data, or of the last update
    lhs, _, _ = updated(rec, (sub(k, ONE),), i, K)
    y = fresh("k", "I", K)
    last = gt(add(mk_sum(y, K, ipow(App(rec["names"][0], (sub(k, ONE), i, y)), 2)), lhs), ZERO)
    for title, kk, lo, given in (("first prediction", ZERO, 0, Not(eq0(r(a, i)))), ("later predictions", k, 1, last)):
        if not lo and mean:
            continue
        tm.lower_bound[k] = lo
        tm.clear_memo()
        sb = lambda x: tm.subst(x, {k: kk})
        gg = [sb(x) for x in g] + [given]
        Fk, dk = (lambda i, q: vsubst(F.at(i, q), {k: kk})), (lambda i: vsubst(d.at(i), {k: kk}))
        M.same_num(f"total variance is the squared moving volatility, {title}", Num(add(mk_sum(y, K, ipow(Fk(i, y).r, 2)), dk(i).r)), Num(ipow(App(vn, (add(a, kk), i)), 2)), gg, [i] + ([k] if lo else []))
        q = M.index(K, "q")
        for nm, x in (("loadings", Fk(i, q)), ("diagonal", dk(i))):
            M.prove(f"{nm} are finite numbers, {title}", And(Not(x.nan), Not(x.inf)), gg, [i, q] + ([k] if lo else []))
        M.prove(f"diagonal is not negative, {title}", ge(dk(i).r, ZERO), gg, [i] + ([k] if lo else []))
    tm.lower_bound[k] = 0
    tm.clear_memo()
    used = [F.at(i, q), d.at(i), v.at(i)]
    if mean:
        used.append(part("mean").at(i))
    syms = {vn} | {x for o in M.centers for x in (o["x"], o["mu"])}
    M.depends("a prediction uses returns, means and volatilities up to its time only", used, lambda x, ix: le(ix[0], w) if x == "r" or x in syms else None, (), g, [k, i, q])
    if mean:
        M.prove("volatility, covariance and mean come from one volatility and two centring calls", BoolV(TRUE).t if (len(M.volas), len(M.centers)) == (1, 2) else FALSE)
        o1, o2 = M.centers[:2]
        M.same_num("mean is the moving mean plus the volatility times the moving mean of the scaled returns", part("mean").at(i),
                   Num(add(App(o1["mu"], (w, i)), mul(App(vn, (w, i)), App(o2["mu"], (w, i))))), g, [k, i])
    # every update takes the scaled return of the following time
    l = rec["ctx"][0]
    u = add(w, ONE)
    x = App(M.centers[-1]["x"], (u, i)) if mean else clipped(div(r(u, i), App(vn, (u, i))), c)
    be = weight(h2, ONE)
    M.same_num("an update takes the scaled return of its time", Num(ipow(tm.subst(rec["vals"][2].at(i).r, {l: k}), 2)), Num(div(mul(sub(ONE, be), ipow(x, 2)), sub(ONE, weight(h2, add(k, const(2)))))), [lt(add(k, ONE), n)], [i, k])
    if mean:
        lx = fresh("l", "I", n)
        M.same_num("second centring is of the scaled centred returns", M.centers[1]["data"].at(add(a, lx), i), Num(clipped(div(App(M.centers[0]["x"], (add(a, lx), i)), App(vn, (add(a, lx), i))), c)), (), [lx, i])
    # what the volatility and the means are computed from
    l = fresh("l", "I", T)
    o = M.volas[0]
    M.same_num("volatility of the returns" + (" less their moving mean" if mean else ""), o["data"].at(l, i), Num(App(M.centers[0]["x"], (l, i)) if mean else r(l, i)), (), [l, i])
    for nm, got, want in (("volatility", o["h"], h1),) + ((("first mean", M.centers[0]["h"], g1 or h1), ("second mean", M.centers[1]["h"], g2 or h2)) if mean else ()):
        M.prove(f"half-life of the {nm}", TRUE if got is want else FALSE)
    check_updates(M)
    M.total()


def C18(ck):
    with ck.mode("update") as M:
        n, K = M.nat("n", 2), M.nat("K", 1)
        M.assume(lt(K, n))
        F, d, r = M.data("F", 2), M.data("d", 1), M.data("r", 1)
        pv.nonneg_names.add("d")
        tot = lambda i: add(mk_sum(q, K, ipow(F(i, q), 2)), ipow(r(i), 2))
        q, p = fresh("k", "I", K), fresh("q", "I", n)
        M.assume(Forall(p, n, gt(tot(p), ZERO)))
        M.case = lambda env: dict(what="sum", seed=0, scale=1.0, n=int(env.ev(n)), rank=int(env.ev(K)), F=tab(env, "F", n, K), d=[abs(float(env.funs["d"](a))) for a in range(int(env.ev(n)))],
                                  r=[float(env.funs["r"](a)) for a in range(int(env.ev(n)))])
        out = M.call(LR + "_low_rank_sum", M.box(Arr((n, K), lambda i, k: Num(F(i, k)))), M.box(Arr((n,), lambda i: Num(d(i)))), M.box(Arr((n,), lambda i: Num(r(i)))))
        if not isinstance(out, NT) or list(out.cls.fields) != ["F", "d"]:
            M.add("value is a pair of loadings F and diagonal d", "undecided", type(out).__name__)
            raise Skip()
        F2, d2 = array(M, out.vals[0], (n, K), "loadings"), array(M, out.vals[1], (n,), "diagonal")
        i, k = M.index(n, "i"), fresh("k", "I", K)
        given = spectral_facts(M, i, K)
        M.same_num("total variance is that of the loadings, the diagonal and the return together", Num(add(mk_sum(k, K, ipow(F2.at(i, k).r, 2)), d2.at(i).r)), Num(add(tot(i), d(i))), given, [i])
        M.prove("diagonal is not negative", ge(d2.at(i).r, ZERO), given, [i])
        k2 = M.index(K, "k")
        for nm, v in (("loadings", F2.at(i, k2)), ("diagonal", d2.at(i))):
            M.prove(nm + " are finite numbers", And(Not(v.nan), Not(v.inf)), (), [i, k2])
        M.total()
    low_rank_running(ck)
    low_rank_iterated(ck)
