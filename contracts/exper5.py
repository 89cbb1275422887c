"""Contracts of the realized covariances, experiments/utils/experiment_utils.py (property C28)."""
from pyvc import terms as tm
from pyvc import prove as pv
from pyvc.terms import ZERO, ONE, And, Iff, add, sub, mul, div, const, ipow, mk_sum, fresh, ge, lt, eq, sqrt
from pyvc.values import Num, Axis, Label, Series
from pyvc.driver import Skip
from pyvc.lib_rec import Records
from contracts.ewma import ewavg, same_axis
from contracts.exper import U, table, labelled


def records(M):
    """m(t) >= 1 records of N returns for each of T times"""
    T, N = M.nat("T", 1), M.nat("N", 1)
    x, m = M.data("x", 3), M.data("m", 1, "I")
    M.data_positive.add("m")
    pv.pos_apps["m"] = lambda args: True
    tm.fun_lower["m"] = 1
    tm.clear_memo()
    M.it.forks = True                # pandas returns a series, not a table, for a label with one record
    R = M.box(Records(Axis("time", ZERO, T), lambda t: m(t), Axis("asset", ZERO, N), lambda t, s, i: Num(x(t, s, i))))
    return T, N, x, m, R


def several(M):
    """at least two records for every time: sums of squares of deviations that are zero only up to rounding make no counterexample"""
    def smp(rng, small):
        env = M.sample(rng, small)
        m = env.funs["m"]
        env.funs["m"] = lambda t: 1 + int(m(t))
        return env
    M.samplers = [smp]


def case(M, T, N, what, **kw):
    def f(env):
        n, k = int(env.ev(T)), int(env.ev(N))
        ms = [int(env.funs["m"](t)) for t in range(n)]
        return dict(what=what, seed=0, records=[[[float(env.funs["x"](t, s, i)) for i in range(k)] for s in range(ms[t])] for t in range(n)], **{q: float(env.ev(v)) for q, v in kw.items()})
    M.case = f


def pairs(M, v, n, first):
    """a sequence of n pairs (time, value), the times in order from the given one on"""
    s = M.it.as_seq(v)
    k = M.index(n, "k")
    q = M.index(s.n, "q")
    at = lambda k: s.at(k)
    if not s.full():                                  # elements passed over at the start
        M.prove("one result for every time", And(eq(s.n, add(n, first)), Iff(s.present(q), ge(q, first))), (), [q])
        at = lambda k: s.at(add(k, first))
    else:
        M.prove("one result for every time", eq(s.n, n))
    p = M.D(at(k))
    if not isinstance(p, tuple) or len(p) != 2 or not isinstance(M.D(p[0]), Label) or M.D(p[0]).space != "time":
        M.add("results are pairs of a time and a value", "undecided", str(p)[:80])
        raise Skip()
    M.prove("times in order of first appearance", eq(M.D(p[0]).t, add(k, first)), (), [k])
    return k, lambda k: M.D(M.D(at(k))[1])


def scatter(x, m, i, j):
    """sum over the records of the products of their deviations from the mean record"""
    def at(t):
        def dev(s, i):
            u = fresh("u", "I", m(t))
            return sub(x(t, s, i), div(mk_sum(u, m(t), x(t, u, i)), m(t)))
        s = fresh("s", "I", m(t))
        return mk_sum(s, m(t), mul(dev(s, i), dev(s, j)))
    return at


def C28(ck):
    with ck.mode("realized covariance") as M:
        T, N, x, m, R = records(M)
        case(M, T, N, "cov")
        k, val = pairs(M, M.call(U + "_realized_covariance", R), T, ZERO)
        f = table(M, val(k), "covariance")
        labelled(M, "rows", f.rows, N)
        labelled(M, "columns", f.cols, N)
        i, j = M.index(N, "i"), M.index(N, "j")
        M.reachable("inputs", lt(k, T), [k])
        M.same_num("sum of the outer products of the deviations of the records of the time", f.at(i, j), Num(scatter(x, m, i, j)(k)), (), [k, i, j])
        M.same_num("symmetric", f.at(i, j), f.at(j, i), (), [k, i, j])
        M.same_num("zero when the time has a single record", Num(tm.subst_terms(f.at(i, j).r, {m(k): ONE})), Num(ZERO), (), [k, i, j])
        M.depends("reads records of its own time only", [f.at(i, j)], lambda n, ix: eq(ix[0], k) if n in ("x", "m") else None, (), (), [k, i, j])
        M.total()
    with ck.mode("realized volatility") as M:
        T, N, x, m, R = records(M)
        case(M, T, N, "vola")
        k, val = pairs(M, M.call(U + "realized_volas", R), T, ZERO)
        v = val(k)
        if not isinstance(v, Series):
            M.add("volatility is one value per asset", "undecided", type(v).__name__)
            raise Skip()
        labelled(M, "volatility", v.axis, N)
        i = M.index(N, "i")
        s = fresh("s", "I", m(k))
        M.same_num("root of the sum of the squares of the records of the time", v.at(i), Num(sqrt(mk_sum(s, m(k), ipow(x(k, s, i), 2)))), (), [k, i])
        M.total()
    with ck.mode("moving average") as M:
        T, N, x, m, R = records(M)
        h = M.pos("h")
        several(M)
        case(M, T, N, "ewma", h=h)
        k, val = pairs(M, M.call(U + "realized_ewma", R, Num(h)), sub(T, ONE), ONE)
        f = table(M, val(k), "average")
        labelled(M, "rows", f.rows, N)
        labelled(M, "columns", f.cols, N)
        i, j = M.index(N, "i"), M.index(N, "j")
        M.induct("weighted average of the realized covariances so far, weights halving every half-life",
                 lambda k: table(M, val(k)).at(i, j), lambda k: ewavg(scatter(x, m, i, j), add(k, const(2)), h), k, vars=[i, j])
        M.total()
