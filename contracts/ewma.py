"""Contracts of cvx/covariance/ewma.py (properties C01-C08)."""
import math
import time

from pyvc import terms as tm
from pyvc import prove as pv
from pyvc.terms import (ZERO, ONE, TRUE, FALSE, And, Or, Not, Forall, Exists, Implies, add, sub, mul, div, const, exp, log, ipow, mk_sum,
                        fresh, eq0, ge, lt, gt, le, eq, App, sqrt, Iff)
from pyvc.values import Num, BoolV, Axis, Frame, Series, Ref, Seq, NT, Label
from pyvc.driver import Skip, equal
from pyvc import numeval as ne

LOG2 = log(const(2))
MOD = "cvx.covariance.ewma:"


def weight(h, back):
    """2^(-back/h)"""
    return exp(tm.neg(mul(div(LOG2, h), back)))


def ewavg(x, n, h):
    """normalised exponential average of x(0..n-1); weights halve every h steps into the past"""
    s = fresh("s", "I", n)
    u = fresh("s", "I", n)
    last = sub(n, ONE)
    return div(mk_sum(s, n, mul(weight(h, sub(last, s)), x(s))), mk_sum(u, n, weight(h, sub(last, u))))


def returns(M, T, N, name="r"):
    r = M.data(name, 2)
    rows, cols = Axis("time", ZERO, T), Axis("asset", ZERO, N)
    return r, M.frame(rows, cols, lambda t, i: Num(r(t, i)))


def table(env, name, T, N):
    return [[float(env.funs[name](t, i)) for i in range(int(N))] for t in range(int(T))]


def is_frame(M, v, cols=None):
    f = M.D(v)
    if not isinstance(f, Frame):
        M.add("result is a table", "undecided", f"{type(f).__name__}")
        return None
    return f


def same_axis(M, name, got, want, given=()):
    l = tm.fresh("l", "I")
    tm.lower_bound[l] = 0
    if got.space != want.space:
        return M.add(name, "refuted" if got.n is not ZERO else "undecided", f"labels of {got.space} instead of {want.space}")
    return M.prove(name, Iff(got.has(l), want.has(l)), given, [l])


# ------------------------------------------------------------------ C01
def C01(ck, lemma=False):
    with ck.mode("volatility without clipping", lemma=lemma) as M:
        T, N, m = M.nat("T", 1), M.nat("N", 1), M.nat("m")
        h = M.pos("h")
        r, R = returns(M, T, N)
        M.case = lambda env: dict(data=table(env, "r", env.ev(T), env.ev(N)), h=env.ev(h), m=env.ev(m), what="vol", seed=0)
        v = is_frame(M, M.call(MOD + "volatility", R, halflife=Num(h), min_periods=Num(m), clip_at=None))
        t, i = M.index(T), M.index(N, "i")
        l = tm.fresh("l", "I")
        tm.lower_bound[l] = 0
        M.reachable("warm-up can be complete", ge(t, sub(m, ONE)), [t])
        M.prove("rows are exactly the times from the m-th on", Iff(v.rows.has(l), And(lt(l, T), ge(l, sub(m, ONE)))), (), [l])
        M.prove("columns are exactly the assets", Iff(v.cols.has(l), lt(l, N)), [lt(ZERO, T), lt(sub(m, ONE), T)], [l])
        M.same_num("value is the root of the normalised exponential average of squared returns", v.at(t, i),
                   Num(sqrt(ewavg(lambda s: ipow(r(s, i), 2), add(t, ONE), h))), [ge(t, sub(m, ONE))], [t, i])
        M.total()
    for adj in (True, False):
        with ck.mode(f"center mean_adj={adj}", lemma=lemma) as M:
            T, N, m = M.nat("T", 1), M.nat("N", 1), M.nat("m")
            h = M.pos("h")
            r, R = returns(M, T, N)
            M.case = lambda env: dict(data=table(env, "r", env.ev(T), env.ev(N)), h=env.ev(h), m=env.ev(m), what="center", seed=0)
            res = M.D(M.call(MOD + "center", R, halflife=Num(h), min_periods=Num(m), mean_adj=BoolV(TRUE if adj else FALSE)))
            X, mu = is_frame(M, res[0]), is_frame(M, res[1])
            t, i = M.index(T), M.index(N, "i")
            l = tm.fresh("l", "I")
            tm.lower_bound[l] = 0
            if adj:
                g = [ge(t, sub(m, ONE))]
                full = And(lt(l, T), ge(l, sub(m, ONE)))
                mean = ewavg(lambda s: r(s, i), add(t, ONE), h)
                M.prove("means at exactly the times from the m-th on", Iff(mu.rows.has(l), full), (), [l])
                M.prove("centred returns at exactly the times from the m-th on", Iff(X.rows.has(l), full), (), [l])
                M.same_num("moving mean is the normalised exponential average", mu.at(t, i), Num(mean), g, [t, i])
                M.same_num("centred return is the return less its moving mean", X.at(t, i), Num(sub(r(t, i), mean)), g, [t, i])
            else:
                M.prove("returns at all times", Iff(X.rows.has(l), lt(l, T)), (), [l])
                M.same_num("returns unchanged", X.at(t, i), Num(r(t, i)), (), [t, i])
                M.same_num("zero mean", mu.at(t, i), Num(ZERO), (), [t, i])
            M.total()


# ------------------------------------------------------------------ C02
def step_mean(x_prev, y, k, h, h1=ONE):
    """X_k = X_{k-1} + (1-b) (y - X_{k-1}) / (1 - b^(k+1)),  b = 2^(-1/h)"""
    b = weight(h, ONE)
    return add(x_prev, div(mul(sub(ONE, b), sub(y, x_prev)), sub(ONE, weight(h, add(k, ONE)))))


def C02(ck, lemma=False):
    from pyvc.driver import unfold_at, has_rec, equal
    with ck.mode("volatility with clipping", lemma=lemma) as M:
        T, N, m = M.nat("T", 1), M.nat("N", 1), M.nat("m")
        h, c = M.pos("h"), M.pos("c")
        r, R = returns(M, T, N)
        M.case = lambda env: dict(data=table(env, "r", env.ev(T), env.ev(N)), h=env.ev(h), m=env.ev(m), c=env.ev(c), what="vol", seed=0)
        v = is_frame(M, M.call(MOD + "volatility", R, halflife=Num(h), min_periods=Num(m), clip_at=Num(c)))
        i = M.index(N, "i")
        l = tm.fresh("l", "I")
        tm.lower_bound[l] = 0
        M.prove("rows are exactly the times from the m-th on", Iff(v.rows.has(l), And(lt(l, T), ge(l, sub(m, ONE)))), (), [l])
        k = M.index(T, "k")
        tm.lower_bound[k] = 1
        rep = [ge(k, sub(m, ONE))]
        M.prove("reported variances are finite", Not(Or(v.at(k, i).nan, v.at(k, i).inf)), rep, [k, i])
        X = lambda t: ipow(v.at(t, i).r, 2)
        y = lambda t: ipow(r(t, i), 2)
        M.same_num("first squared return enters unchanged", Num(X(ZERO)), Num(y(ZERO)), [le(m, ONE)], [i])
        xk, xp = unfold_at(X(k), k), X(sub(k, ONE))
        M.same_num("up to min_periods+1 returns: squared returns enter unchanged", Num(xk), Num(step_mean(xp, y(k), k, h)), [le(k, m), ge(k, m)], [k, i])
        lim = tm.tmin(y(k), mul(ipow(c, 2), xp))
        M.same_num("afterwards: squared return limited to c^2 times the previous variance", Num(xk), Num(step_mean(xp, lim, k, h)), [ge(k, add(m, ONE))], [k, i])
        # before the first reported row: induction on the state of the recursion
        recs = [x for x in tm.walk(X(k)) if x.op == "app" and x.args[0].startswith("rec")]
        if X(k).op == "app" and recs == [X(k)]:
            plain = lambda t: ewavg(lambda s: y(s), add(t, ONE), h)
            M.same_num("state starts as the first squared return", Num(X(ZERO)), Num(y(ZERO)), (), [i])
            ih = tm.subst_terms(unfold_at(X(k), k), {X(sub(k, ONE)): plain(sub(k, ONE))})
            M.same_num("state is the plain average up to min_periods+1 returns (induction step)", Num(ih), Num(plain(k)), [le(k, m)], [k, i])
        else:
            M.same_num("warm-up value is the plain average", Num(X(k)), Num(ewavg(lambda s: y(s), add(k, ONE), h)), [le(k, m), ge(k, sub(m, ONE))], [k, i])
        M.total()
    for with_c in (() if lemma else (True, False)):
        with ck.mode("clip(data, %s)" % ("c" if with_c else "None")) as M:
            T, N = M.nat("T", 1), M.nat("N", 1)
            c = M.pos("c")
            r = M.data("r", 2)
            na = M.data("na", 2, "B")
            D = M.frame(Axis("time", ZERO, T), Axis("asset", ZERO, N), lambda t, i: Num(r(t, i), na(t, i)))
            out = is_frame(M, M.call(MOD + "clip", D, clip_at=Num(c) if with_c else None))
            t, i = M.index(T), M.index(N, "i")
            q = M.index(N, "q")
            l = tm.fresh("l", "I")
            tm.lower_bound[l] = 0
            M.prove("rows with at least one present value remain", Iff(out.rows.has(l), And(lt(l, T), Exists(q, N, Not(na(l, q))))), (), [l])
            want = tm.tmax(tm.tmin(r(t, i), c), tm.neg(c)) if with_c else r(t, i)
            M.same_num("present values limited to [-c, c], missing stay missing", out.at(t, i), Num(want, na(t, i)), [Exists(q, N, Not(na(t, q)))], [t, i])
            M.total()


# ------------------------------------------------------------------ contracts of volatility() and center() as callees
def _finite(M, f):
    t, i = tm.fresh("t", "I"), tm.fresh("i", "I")
    tm.lower_bound[t] = 0
    tm.lower_bound[i] = 0
    x = f.at(t, i)
    return isinstance(x, Num) and M.it.simp(x.nan, [f.rows.has(t), f.cols.has(i)]) is FALSE and M.it.simp(x.inf, [f.rows.has(t), f.cols.has(i)]) is FALSE


def _table(M, v):
    f = M.it.D(v)
    if not isinstance(f, Frame) or f.kind != "num":
        return None
    M.it.affine(f.rows), M.it.affine(f.cols)
    rows, cols = M.it.affine(f.rows), M.it.affine(f.cols)
    if cols.off is not ZERO or M.it.decide(ge(rows.n, ONE)) is not True or not _finite(M, f):
        return None
    return f, rows, cols


def related(M, recs, f, rows, same):
    """an earlier call whose data are related to these: the same data give the same result, data rescaled per
    asset by positive constants give rescaled results, permuted assets give permuted results (relational part of the
    contracts; verified by check_relational)"""
    hy = list(M.it.hyps)
    t, i = fresh("t", "I"), fresh("i", "I")
    tm.lower_bound[t] = tm.lower_bound[i] = 0
    has = [f.rows.has(t), f.cols.has(i)]
    for o in recs:
        if not same(o) or not equal(hy, o["rows"].off, rows.off) or not equal(hy, o["rows"].n, rows.n):
            continue
        x = f.at(t, i).r
        tries = [lambda g, a, b: g(a, b)]
        if M.scale_fn:
            tries.append(lambda g, a, b: mul(M.scale_fn(b), g(a, b)))
        if M.perm_fn:
            tries.append(lambda g, a, b: g(a, M.perm_fn(b)))
        for tr in tries:
            if equal(hy + has, x, tr(lambda a, b: o["data"].at(a, b).r, t, i)):
                return o, lambda nm, a, b: tr(lambda p, q: App(nm, (p, q)), a, b)
    return None


def vola_contract(M):
    """volatility(returns, h, m, c) on finite returns on rows [lo, hi), hi - lo >= max(m, 1):
    a table on rows [lo + max(m-1, 0), hi) of finite values v(t, i) >= 0, v(t, i) > 0 implies v(u, i) > 0 for u >= t,
    and (without clipping) v(t, i) = 0 implies returns(t, i) = 0.  What v is, is the contract of C01/C02."""
    from pyvc import driver

    def contract(it, returns, halflife, min_periods, clip_at):
        tb = _table(M, returns)
        if tb is None or not isinstance(halflife, Num) or not pv.is_pos(halflife.r) or not isinstance(min_periods, Num) or min_periods.r.sort != "I":
            return NotImplemented
        if clip_at is not None and not (isinstance(clip_at, Num) and pv.is_pos(clip_at.r)):
            return NotImplemented
        f, rows, cols = tb
        m = min_periods.r
        skip = ZERO if m is ZERO else (sub(m, ONE) if it.decide(ge(m, ONE)) is True else tm.tmax(sub(m, ONE), ZERO))
        if it.decide(ge(sub(rows.n, skip), ONE)) is not True:
            return NotImplemented
        old = related(M, M.volas, f, rows, lambda o: o["h"] is halflife.r and o["m"] is m and (o["c"] is clip_at.r if clip_at is not None else o["c"] is None))
        if old is not None:
            o, image = old
            return it.new(Frame(Axis(rows.space, add(rows.off, skip), sub(rows.n, skip)), cols, lambda t, i: Num(image(o["name"], t, i))))
        name = f"vola{len(M.volas)}"
        pv.nonneg_names.add(name)
        clip = clip_at is not None
        M.volas.append(dict(name=name, data=f, rows=rows, skip=skip, h=halflife.r, m=m, c=clip_at.r if clip else None))

        def pair(x, y):
            (tx, ix), (ty, iy) = x.args[1], y.args[1]
            same = TRUE if ix is iy else eq(ix, iy)
            return [tm.Implies(And(same, le(tx, ty), gt(x, ZERO)), gt(y, ZERO)), tm.Implies(And(same, le(ty, tx), gt(y, ZERO)), gt(x, ZERO))]
        pv.pair_facts[name] = pair
        if not clip:
            driver.symbol_facts[name] = lambda args, t: [tm.Implies(eq0(t), eq0(f.at(*args).r))]
            tm.zero_forces[name] = lambda args: [f.at(*args).r]
        ne.fun_hooks[name] = vola_hook(name, f, rows, halflife.r, m, clip_at.r if clip else None)
        return it.new(Frame(Axis(rows.space, add(rows.off, skip), sub(rows.n, skip)), cols, lambda t, i: Num(App(name, (t, i)))))
    M.it.contracts[MOD + "volatility"] = contract


def _column(env, f, rows, i):
    t, q = fresh("t", "I"), fresh("q", "I")
    x = f.at(t, q)
    off, n = int(env.ev(rows.off)), int(env.ev(rows.n))
    return off, [float(env.ev(x.r, {t: off + k, q: i})) for k in range(n)]


def vola_hook(name, f, rows, h, m, c):
    """numerical value of the contract symbol (contracts C01 and C02), used only to look for failing inputs"""
    def hook(env, xs, args, b):
        t, i = xs
        key = (name, i)
        if key not in env.recmemo:
            off, y = _column(env, f, rows, i)
            H, mm, C = env.ev(h), env.ev(m), None if c is None else env.ev(c)
            w = 0.5 ** (1 / H)
            out, x = [], None
            for k, v in enumerate(y):
                v = v * v
                if x is None:
                    x = v
                else:
                    if C is not None and k >= mm + 1:
                        v = min(v, C * C * x)
                    x = x + (1 - w) * (v - x) / (1 - w ** (k + 1))
                out.append(math.sqrt(max(x, 0.0)))
            env.recmemo[key] = (off, out)
        off, out = env.recmemo[key]
        if not 0 <= t - off < len(out):
            raise ne.Undefined("row of volatility")
        return out[t - off]
    return hook


def center_hooks(xn, mn, f, rows, h):
    def get(env, i):
        key = (xn, i)
        if key not in env.recmemo:
            off, y = _column(env, f, rows, i)
            w = 0.5 ** (1 / env.ev(h))
            num = den = 0.0
            xs, ms = [], []
            for v in y:
                num, den = num * w + v, den * w + 1
                ms.append(num / den)
                xs.append(v - num / den if len(ms) > 1 else 0.0)
            env.recmemo[key] = (off, xs, ms)
        return env.recmemo[key]

    def hook(which):
        def h2(env, xs, args, b):
            t, i = xs
            r = get(env, i)
            if not 0 <= t - r[0] < len(r[1]):
                raise ne.Undefined("row of center")
            return r[which][t - r[0]]
        return h2
    ne.fun_hooks[xn], ne.fun_hooks[mn] = hook(1), hook(2)


def center_contract(M):
    """center(data, h, 0, True) on finite data on rows [lo, hi): two tables on the same rows, x(t, i) and mu(t, i),
    mu the normalised exponential average of data(lo..t, i), x = data - mu (contract of C01); x(lo, i) = 0."""
    from pyvc import driver

    def contract(it, returns, halflife, min_periods, mean_adj):
        if it.truth(mean_adj) is not TRUE:
            return NotImplemented
        tb = _table(M, returns)
        if tb is None or not isinstance(halflife, Num) or not pv.is_pos(halflife.r) or not isinstance(min_periods, Num) or min_periods.r is not ZERO:
            return NotImplemented
        f, rows, cols = tb
        old = related(M, M.centers, f, rows, lambda o: o["h"] is halflife.r)
        if old is not None:
            o, image = old
            ax = Axis(rows.space, rows.off, rows.n)
            return (it.new(Frame(ax, cols, lambda t, i: Num(image(o["x"], t, i)))), it.new(Frame(ax, cols, lambda t, i: Num(image(o["mu"], t, i)))))
        k = len(M.centers)
        xn, mn = f"cent{k}", f"mavg{k}"
        M.centers.append(dict(x=xn, mu=mn, data=f, rows=rows, h=halflife.r))
        driver.symbol_facts[xn] = lambda args, t: [tm.Implies(eq(args[0], rows.off), eq0(t))]
        center_hooks(xn, mn, f, rows, halflife.r)
        ax = Axis(rows.space, rows.off, rows.n)
        return (it.new(Frame(ax, cols, lambda t, i: Num(App(xn, (t, i))))), it.new(Frame(ax, cols, lambda t, i: Num(App(mn, (t, i))))))
    M.it.contracts[MOD + "center"] = contract


def check_vola_contract(ck, clip, value=False):
    from pyvc.driver import unfold_at
    with ck.mode("callee contract of volatility, clipping " + ("on" if clip else "off"), lemma=True) as M:
        T, N, m = M.nat("T", 1), M.nat("N", 1), M.nat("m")
        h = M.pos("h")
        c = M.pos("c") if clip else None
        r, R = returns(M, T, N)
        v = is_frame(M, M.call(MOD + "volatility", R, halflife=Num(h), min_periods=Num(m), clip_at=Num(c) if clip else None))
        t, i = M.index(T), M.index(N, "i")
        u = add(t, ONE)
        l = tm.fresh("l", "I")
        tm.lower_bound[l] = 0
        M.prove("rows", Iff(v.rows.has(l), And(lt(l, T), ge(l, sub(m, ONE)))), (), [l])
        M.prove("columns", Iff(v.cols.has(l), lt(l, N)), [lt(sub(m, ONE), T)], [l])
        g = [ge(t, sub(m, ONE))]
        M.prove("finite", Not(Or(v.at(t, i).nan, v.at(t, i).inf)), g, [t, i])
        M.prove("non-negative", ge(v.at(t, i).r, ZERO), g, [t, i])
        if clip:
            k = M.index(T, "k")
            tm.lower_bound[k] = 1
            X = ipow(v.at(k, i).r, 2)
            ok = X.op == "app" and X.args[0].startswith("rec")
            from pyvc import interp
            ok = ok and interp.rec_stays_positive(X.args[0], tuple(X.args[1][2:]))
            M.add("once positive, positive at the next row", "discharged" if ok else "undecided", "" if ok else str(X), by="induction" if ok else None)
        else:
            M.prove("once positive, positive at the next row", gt(v.at(u, i).r, ZERO), g + [lt(u, T), gt(v.at(t, i).r, ZERO)], [t, i])
            M.prove("zero only when the returns are zero", eq0(r(t, i)), g + [eq0(v.at(t, i).r)], [t, i])
        M.total()


def check_center_contract(ck):
    with ck.mode("callee contract of center", lemma=True) as M:
        lo, n, N = M.nat("lo"), M.nat("n", 1), M.nat("N", 1)
        h = M.pos("h")
        r = M.data("r", 2)
        R = M.frame(Axis("time", lo, n), Axis("asset", ZERO, N), lambda t, i: Num(r(t, i)))
        res = M.D(M.call(MOD + "center", R, halflife=Num(h), min_periods=Num(ZERO), mean_adj=BoolV(TRUE)))
        X, mu = is_frame(M, res[0]), is_frame(M, res[1])
        k, i = M.index(n, "k"), M.index(N, "i")
        t = add(lo, k)
        l = tm.fresh("l", "I")
        tm.lower_bound[l] = 0
        full = And(ge(l, lo), lt(l, add(lo, n)))
        mean = ewavg(lambda s: r(add(lo, s), i), add(k, ONE), h)
        M.prove("mean rows", Iff(mu.rows.has(l), full), (), [l])
        M.prove("rows", Iff(X.rows.has(l), full), (), [l])
        M.same_num("mean", mu.at(t, i), Num(mean), (), [k, i])
        M.same_num("centred", X.at(t, i), Num(sub(r(t, i), mean)), (), [k, i])
        M.same_num("first row is zero", X.at(lo, i), Num(ZERO), (), [i])
        q = fresh("q", "I", add(k, ONE))
        M.same_num("zero so far gives zero", X.at(t, i), Num(ZERO), [Forall(q, add(k, ONE), eq0(r(add(lo, q), i)))], [k, i])
        M.total()


# ------------------------------------------------------------------ the iterated predictor
class IE:
    """one symbolic run of iterated_ewma with case-split parameters, callees volatility() and center() by contract.

    T = a + d + n rows with m_vola = a+1 (or m_vola = 0 and a = 0), m_cov = b+1 (or 0 and b = 0);
    the first reported volatilities (row a) up to row a+d-1 are all zero, some asset's is not at row a+d
    (d = 0: some asset has moved by the end of the first warm-up)."""

    def __init__(self, M, mean, clip, zero_m1=False, zero_m2=False, prefix=False, missing=False, name="r"):
        self.M, self.mean, self.clip, self.missing = M, mean, clip, missing
        self.N = N = M.nat("N", 1)
        n = self.n = M.nat("n", 1)
        a = self.a = ZERO if zero_m1 else M.nat("a")
        d = self.d = M.nat("d") if prefix else ZERO
        b = self.b = ZERO if zero_m2 else M.nat("b")
        self.T = T = add(a, d, n)
        self.h1, self.h2 = M.pos("h1"), M.pos("h2")
        self.m1 = ZERO if zero_m1 else add(a, ONE)
        self.m2 = ZERO if zero_m2 else add(b, ONE)
        self.c = M.pos("c") if clip else None
        self.g1, self.g2 = (M.pos("g1"), M.pos("g2")) if mean == "own" else (self.h1, self.h2)
        r = self.r = M.data(name, 2)
        if missing:
            na = M.data("na", 2, "B")
            from pyvc.interp import let_term
            tv, iv = fresh("t", "I"), fresh("i", "I")
            lt_ = let_term([tv, iv], tm.ite(na(tv, iv), ZERO, r(tv, iv)))
            self.x0 = lambda t, i: lt_((t, i))
            cell = lambda t, i: Num(r(t, i), na(t, i))
        else:
            self.x0 = r
            cell = lambda t, i: Num(r(t, i))
        self.R = M.frame(Axis("time", ZERO, T), Axis("asset", ZERO, N), cell)
        p = self.p = add(a, d)
        M.it.first_hints = [p]
        kw = dict(vola_halflife=Num(self.h1), cov_halflife=Num(self.h2), min_periods_vola=Num(self.m1), min_periods_cov=Num(self.m2),
                  mean=BoolV(TRUE if mean else FALSE), clip_at=Num(self.c) if clip else None)
        if mean == "own":
            kw.update(mu_halflife1=Num(self.g1), mu_halflife2=Num(self.g2))
        self.kw = kw

    def run(self):
        M = self.M
        vola_contract(M)
        center_contract(M)
        vn = f"vola{len(M.volas)}"
        q, z = fresh("q", "I", self.N), fresh("z", "I", self.N)
        self.vola = vola = lambda t, i: App(vn, (t, i))
        M.assume(Exists(z, self.N, Not(eq0(vola(self.p, z)))))
        if self.d is not ZERO:
            M.assume(Or(eq0(self.d), Forall(q, self.N, eq0(vola(sub(self.p, ONE), q)))))
        M.case = lambda env: self.case(env)
        s = self.out = self.seq(M.call(MOD + "iterated_ewma", self.R, **self.kw))
        if len(M.volas) != 1:
            M.add("volatility is called once", "undecided", f"{len(M.volas)} calls by contract")
        return s

    def seq(self, v):
        s = self.M.D(v)
        if not isinstance(s, Seq):
            self.M.add("predictions are a sequence", "undecided", type(s).__name__)
            raise Skip()
        return s

    def case(self, env, **more):
        T, N = int(env.ev(self.T)), int(env.ev(self.N))
        rows = []
        for t in range(T):
            rows.append([None if self.missing and env.ev(App("na", (const(t), const(i)), "B")) else float(env.funs["r"](t, i)) for i in range(N)])
        c = dict(data=rows, T=T, n=N, seed=0, miss="some" if self.missing else None, dist="normal", scale=1.0, hv=env.ev(self.h1), hc=env.ev(self.h2),
                 mv=int(env.ev(self.m1)), mc=int(env.ev(self.m2)), mean=bool(self.mean), c=env.ev(self.c) if self.c is not None else None,
                 h1=env.ev(self.g1) if self.mean == "own" else None, h2=env.ev(self.g2) if self.mean == "own" else None, what="iewma")
        c.update(more)
        return c

    # ---- parts of prediction k
    def pred(self, k):
        M = self.M
        v = self.out.at(k)
        if not isinstance(v, NT) or not {"time", "mean", "covariance", "volatility"} <= set(v.cls.fields):
            M.add("prediction is a record (time, mean, covariance, volatility)", "undecided", type(v).__name__)
            raise Skip()
        names = list(v.cls.fields)
        get = lambda f: M.D(v.vals[names.index(f)])
        return Bag(time=get("time"), mean=get("mean"), cov=get("covariance"), vola=get("volatility"))

    def second(self, cov):
        """the second-stage data the covariance is built from: A(t, i)"""
        M = self.M
        if self.mean and M.centers:
            nm = M.centers[-1]["x"]
            return lambda t, i: App(nm, (t, i))
        from pyvc import interp
        lets = {}
        for x in tm.walk(cov):
            if x.op == "app" and x.args[0] in interp.let_defs:
                lets.setdefault((x.args[0], x.args[1][2:]), x)
        if len(lets) == 1:
            (nm, params), = lets
            return lambda t, i: App(nm, (t, i) + params)
        return lambda t, i: self.adj_spec(t, i)

    def x1(self, t, i):
        return App(self.M.centers[0]["x"], (t, i)) if self.mean else self.x0(t, i)

    def adj_spec(self, t, i):
        v = self.vola(t, i)
        q = div(self.x1(t, i), v)
        if self.c is not None:
            q = tm.tmax(tm.tmin(q, self.c), tm.neg(self.c))
        return tm.ite(eq0(v), ZERO, q)

    def Q(self, A, k, i, j):
        s = fresh("s", "I", add(k, ONE))
        return mk_sum(s, add(k, ONE), mul(weight(self.h2, sub(k, s)), A(add(self.p, s), i), A(add(self.p, s), j)))


class Bag:
    def __init__(self, **kw):
        self.__dict__.update(kw)




# all sizes and parameters are symbolic in every mode; the modes split the cases of the parameters
MODES = [dict(mean=mean, clip=clip, prefix=not clip) for mean in (False, True, "own") for clip in (False, True)]
EDGE = [dict(mean=False, clip=False, zero_m1=True), dict(mean=False, clip=False, zero_m2=True), dict(mean=True, clip=False, prefix=True, zero_m1=True, zero_m2=True)]


def mode_name(o):
    return "iterated_ewma " + ", ".join(f"{k}={v}" for k, v in o.items() if v is not False)


def callee_lemmas(ck, o):
    check_vola_contract(ck, False)
    if any(x["clip"] for x in o):
        check_vola_contract(ck, True)
    if any(x["mean"] for x in o):
        check_center_contract(ck)


# ------------------------------------------------------------------ C03
def C03(ck):
    for clip in (False, True):
        with ck.mode("volatility rows, clipping " + ("on" if clip else "off")) as M:
            T, N, m = M.nat("T", 1), M.nat("N", 1), M.nat("m")
            h = M.pos("h")
            c = M.pos("c") if clip else None
            r, R = returns(M, T, N)
            M.case = lambda env: dict(data=table(env, "r", env.ev(T), env.ev(N)), T=int(env.ev(T)), n=int(env.ev(N)), h=env.ev(h), hv=env.ev(h), hc=2.0, mv=env.ev(m), mc=0,
                                      mean=False, h1=None, h2=None, c=env.ev(c) if clip else None, what="vol", seed=0, dist="normal", miss=None, scale=1.0)
            v = is_frame(M, M.call(MOD + "volatility", R, halflife=Num(h), min_periods=Num(m), clip_at=Num(c) if clip else None))
            l = fresh("l", "I")
            M.prove("one row for each time from the m-th on and none earlier", Iff(v.rows.has(l), And(lt(l, T), ge(l, sub(m, ONE)))), (), [l])
            if v.rows.off is not None:
                M.prove("rows in time order", Or(le(v.rows.n, ZERO), eq(v.rows.off, tm.tmax(sub(m, ONE), ZERO))), (), [])
            M.total()
    o = MODES + EDGE
    callee_lemmas(ck, o)
    for kw in o:
        with ck.mode(mode_name(kw)) as M:
            e = IE(M, **kw)
            s = e.run()
            k = M.index(s.n, "k")
            P = e.pred(k)
            M.prove("one candidate per time from the end of the volatility warm-up", eq(s.n, e.n))
            M.prove("predictions from the end of the correlation warm-up on", Iff(s.present(k), ge(k, e.b)), (), [k])
            t = P.time
            if isinstance(t, Label) and t.space == "time":
                M.prove("labelled with the time of the last observation used, in time order", eq(t.t, add(e.p, k)), [s.present(k)], [k])
            else:
                M.add("labelled with a time of the returns", "undecided", repr(t))
            M.reachable("a prediction exists", s.present(k), [k])
            M.total()
    for clip in (False, True):
        with ck.mode("volatility warm-up longer than the history, clipping " + ("on" if clip else "off")) as M:
            T, N, x = M.nat("T", 1), M.nat("N", 1), M.nat("x")
            h1, h2 = M.pos("h1"), M.pos("h2")
            m1, m2 = add(T, x, ONE), M.nat("m2")
            c = M.pos("c") if clip else None
            r, R = returns(M, T, N)
            M.case = lambda env: dict(data=table(env, "r", env.ev(T), env.ev(N)), T=int(env.ev(T)), n=int(env.ev(N)), hv=env.ev(h1), hc=env.ev(h2), mv=int(env.ev(m1)), mc=int(env.ev(m2)),
                                      mean=False, h1=None, h2=None, c=env.ev(c) if clip else None, what="iewma", seed=0, dist="normal", miss=None, scale=1.0)
            v = M.call(MOD + "iterated_ewma", R, vola_halflife=Num(h1), cov_halflife=Num(h2), min_periods_vola=Num(m1), min_periods_cov=Num(m2), clip_at=Num(c) if clip else None)
            no_predictions(M, v)
            M.total()
    with ck.mode("every volatility zero") as M:
        e = IE(M, False, False, prefix=True)
        vola_contract(M)
        z = fresh("z", "I", e.N)
        M.assume(Forall(z, e.N, eq0(App("vola0", (sub(e.T, ONE), z)))))
        M.it.first_hints = [e.T]
        M.case = e.case
        no_predictions(M, M.call(MOD + "iterated_ewma", e.R, **e.kw))
        M.total()


def no_predictions(M, v):
    s = M.D(v)
    if isinstance(s, (tuple, list)) or type(s).__name__ == "ListV":
        n = len(s) if isinstance(s, (tuple, list)) else len(s.items)
        M.add("no predictions", "discharged" if n == 0 else "undecided", f"{n} predictions", by="execution" if n == 0 else None)
    elif isinstance(s, Seq):
        k = fresh("k", "I", s.n)
        M.prove("no predictions", Or(le(s.n, ZERO), Not(s.present(k))), (), [k] if s.n is not ZERO else [])
    else:
        M.add("no predictions", "undecided", type(s).__name__)


# ------------------------------------------------------------------ C04
def covariance_parts(M, e, k=None):
    """the k-th prediction at generic assets i, j under the hypothesis that it is yielded"""
    s = e.out
    k = M.index(s.n, "k") if k is None else k
    M.assume(s.present(k))
    P = e.pred(k)
    if not isinstance(P.cov, Frame) or not isinstance(P.vola, Series) or not isinstance(P.mean, Series):
        M.add("covariance is a table, mean and volatility are series", "undecided", f"{type(P.cov).__name__}")
        raise Skip()
    return k, P


def asset_labels(M, P, N):
    l = fresh("l", "I")
    for nm, ax in (("covariance rows", P.cov.rows), ("covariance columns", P.cov.cols), ("volatility", P.vola.axis), ("mean", P.mean.axis)):
        if ax.space != "asset":
            M.add(f"{nm} labelled by the assets", "undecided", f"labels of {ax.space}")
        else:
            M.prove(f"{nm} labelled by the assets in order", Iff(ax.has(l), lt(l, N)), (), [l])


def C04(ck):
    o = MODES + EDGE
    callee_lemmas(ck, o)
    for kw in o:
        with ck.mode(mode_name(kw)) as M:
            e = IE(M, **kw)
            e.run()
            k, P = covariance_parts(M, e)
            i, j = M.index(e.N, "i"), M.index(e.N, "j")
            asset_labels(M, P, e.N)
            F, v = P.cov, P.vola
            ii, ij, ji = F.at(i, i), F.at(i, j), F.at(j, i)
            M.same_num("symmetric", ij, ji, (), [k, i, j])
            vi = v.at(i)
            M.prove("volatilities are finite", Not(Or(vi.nan, vi.inf)), (), [k, i])
            ok = [Not(ii.nan)]
            M.same_num("diagonal is the squared volatility", ii, Num(ipow(vi.r, 2)), ok, [k, i])
            A = e.second(ij.r)
            Qii, Qjj = e.Q(A, k, i, i), e.Q(A, k, j, j)
            M.prove("a variance is missing only when the asset has no second-stage variation", Implies(ii.nan, eq0(Qii)), (), [k, i])
            M.prove("a covariance is missing only when one of the two variances is", Iff(ij.nan, Or(ii.nan, F.at(j, j).nan)), (), [k, i, j])
            M.prove("covariances are finite", Not(And(Not(ij.nan), ij.inf)), (), [k, i, j])
            # quadratic form: sum over s of w_s (sum_i x_i g(s, i))^2 with w_s > 0
            gram_form(M, e, A, ij, vi, v.at(j), k, i, j)
            M.total()


def gram_form(M, e, A, ij, vi, vj, k, i, j):
    """covariance(i, j) = sum_s w(s) g(s, i) g(s, j) with w > 0: a Gram matrix, hence positive semidefinite
    (lemma: x' G x = sum_s w(s) (sum_i x_i g(s, i))^2)"""
    s = fresh("s", "I", add(k, ONE))
    w = weight(e.h2, sub(k, s))
    g = lambda q, vq: div(mul(vq.r, A(add(e.p, s), q)), sqrt(e.Q(A, k, q, q)))
    old, M.lemma = M.lemma, True
    M.same_num("covariance is a Gram matrix of volatility-scaled second-stage data with positive weights", ij, Num(mk_sum(s, add(k, ONE), mul(w, g(i, vi), g(j, vj)))),
               [Not(ij.nan)], [k, i, j])
    M.lemma = old


# ------------------------------------------------------------------ C05
def same_args(M, what, name, rec, data, rows, h, m=None, c=None, hook=None, given=(), sym=None):
    """the callee is called with the arguments of the recipe; otherwise its result is compared numerically with the recipe's"""
    t0 = time.time()
    q, i = fresh("t", "I", rows.n), M.index(M.N, "i")
    t = add(rows.off, q)
    hy = list(M.it.hyps)
    ok = rec is not None and equal(hy, rec["h"], h) and equal(hy, rec["rows"].off, rows.off) and equal(hy, rec["rows"].n, rows.n) \
        and equal(hy, rec["data"].at(t, i).r, data(t, i)) and ("m" not in rec or equal(hy, tm.tmax(rec["m"], ONE), tm.tmax(m, ONE)) if c is None else True)
    if ok and rec is not None and "m" in rec and c is not None:
        ok = equal(hy, rec["m"], m)
    if ok and rec is not None and "c" in rec:
        ok = (rec["c"] is None) == (c is None) and (c is None or equal(hy, rec["c"], c))
    if ok:
        return M.add(what, "discharged", by="normal form", s=time.time() - t0)
    w = None
    if hook and rec is not None:
        hook("spec" + name)
        w = M.refute(hy, lambda env: ne.differ(float(env.ev(App(sym or rec["name"], (t, i)))), float(env.ev(App("spec" + name, (t, i)))), 1e-6), [q, i])
    if w:
        return M.add(what, "refuted", "fails at " + w[0], s=time.time() - t0, witness=w[1])
    return M.add(what, "undecided", "the arguments differ from the recipe's" if rec is not None else "not called through its contract", s=time.time() - t0)


def C05(ck):
    o = MODES + EDGE
    callee_lemmas(ck, o)
    C01(ck, lemma=True)
    C02(ck, lemma=True)
    for kw in o:
        with ck.mode(mode_name(kw)) as M:
            e = IE(M, **kw)
            M.N = e.N
            e.run()
            recipe_args(M, e)
            k, P = covariance_parts(M, e)
            i, j = M.index(e.N, "i"), M.index(e.N, "j")
            t = add(e.p, k)
            asset_labels(M, P, e.N)
            M.same_num("volatility yielded is the moving volatility", P.vola.at(i), Num(e.vola(t, i)), (), [k, i])
            if e.mean:
                mu1, mu2 = App("mavg0", (t, i)), App("mavg1", (t, i))
                M.same_num("mean is the moving mean of returns plus volatility times moving mean of adjusted returns", P.mean.at(i), Num(add(mu1, mul(e.vola(t, i), mu2))), (), [k, i])
            else:
                M.same_num("mean is zero", P.mean.at(i), Num(ZERO), (), [k, i])
            ij = P.cov.at(i, j)
            A = e.second(ij.r)
            Qii, Qij, Qjj = e.Q(A, k, i, i), e.Q(A, k, i, j), e.Q(A, k, j, j)
            want = Num(div(mul(e.vola(t, i), e.vola(t, j), Qij), mul(sqrt(Qii), sqrt(Qjj))))
            M.same_num("covariance is the volatility-scaled normalised average of outer products", ij, want, [Not(eq0(Qii)), Not(eq0(Qjj))], [k, i, j])
            if not e.mean:
                second_stage(M, e, A)
            M.total()


def recipe_args(M, e):
    full, late = Axis("time", ZERO, e.T), Axis("time", e.p, e.n)
    fr = M.it.D(e.R)
    spec_x = lambda t, i: e.x1(t, i)
    if e.mean:
        c0 = M.centers[0] if M.centers else None
        f0 = Frame(full, fr.cols, lambda t, i: Num(e.x0(t, i)))
        same_args(M, "first centring: moving mean of the returns over its own half-life", "cent", c0, e.x0, full, e.g1,
                  hook=lambda n: center_hooks(n, n + "m", f0, full, e.g1), sym=c0 and c0["x"])
    vr = M.volas[0] if M.volas else None
    fx = Frame(full, fr.cols, lambda t, i: Num(spec_x(t, i)))
    same_args(M, "volatility of the (centred) returns with the given half-life, warm-up and clipping level", "vola", vr, spec_x, full, e.h1, e.m1, e.c,
              hook=lambda n: ne.fun_hooks.__setitem__(n, vola_hook(n, fx, full, e.h1, e.m1, e.c)))
    if e.mean:
        c1 = M.centers[1] if len(M.centers) == 2 else None
        if c1 is None:
            return M.add("second centring of the adjusted returns", "undecided", f"{len(M.centers)} centrings by contract")
        # the data handed to the second centring is the adjusted return
        second_stage(M, e, lambda t, i: c1["data"].at(t, i).r)
        same_args(M, "second centring: moving mean of the adjusted returns over its own half-life", "cent2", c1, lambda t, i: c1["data"].at(t, i).r, late, e.g2,
                  hook=lambda n: center_hooks(n, n + "m", c1["data"], late, e.g2), sym=c1["x"])


def second_stage(M, e, A):
    q, i = fresh("q", "I", e.n), M.index(e.N, "i")
    t = add(e.p, q)
    v, x = e.vola(t, i), e.x1(t, i)
    A = expand(A)
    a = A(t, i)
    w = div(x, v)
    if e.c is not None:
        w = tm.tmax(tm.tmin(w, e.c), tm.neg(e.c))
    M.same_num("adjusted return is the return over the same-time volatility" + (", limited to the clipping level" if e.clip else ""), Num(a), Num(w), [Not(eq0(v))], [q, i])
    M.same_num("adjusted return is zero when return and volatility are zero", Num(a), Num(ZERO), [eq0(v), eq0(x)], [q, i])


def expand(A):
    from pyvc import interp
    return lambda t, i: interp.expand_lets(A(t, i))


# ------------------------------------------------------------------ C06
def later_changed(M, e_T, bound, rng_seed=7):
    """environment in which all data after the time `bound` differ and more rows follow"""
    def perturb(env, sizes=None):
        b = env.ev(bound)
        e2 = ne.NumEnv(dict(env.vars), dict(env.funs))
        old = env.funs["r"]
        e2.funs["r"] = lambda t, i: old(t, i) if t <= b else 3.0 + 2 * old(t, i) + ((t * 7 + i * 3) % 5)
        return e2
    return perturb


def upto(bound, syms):
    return lambda name, args: None if not name.startswith(syms) else le(args[0], bound)


DATA = ("r", "na", "vola", "cent", "mavg")


def C06(ck):
    for clip in (False, True):
        with ck.mode("volatility, clipping " + ("on" if clip else "off")) as M:
            T, N, m = M.nat("T", 1), M.nat("N", 1), M.nat("m")
            h = M.pos("h")
            c = M.pos("c") if clip else None
            r, R = returns(M, T, N)
            t, i = M.index(T), M.index(N, "i")
            base = lambda env, **kw: dict(data=table(env, "r", env.ev(T), env.ev(N)), T=int(env.ev(T)), n=int(env.ev(N)), hv=env.ev(h), hc=2.0, mv=env.ev(m), mc=0, mean=False, h1=None,
                                          h2=None, c=env.ev(c) if clip else None, what="vol", seed=0, dist="normal", miss=None, scale=1.0, cut=min(env.ev(t) + 1, int(env.ev(T))), edit="replace")
            M.case = base
            v = is_frame(M, M.call(MOD + "volatility", R, halflife=Num(h), min_periods=Num(m), clip_at=Num(c) if clip else None))
            M.depends("volatility at a time reads only returns up to that time", [v.at(t, i)], upto(t, ("r",)), [T], [ge(t, sub(m, ONE))], [t, i], later_changed(M, T, t))
            l = fresh("l", "I")
            M.prove("reported times do not depend on later rows", Iff(v.rows.has(l), And(lt(l, T), ge(l, sub(m, ONE)))), (), [l])
    with ck.mode("centring") as M:
        T, N, m = M.nat("T", 1), M.nat("N", 1), M.nat("m")
        h = M.pos("h")
        r, R = returns(M, T, N)
        t, i = M.index(T), M.index(N, "i")
        M.case = lambda env, **kw: dict(data=table(env, "r", env.ev(T), env.ev(N)), T=int(env.ev(T)), n=int(env.ev(N)), hv=env.ev(h), hc=2.0, mv=env.ev(m), mc=0, mean=False, h1=None, h2=None,
                                        c=None, what="center", seed=0, dist="normal", miss=None, scale=1.0, cut=min(env.ev(t) + 1, int(env.ev(T))), edit="replace")
        res = M.D(M.call(MOD + "center", R, halflife=Num(h), min_periods=Num(m), mean_adj=BoolV(TRUE)))
        X, mu = is_frame(M, res[0]), is_frame(M, res[1])
        g = [ge(t, sub(m, ONE))]
        M.depends("centred return reads only returns up to its time", [X.at(t, i)], upto(t, ("r",)), [T], g, [t, i], later_changed(M, T, t))
        M.depends("moving mean reads only returns up to its time", [mu.at(t, i)], upto(t, ("r",)), [T], g, [t, i], later_changed(M, T, t))
    o = MODES + EDGE
    callee_lemmas(ck, o)
    for kw in o:
        with ck.mode(mode_name(kw)) as M:
            e = IE(M, **kw)
            s = e.run()
            k = M.index(s.n, "k")
            t = add(e.p, k)
            M.depends("whether a prediction is yielded depends on the past only", [s.present(k)], upto(t, DATA), [e.n], (), [k], later_changed(M, e.T, t))
            k, P = covariance_parts(M, e, k)
            if isinstance(P.time, Label):
                M.prove("labelled with a time at which the data end", eq(P.time.t, t), (), [k])
            i, j = M.index(e.N, "i"), M.index(e.N, "j")
            case = lambda env: e.case(env, cut=env.ev(t) + 1, edit="replace")
            for what, val, g in (("covariance", P.cov.at(i, j), [Not(P.cov.at(i, j).nan)]), ("mean", P.mean.at(i), ()), ("volatility", P.vola.at(i), ())):
                M.depends(f"{what} reads only returns up to its time", [val], upto(t, DATA), [e.n], g, [k, i, j], later_changed(M, e.T, t), case)
            M.depends("missing covariances depend on the past only", [P.cov.at(i, j).nan], upto(t, DATA), [e.n], (), [k, i, j], later_changed(M, e.T, t), case)
            for q, V in enumerate(M.volas):
                u, a = fresh("u", "I", V["rows"].n), M.index(e.N, "a")
                M.depends(f"data of the volatility read only returns up to their time", [V["data"].at(u, a)], upto(u, DATA), [e.n], [lt(u, e.T)], [u, a])
            for q, V in enumerate(M.centers):
                u, a = fresh("u", "I", V["rows"].n), M.index(e.N, "a")
                lab = add(V["rows"].off, u)
                M.depends(f"data of centring {q + 1} read only returns up to their time", [V["data"].at(lab, a)], upto(lab, DATA), [e.n], (), [u, a])


# ------------------------------------------------------------------ C07
MODES7 = [dict(mean=False, clip=False, prefix=True), dict(mean=True, clip=False, prefix=True), dict(mean="own", clip=True), dict(mean=False, clip=True)]


def same_predictions(M, e, s1, s2, k, tr=None, what="", case=None):
    """prediction k of the second run against the (transformed) prediction k of the first"""
    old = M.case
    if case:
        M.case = case
    M.prove(what + "same number of candidate times", eq(s1.n, s2.n), (), [k])
    M.prove(what + "yielded at the same times", Iff(s1.present(k), s2.present(k)), (), [k])
    M.assume(s1.present(k), s2.present(k))
    P1 = e.pred(k)
    keep, e.out = e.out, s2
    P2 = e.pred(k)
    e.out = keep
    i, j = M.index(e.N, "i"), M.index(e.N, "j")
    M.prove(what + "same label", eq(P1.time.t, P2.time.t), (), [k])
    tr = tr or dict(cov=lambda x, i, j: x.at(i, j), vec=lambda x, i: x.at(i))
    M.same_num(what + "same volatility", P2.vola.at(i), tr["vec"](P1.vola, i), (), [k, i])
    M.same_num(what + "same mean", P2.mean.at(i), tr["vec"](P1.mean, i), (), [k, i])
    M.same_num(what + "same covariance", P2.cov.at(i, j), tr["cov"](P1.cov, i, j), (), [k, i, j])
    M.case = old


def C07(ck):
    callee_lemmas(ck, MODES7)
    for kw in MODES7:
        with ck.mode("missing returns, " + mode_name(kw)) as M:
            e = IE(M, missing=True, **kw)
            s1 = e.run()
            filled = M.frame(Axis("time", ZERO, e.T), Axis("asset", ZERO, e.N), lambda t, i: Num(e.x0(t, i)))
            s2 = e.seq(M.call(MOD + "iterated_ewma", filled, **e.kw))
            k = M.index(s1.n, "k")
            same_predictions(M, e, s1, s2, k, what="missing returns as zero: ", case=lambda env: e.case(env, what="fill"))
            M.total()
    for kw in MODES + EDGE:
        with ck.mode("an asset without data, " + mode_name(kw)) as M:
            e = IE(M, **kw)
            s = e.run()
            k, P = covariance_parts(M, e)
            i, j = M.index(e.N, "i"), M.index(e.N, "j")
            t = add(e.p, k)
            own = lambda name, args: None if not name.startswith(DATA) or len(args) < 2 else Or(eq(args[1], i), eq(args[1], j))
            ij = P.cov.at(i, j)

            def perturb(env):
                keep = {env.ev(i), env.ev(j)}
                e2 = ne.NumEnv(dict(env.vars), dict(env.funs))
                old = env.funs["r"]
                e2.funs["r"] = lambda t, a: old(t, a) if a in keep else 0.0
                return e2
            M.depends("covariance of two assets reads those two assets only", [ij], own, (), [Not(ij.nan)], [k, i, j], perturb)
            M.depends("a covariance is missing because of its own two assets only", [ij.nan], own, (), (), [k, i, j], perturb)
            M.depends("mean and volatility of an asset read that asset only", [P.mean.at(i), P.vola.at(i)], lambda n, a: None if not n.startswith(DATA) or len(a) < 2 else eq(a[1], i), (), (), [k, i, j], perturb)
            # an asset with zero returns so far has no covariances
            u = fresh("u", "I", add(t, ONE))
            M.assume(Forall(u, add(t, ONE), eq0(e.x0(u, i))))
            q = fresh("q", "I", add(k, ONE))
            tq = add(e.p, q)
            if e.mean:
                w = fresh("w", "I", add(tq, ONE))
                M.prove("returns up to an earlier time are zero", Forall(w, add(tq, ONE), eq0(e.x0(w, i))), [lt(q, add(k, ONE))], [k, i, q])
                M.assume(Forall(u, add(t, ONE), eq0(App("cent0", (u, i)))))        # contract of center: zero so far gives zero
                c1 = M.centers[1]
                a = expand(lambda t, i: c1["data"].at(t, i).r)(tq, i)
                M.same_num("adjusted returns so far are zero", Num(a), Num(ZERO), [lt(q, add(k, ONE))], [k, i, q])
                M.assume(Forall(q, add(k, ONE), eq0(App(c1["x"], (tq, i)))))       # contract of center again
            M.prove("an asset with missing or zero returns so far has no covariances", ij.nan, (), [k, i, j])
            M.total()


# ------------------------------------------------------------------ C08
def kap(M):
    """arbitrary positive rescaling of the assets"""
    pv.rec_pos.add("kap")
    k = M.data("kap", 1)
    M.data_positive = {"kap"}
    return lambda i: k(i)


def perm(M, N):
    """arbitrary reordering of the assets: a bijection of [0, N)"""
    M.funs["perm"] = 1
    tm.bijections["perm"] = N
    M.perms["perm"] = N

    def f(i):
        p = App("perm", (i,), "I")
        tm.var_range.setdefault(p, N)
        tm.lower_bound.setdefault(p, 0)
        return p
    return f


def inductive(M, name, got, want_of, first, k, given=(), vars=()):
    """got(k) = want(k) by induction, where got and first-run value are recursive symbols"""
    from pyvc.driver import unfold_at, has_rec
    g, w = got(k), first(k)
    if not has_rec(g):
        return M.same_num(name, Num(g), Num(want_of(w)), given, [k] + list(vars))
    M.same_num(name + ", first row", Num(got(ZERO)), Num(want_of(first(ZERO))), (), list(vars))
    old = tm.lower_bound.get(k, 0)
    tm.lower_bound[k] = 1
    tm.clear_memo()
    try:
        hyp = {got(sub(k, ONE)): want_of(first(sub(k, ONE)))}
        return M.same_num(name + ", induction step", Num(tm.subst_terms(unfold_at(g, k), hyp)), Num(want_of(unfold_at(w, k))), (), [k] + list(vars))
    finally:
        tm.lower_bound[k] = old
        tm.clear_memo()


def check_relational(ck, which, clip, lemma=True):
    """volatility and centring commute with rescaling and with permuting the assets"""
    scale = which == "scale"
    with ck.mode(f"volatility under {'rescaling' if scale else 'reordering'}, clipping " + ("on" if clip else "off"), lemma=lemma) as M:
        T, N, m = M.nat("T", 1), M.nat("N", 1), M.nat("m")
        h = M.pos("h")
        c = M.pos("c") if clip else None
        r, R = returns(M, T, N)
        K = kap(M) if scale else None
        P = None if scale else perm(M, N)
        R2 = M.frame(Axis("time", ZERO, T), Axis("asset", ZERO, N), (lambda t, i: Num(mul(K(i), r(t, i)))) if scale else (lambda t, i: Num(r(t, P(i)))))
        args = dict(halflife=Num(h), min_periods=Num(m), clip_at=Num(c) if clip else None)
        a = is_frame(M, M.call(MOD + "volatility", R, **args))
        b = is_frame(M, M.call(MOD + "volatility", R2, **args))
        t, i = M.index(T), M.index(N, "i")
        l = fresh("l", "I")
        M.prove("same rows", Iff(a.rows.has(l), b.rows.has(l)), (), [l])
        g = [ge(t, sub(m, ONE))]
        M.prove("same finiteness", And(Iff(a.at(t, i).nan, b.at(t, i).nan), Iff(a.at(t, i).inf, b.at(t, i).inf)), g, [t, i])
        sq = (lambda x: mul(ipow(K(i), 2), x)) if scale else (lambda x: x)
        src = i if scale else P(i)
        inductive(M, "variance is " + ("rescaled" if scale else "reordered"), lambda k: ipow(b.at(k, i).r, 2), sq, lambda k: ipow(a.at(k, src).r, 2), t, g, [i])
        M.prove("volatilities are the non-negative roots", And(ge(a.at(t, src).r, ZERO), ge(b.at(t, i).r, ZERO)), g, [t, i])
    if clip:
        return
    with ck.mode(f"centring under {'rescaling' if scale else 'reordering'}", lemma=lemma) as M:
        T, N, lo = M.nat("T", 1), M.nat("N", 1), M.nat("lo")
        h = M.pos("h")
        r = M.data("r", 2)
        K = kap(M) if scale else None
        P = None if scale else perm(M, N)
        ax, cx = Axis("time", lo, T), Axis("asset", ZERO, N)
        R = M.frame(ax, cx, lambda t, i: Num(r(t, i)))
        R2 = M.frame(ax, cx, (lambda t, i: Num(mul(K(i), r(t, i)))) if scale else (lambda t, i: Num(r(t, P(i)))))
        a = M.D(M.call(MOD + "center", R, halflife=Num(h), min_periods=Num(ZERO), mean_adj=BoolV(TRUE)))
        b = M.D(M.call(MOD + "center", R2, halflife=Num(h), min_periods=Num(ZERO), mean_adj=BoolV(TRUE)))
        k, i = M.index(T, "k"), M.index(N, "i")
        t = add(lo, k)
        for nm, x, y in (("centred returns", a[0], b[0]), ("moving means", a[1], b[1])):
            x, y = M.D(x), M.D(y)
            want = Num(mul(K(i), x.at(t, i).r), x.at(t, i).nan, x.at(t, i).inf) if scale else x.at(t, P(i))
            M.same_num(nm, y.at(t, i), want, (), [k, i])


def C08(ck):
    callee_lemmas(ck, MODES7)
    for which in ("scale", "perm"):
        for clip in (False, True):
            check_relational(ck, which, clip)
    for which in ("scale", "perm"):
        for kw in MODES7:
            with ck.mode(f"{'rescaling' if which == 'scale' else 'reordering'}, " + mode_name(kw)) as M:
                e = IE(M, **kw)
                r, N = e.r, e.N
                if which == "scale":
                    K = M.scale_fn = kap(M)
                    f2 = lambda t, i: Num(mul(K(i), r(t, i)))
                    num = lambda c, x: Num(mul(c, x.r), x.nan, x.inf)
                    tr = dict(vec=lambda x, i: num(K(i), x.at(i)), cov=lambda x, i, j: num(mul(K(i), K(j)), x.at(i, j)))
                    case = None
                else:
                    P = M.perm_fn = perm(M, N)
                    f2 = lambda t, i: Num(r(t, P(i)))
                    tr = dict(vec=lambda x, i: x.at(P(i)), cov=lambda x, i, j: x.at(P(i), P(j)))
                s1 = e.run()
                s2 = e.seq(M.call(MOD + "iterated_ewma", M.frame(Axis("time", ZERO, e.T), Axis("asset", ZERO, N), f2), **e.kw))
                k = M.index(s1.n, "k")
                same_predictions(M, e, s1, s2, k, tr, "after rescaling: " if which == "scale" else "after reordering: ")
