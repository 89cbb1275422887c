"""Contracts of cvx/covariance/regularization.py (properties C14, C15)."""
import os
import time

from pyvc import terms as tm
from pyvc import prove as pv
from pyvc import lib_np
from pyvc.terms import (ZERO, ONE, TRUE, FALSE, And, Or, Not, Forall, Exists, Implies, add, sub, mul, div, const, ipow, mk_sum,
                        fresh, eq0, ge, lt, gt, le, eq, App, sqrt, Iff)
from pyvc.values import Num, BoolV, Axis, Frame, Series, Ref, Seq, NT, Label, SymDict, NTClass
from pyvc.driver import Skip, equal, sequence
from pyvc import numeval as ne

MOD = "cvx.covariance.regularization:"


def sigmas(M, T, N, name="S"):
    """a dictionary of T symmetric matrices with positive diagonals, labelled by the assets"""
    S = M.data(name, 3)
    tm.symmetric[name] = (-2, -1)
    ax = Axis("asset", ZERO, N)

    def item(k):
        return Frame(ax, ax, lambda i, j: Num(S(k, i, j)))
    d = M.box(SymDict(Axis("time", ZERO, T), item))
    k, i = fresh("k", "I", T), fresh("i", "I", N)
    return S, d


def pos_diag(M, S):
    pv.pos_apps["S"] = lambda args: args[-1] is args[-2]


def corr_eig(M, S, k, N):
    """eigenvalues (ascending) and orthonormal eigenvectors of the correlation matrix of covariance k: the library contract"""
    R = lib_np.Arr((N, N), lambda i, j: Num(div(S(k, i, j), mul(sqrt(S(k, i, i)), sqrt(S(k, j, j))))))
    w, V = lib_np.eigh(M.it, R)
    lam = lambda m: w.at(m).r
    return lam, lambda i, m: V.at(i, m).r


def keyed(M, s, k, T):
    """outcome k is labelled with key k"""
    M.prove("one outcome per entry", eq(s.n, T))
    o = s.at(k)
    if not isinstance(o, tuple) or len(o) != 2:
        M.add("outcome is a pair of key and value", "undecided", type(o).__name__)
        raise Skip()
    t = o[0]
    if not isinstance(t, Label) or t.space != "time":
        M.add("outcome keyed by the key of its input", "undecided", f"{t}")
    else:
        M.prove("outcome keyed by the key of its input, in order", eq(t.t, k), (), [k])
    return M.D(o[1])


def labelled(M, what, ax, N, space="asset"):
    l = fresh("l", "I")
    tm.lower_bound[l] = 0
    if ax.space != space:
        return M.add(f"{what} labelled by the assets", "undecided", f"labels of {ax.space}")
    return M.prove(f"{what} labelled by the assets in order", Iff(ax.has(l), lt(l, N)), (), [l])


def spd_sampler(M, T, N, psd="S"):
    """sizes as usual; symmetric positive definite data"""
    def smp(rng, small):
        env = M.sample(rng, small)
        n = int(env.ev(N))
        cache = {}

        def f(k, i, j):
            A = cache.get(k)
            if A is None:
                rr = __import__("random").Random(f"{rng.random()}{k}")
                B = [[rr.gauss(0, 1) for _ in range(n + 1)] for _ in range(n)]
                sc = [10 ** rr.choice([-1, 0, 0, 1]) for _ in range(n)]
                A = cache[k] = [[sc[p] * sc[q] * sum(B[p][z] * B[q][z] for z in range(n + 1)) for q in range(n)] for p in range(n)]
            if not (0 <= i < n and 0 <= j < n):
                raise ne.Undefined("index")
            return A[int(i)][int(j)]
        env.funs["S"] = f
        return env
    return smp


def C14_setup(M, psd):
    T, N, r = M.nat("T", 1), M.nat("N", 1), M.nat("r", 1)
    M.assume(le(r, N))
    S, d = sigmas(M, T, N)
    pos_diag(M, S)
    M.samplers = [spd_sampler(M, T, N)]
    k, i, j = M.index(T, "k"), M.index(N, "i"), M.index(N, "j")
    lam, Q = corr_eig(M, S, k, N)
    if psd:     # the input is positive semidefinite: its correlation matrix has no negative eigenvalue
        pv.nonneg_apps[lam(ZERO).args[0]] = lambda args: True
    M.case = lambda env: dict(what="matrices", n=int(env.ev(N)), r=int(env.ev(r)), mats=[[[float(env.funs["S"](t, p, q)) for q in range(int(env.ev(N)))]
                              for p in range(int(env.ev(N)))] for t in range(int(env.ev(T)))])
    m = fresh("m", "I", r)
    top = lambda x, y: mk_sum(m, r, mul(lam(add(sub(N, r), m)), Q(x, add(sub(N, r), m)), Q(y, add(sub(N, r), m))))
    q = fresh("q", "I", sub(N, r))
    rest = lambda x: mk_sum(q, sub(N, r), mul(lam(q), ipow(Q(x, q), 2)))
    # eigh: R = V diag(w) V', at the diagonal entry R(x, x) = 1
    spectral = lambda x: eq(add(rest(x), top(x, x)), ONE)
    sd = lambda x: sqrt(S(k, x, x))
    return T, N, r, S, d, k, i, j, sd, top, rest, spectral


def C14(ck):
    with ck.mode("full format") as M:
        T, N, r, S, d, k, i, j, sd, top, rest, spectral = C14_setup(M, False)
        f = keyed(M, sequence(M, M.call(MOD + "regularize_covariance", d, Num(r))), k, T)
        if not isinstance(f, Frame):
            M.add("value is a table", "undecided", type(f).__name__)
            raise Skip()
        labelled(M, "rows", f.rows, N)
        labelled(M, "columns", f.cols, N)
        M.same_num("diagonal is that of the input", f.at(i, i), Num(S(k, i, i)), (), [k, i])
        M.same_num("off the diagonal: correlation is the sum of the r leading eigen-components", f.at(i, j), Num(mul(sd(i), sd(j), top(i, j))), [Not(eq(i, j))], [k, i, j])
        M.same_num("symmetric", f.at(i, j), f.at(j, i), (), [k, i, j])
        M.total()
    with ck.mode("full format, positive semidefinite input") as M:
        T, N, r, S, d, k, i, j, sd, top, rest, spectral = C14_setup(M, True)
        f = keyed(M, sequence(M, M.call(MOD + "regularize_covariance", d, Num(r))), k, T)
        lo = sub(f.at(i, i).r, mul(S(k, i, i), top(i, i)))
        # low rank part: sum of lam_m (sd q_m)(sd q_m)' with lam_m >= 0; what is left is diagonal and non-negative
        M.prove("matrix less its low-rank part is a non-negative diagonal", ge(lo, ZERO), [spectral(i)], [k, i])
        M.prove("leading eigenvalues are not negative", ge(corr_eig(M, S, k, N)[0](add(sub(N, r), fresh("m", "I", r))), ZERO))
    with ck.mode("low-rank format") as M:
        T, N, r, S, d, k, i, j, sd, top, rest, spectral = C14_setup(M, True)
        v = keyed(M, sequence(M, M.call(MOD + "regularize_covariance", d, Num(r), low_rank_format=BoolV(TRUE))), k, T)
        if not isinstance(v, NT) or list(v.cls.fields) != ["F", "d"]:
            M.add("value is a pair of loadings F and diagonal d", "undecided", type(v).__name__)
            raise Skip()
        F, dd = [M.D(x) for x in v.vals]
        labelled(M, "loadings", F.rows, N)
        labelled(M, "diagonal", dd.axis, N)
        c = M.it.affine(F.cols)
        M.prove("as many loading columns as the rank", eq(c.n, r))
        M.prove("diagonal is not negative", And(Not(dd.at(i).nan), ge(dd.at(i).r, ZERO)), [spectral(i)], [k, i])
        m = fresh("m", "I", c.n)
        FF = lambda x, y: mk_sum(m, c.n, mul(F.at(x, add(c.off, m)).r, F.at(y, add(c.off, m)).r))
        M.prove("loadings are finite", Not(Or(F.at(i, add(c.off, m)).nan, F.at(i, add(c.off, m)).inf)), (), [k, i, m])
        M.total()
        full = keyed(M, sequence(M, M.call(MOD + "regularize_covariance", d, Num(r))), k, T)
        M.same_num("F F' is the full-format matrix off the diagonal", Num(FF(i, j)), full.at(i, j), [Not(eq(i, j))], [k, i, j])
        M.same_num("F F' + d is the full-format matrix on the diagonal", Num(add(FF(i, i), dd.at(i).r)), full.at(i, i), (), [k, i])


# ---------------------------------------------------------------- C15
def em_chain(M, S, k, N, r, F0, d0, steps=5):
    """the EM iterates of the factor model x = F s + e, s ~ N(0, I), e ~ N(0, diag d), for the second moment S(k): posterior of the
    factors: precision G^-1 = I + F' D^-1 F, mean B x with B = G F' D^-1; maximising loadings F+ = E[x s'] E[s s']^-1 and
    d+ = diag(S - E[x s'] E[s s']^-1 E[s x']).  Each intermediate table is named; per step a list of (dims, table)"""
    from pyvc.interp import let_term
    F, d, out = F0, d0, [dict(F=(2, F0), d=(1, d0))]

    def named(dims, f, sym=False):
        ix = [fresh("x", "I") for _ in range(dims)]
        g = let_term(ix, f(*ix))
        if sym and tm.is_zero(sub(f(*ix), f(*ix[::-1]))):
            tm.symmetric[g(ix).args[0]] = (0, 1)
        return lambda *a: g(list(a))
    for _ in range(steps):
        p, q = fresh("p", "I", N), fresh("c", "I", r)
        prec = named(2, lambda a, b, F=F, d=d: add(mk_sum(p, N, div(mul(F(p, a), F(p, b)), d(p))), tm.ite(eq(a, b), ONE, ZERO)), True)
        G = M.D(lib_np.inv(M.it, lib_np.Arr((r, r), lambda a, b: Num(prec(a, b)))))
        g = lambda a, b, G=G: G.at(a, b).r
        B = named(2, lambda a, j: div(mk_sum(q, r, mul(g(a, q), F(j, q))), d(j)))
        Exs = named(2, lambda i, b: mk_sum(p, N, mul(S(k, i, p), B(b, p))))
        Ess = named(2, lambda a, b: add(g(a, b), mk_sum(p, N, mul(B(a, p), Exs(p, b)))), True)
        H = M.D(lib_np.inv(M.it, lib_np.Arr((r, r), lambda a, b: Num(Ess(a, b)))))
        Fn = named(2, lambda i, a: mk_sum(q, r, mul(Exs(i, q), H.at(q, a).r)))
        dn = named(1, lambda i: sub(S(k, i, i), mk_sum(q, r, mul(Fn(i, q), Exs(i, q)))))
        pv.pos_apps[dn(ZERO).args[0]] = lambda args: True         # lemma: Schur complement of a positive definite matrix
        F, d = Fn, dn
        out.append(dict(prec=(2, prec), B=(2, B), Exs=(2, Exs), Ess=(2, Ess), F=(2, Fn), d=(1, dn), G=(2, g), H=(2, lambda a, b, H=H: H.at(a, b).r)))
    return out


def em_sampler(M, T, N, r):
    base = spd_sampler(M, T, N)

    def smp(rng, small):
        env = base(rng, small)
        sd = rng.random()
        rnd = lambda *k: __import__("random").Random(f"{sd}{k}")
        env.funs["F0"] = lambda t, i, a: rnd("F", t, i, a).gauss(0, 1)
        env.funs["d0"] = lambda t, i: 0.2 + rnd("d", t, i).random() * 2
        return env
    return smp


def C15_body(M):
    T, N, r = M.nat("T", 1), M.nat("N", 1), M.nat("r", 1)
    S, sig = sigmas(M, T, N)
    pos_diag(M, S)
    F0, d0 = M.data("F0", 3), M.data("d0", 2)
    pv.pos_apps["d0"] = lambda args: True
    M.samplers = [em_sampler(M, T, N, r)]
    ax, fx = Axis("asset", ZERO, N), Axis("factor", ZERO, r)
    cls = NTClass("LowRankDiag", ["F", "d"])
    init = M.box(SymDict(Axis("time", ZERO, T), lambda t: NT(cls, [Frame(ax, fx, lambda i, a: Num(F0(t, i, a))), Series(ax, lambda i: Num(d0(t, i)))])))
    k, i, a = M.index(T, "k"), M.index(N, "i"), M.index(r, "a")

    def case(env):
        t, n, q = (int(env.ev(z)) for z in (T, N, r))
        e = lambda f, *x: float(env.funs[f](*x))
        return dict(what="matrices", n=n, r=q, mats=[[[e("S", s, x, y) for y in range(n)] for x in range(n)] for s in range(t)],
                    F0=[[[e("F0", s, x, y) for y in range(q)] for x in range(n)] for s in range(t)], d0=[[e("d0", s, x) for x in range(n)] for s in range(t)])
    M.case = case
    # intermediate assertions for every entry of the dictionary
    chain = lambda t: em_chain(M, S, t, N, r, lambda i, a: F0(t, i, a), lambda i: d0(t, i))
    M.it.cuts, used, done = EM_cuts(M, chain)
    v = keyed(M, sequence(M, M.call(MOD + "em_regularize_covariance", sig, init)), k, T)
    if not isinstance(v, NT) or list(v.cls.fields) != ["F", "d"]:
        M.add("value is a pair of loadings F and diagonal d", "undecided", type(v).__name__)
        raise Skip()
    F, dd = [M.D(x) for x in v.vals]
    labelled(M, "loadings", F.rows, N)
    labelled(M, "diagonal", dd.axis, N)
    c = M.it.affine(F.cols)
    M.prove("as many loading columns as the rank", eq(c.n, r))
    last = chain(k)[5]
    Fs, ds = [last[w][1] for w in ("F", "d")]
    for s, w in sorted(set(used)):
        M.add(f"step {s}: {names[w]}", "discharged", by="normal form")
    M.same_num("loadings after five EM steps", F.at(i, add(c.off, a)), Num(Fs(i, a)), (), [k, i, a], rtol=1e-4)
    M.same_num("diagonal after five EM steps", dd.at(i), Num(ds(i)), (), [k, i], rtol=1e-4)
    M.prove("diagonal is positive", And(Not(dd.at(i).nan), gt(dd.at(i).r, ZERO)), (), [k, i])
    # every matrix inverted is a posterior precision or an expected second moment, positive definite by the lemmas
    x, y = tm.Var("$mi", "I"), tm.Var("$mj", "I")
    known = {(f(x, y).args[0]) for t in done.values() for st in t[1:] for f in (st["prec"][1], st["Ess"][1])}
    inv = [o[2].at(x, y).r for o in M.it.obs if o[0] == "inv"]
    ok = all(z.op == "app" and z.args[0] in known for z in inv)
    M.add("matrices inverted are positive definite", "discharged" if ok else "undecided", "" if ok else "a matrix of another form is inverted", by="normal form" if ok else None)
    M.total()


names = dict(prec="posterior precision of the factors", B="posterior mean operator", Exs="cross moment", Ess="second moment of the factors", F="new loadings", d="new diagonal")


def C15(ck):
    with ck.mode("five EM steps") as M:
        C15_body(M)
    if any(o["status"] == "undecided" for o in ck.obs):
        with ck.mode("five EM steps, counterexamples", hunt=True) as M:
            C15_body(M)
    with ck.mode("matrix lemmas") as M:
        M.fn = "lean/Em.lean"
        M.lean(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lean", "Em.lean"),
               ["prec_posDef: I + F' D^-1 F is positive definite", "ess_posDef: B S B' + G is positive definite",
                "new_diag_pos: the diagonal of S - S B' (B S B' + G)^-1 B S is positive"])


def EM_cuts(M, chain):
    """intermediate assertions: the tables of the EM step being executed, for the entry being processed (any time label)"""
    used, memo, at = [], {}, {}

    def cuts(dims, x):
        ts = {y.args[1][0] for y in tm.walk(x) if y.op == "app" and y.args[0] in ("S", "F0", "d0")}
        for t in sorted(ts | {t for t in memo if t.fv <= x.fv}, key=lambda t: t.s):
            if any(v.args[0].startswith("$") for v in t.fv):
                continue
            if t not in memo:
                memo[t] = chain(t)
            at.setdefault(t, set())
            s = 1 + sum((q, w) in at[t] for q in range(1, 6) for w in ("d",))     # the step being executed
            for w in ("prec", "B", "Exs", "Ess", "F", "d"):
                if s <= 5 and memo[t][s][w][0] == dims:
                    nm = {q: f(*[ZERO] * n).args[0] for q, (n, f) in memo[t][s].items()}
                    unfold = [(nm["F"],)] if w == "d" else [] if w in ("prec", "B") else [(nm["Exs"],)]
                    yield memo[t][s][w][1], (lambda w=w: (at[t].add((s, w)), used.append((s, w)))), unfold + ([(nm["F"], nm["Exs"])] if w == "d" else [])
    cuts.reset = at.clear
    return cuts, used, memo
