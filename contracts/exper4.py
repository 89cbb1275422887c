"""Contract of the convex-concave factor fit, experiments/utils/ccp_regularize.py (property C27)."""
import os

from pyvc import terms as tm
from pyvc import prove as pv
from pyvc import lib_np
from pyvc import interp as ip
from pyvc.terms import ZERO, ONE, add, sub, mul, div, const, log, neg, mk_sum, fresh, ge, lt, gt, eq, ite
from pyvc.values import Num, Arr
from pyvc.driver import Skip
from contracts.exper import set_attr, attr, array, vec, tab, honour_positive, recursion

CC = "experiments.utils.ccp_regularize:"
LEAN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lean", "Ccp.lean")


def delta(i, j):
    return ite(eq(i, j), ONE, ZERO)


def matrix(n, f):
    return Arr((n, n), lambda i, j: Num(f(i, j)))


def inverse(M, n, f):
    a = M.D(lib_np.inv(M.it, matrix(n, f)))
    return lambda i, j: a.at(i, j).r


def root(M, n, f):
    """lower triangular root of a positive definite matrix"""
    a = M.D(lib_np.cholesky(M.it, matrix(n, f)))
    return lambda i, j: a.at(i, j).r


def gram(n, x, w, sign):
    """1 + sign * sum_i x(i, a) w(i) x(i, b)"""
    def f(a, b):
        i = fresh("i", "I", n)
        return add(delta(a, b), mul(const(sign), mk_sum(i, n, mul(x(i, a), w(i), x(i, b)))))
    return f


def scaled(n, r, x, w, L):
    """w(i) sum_a x(i, a) L(a, b)"""
    def f(i, b):
        a = fresh("a", "I", r)
        return mul(w(i), mk_sum(a, r, mul(x(i, a), L(a, b))))
    return f


def bordered(n, e, G):
    """[[diag(e), G], [G', 1]]"""
    def f(i, j):
        top, left = lt(i, n), lt(j, n)
        p, q = sub(i, n), sub(j, n)
        return ite(top, ite(left, ite(eq(i, j), e(i), ZERO), G(i, q)), ite(left, G(j, p), delta(p, q)))
    return f


def logdet(M, n, r, e, G):
    d = lib_np.det(M.it, matrix(add(n, r), bordered(n, e, G))).r
    pv.pos_apps[d.args[0]] = lambda args: True            # the precision matrix is positive definite
    tm.clear_memo()
    return log(d)


def weight_trace(n, S, e):
    i = fresh("i", "I", n)
    return mk_sum(i, n, mul(S(i, i), e(i)))


def cross(n, r, S, G, H):
    """trace of G' S H"""
    i, j, a = fresh("i", "I", n), fresh("j", "I", n), fresh("a", "I", r)
    return mk_sum(i, n, mk_sum(j, n, mul(S(i, j), mk_sum(a, r, mul(G(i, a), H(j, a))))))


def covariance(M, n):
    S = M.data("S", 2)
    tm.symmetric["S"] = (-2, -1)
    pv.pos_apps["S"] = lambda args: args[-1] is args[-2]
    return S, M.box(matrix(n, S))


def sampler(M, n, r):
    def smp(rng, small):
        env = M.sample(rng, small)
        N, R = int(env.ev(n)), int(env.ev(r))
        rr = __import__("random").Random(f"{rng.random()}")
        B = [[rr.gauss(0, 1) for _ in range(N + 2)] for _ in range(N)]
        S = [[sum(B[p][z] * B[q][z] for z in range(N + 2)) + (p == q) * 0.3 for q in range(N)] for p in range(N)]
        e = [0.5 + 2 * rr.random() for _ in range(N)]
        G = [[rr.gauss(0, 1) * (0.25 / max(N * R, 1)) ** 0.5 for _ in range(R)] for _ in range(N)]
        F = [[rr.gauss(0, 1) for _ in range(R)] for _ in range(N)]
        H = [[rr.gauss(0, 1) for _ in range(R)] for _ in range(N)]

        def look(t):
            def f(*ix):
                x = t
                for k in ix:
                    if not 0 <= k < len(x):
                        raise __import__("pyvc.numeval", fromlist=["Undefined"]).Undefined("index")
                    x = x[int(k)]
                return x
            return f
        for nm, t in (("S", S), ("e", e), ("d", e), ("G", G), ("F", F), ("H", H)):
            env.funs[nm] = look(t)
        return env
    return smp


def begin(M):
    n, r = M.nat("n", 1), M.nat("r", 1)
    S, Sig = covariance(M, n)
    M.samplers = [sampler(M, n, r)]
    return n, r, S, Sig


def made(M, cls, n, r, Sig, name="d"):
    """a state made from loadings F and a positive diagonal d"""
    F, Fa = vec(M, "F", n, r)
    d, da = vec(M, "d", n)
    M.data_positive |= {"d"}
    pv.pos_apps["d"] = lambda args: True
    st = M.call(CC + cls, Sig, Fa, da)
    return F, d, st


def given(M, cls, n, r, Sig):
    """a state with arbitrary precision variables e > 0 and G"""
    F, d, st = made(M, cls, n, r, Sig)
    e, ea = vec(M, "e", n)
    G, Ga = vec(M, "G", n, r)
    M.data_positive |= {"e"}
    pv.pos_apps["e"] = lambda args: True
    set_attr(M, st, ek=ea, Gk=Ga)
    return e, G, st


def variables(M, st, n, r, e, G, what, i, a, rtol=1e-7):
    x, g = array(M, attr(M, st, "ek"), (n,), f"{what}: diagonal"), array(M, attr(M, st, "Gk"), (n, r), f"{what}: loadings")
    M.same_num(f"{what}: diagonal", x.at(i), Num(e(i)), (), [i], rtol=rtol)
    M.same_num(f"{what}: loadings", g.at(i, a), Num(G(i, a)), (), [i, a], rtol=rtol)


def problem(M, rec, n, r, S, H):
    """the recorded problem minimises -log det + tr(S diag(e)) - 2 tr(H' S G) over every positive definite precision;
    returns the names of its solution"""
    M.add("the problem is a minimisation", "discharged" if rec["sense"] == "min" else "refuted", rec["sense"], by="execution")
    if len(rec["vars"]) != 2:
        M.add("the problem has a diagonal and loadings as variables", "undecided", str(rec["vars"])[:80])
        raise Skip()
    best = None
    for (x, am, sx), (g, gm, sg) in (rec["vars"], rec["vars"][::-1]):
        if len(sg) != 2 or len(sx) > 2 or sx[0] is not n or sg[0] is not n or sg[1] is not r or (len(sx) == 2 and sx[1] is not ONE):
            continue
        z = (ZERO,) * (len(sx) - 1)
        e, G = (lambda i, x=x, z=z: tm.App(x, (i,) + z)), (lambda i, a, g=g: tm.App(g, (i, a)))
        want = add(neg(logdet(M, n, r, e, G)), weight_trace(n, S, e), mul(const(-2), cross(n, r, S, G, H)))
        for nm in (x, am):                          # the log-determinant is finite: the precision is positive definite
            pv.pos_apps[nm] = lambda args: True
        tm.clear_memo()
        best = (lambda ctx, i, am=am, z=z: tm.App(am, ctx + (i,) + z)), (lambda ctx, i, a, gm=gm: tm.App(gm, ctx + (i, a))), want
        break
    if best is None:
        M.add("the problem has a diagonal and loadings as variables", "undecided", str(rec["vars"])[:80])
        raise Skip()
    if not rec["cons"]:
        M.add("the constraints exclude no positive definite precision", "discharged", "", by="execution")
    for op, lhs, rhs in rec["cons"]:
        if op not in ("Eq", "LtE", "GtE"):
            M.add("the constraints exclude no positive definite precision", "undecided", f"outside the verified subset: constraint {op}")
            raise Skip()
        big = max((lhs, rhs), key=lambda v: v.ndim)
        ix = [M.index(s, "c") for s in big.shape]
        at = lambda v: v.at(*[ZERO if s is ONE else k for s, k in zip(v.shape, ix[big.ndim - v.ndim:])]).r
        p, q = at(lhs), at(rhs)
        M.prove("the constraints exclude no positive definite precision", eq(p, q) if op == "Eq" else tm.le(p, q) if op == "LtE" else tm.ge(p, q), [lt(k, s) for k, s in zip(ix, big.shape)])
    M.same_num("objective: concave term linearised at the current loadings", rec["obj"].at(), Num(best[2]), (), [])
    return best[:2]


def num(env, t):
    return int(env.ev(t))


def C27(ck):
    for cls in ("_State", "_State2"):
        with ck.mode(f"{cls}: state of a pair") as M:
            n, r, S, Sig = begin(M)
            F, d, st = made(M, cls, n, r, Sig)
            M.fn = CC + cls + ".__init__"
            M.case = lambda env: dict(what="state", cls=cls, S=tab(env, "S", n, n), F=tab(env, "F", n, r), d=tab(env, "d", n))
            i, a = M.index(n), M.index(r, "a")
            di = lambda i: div(ONE, d(i))
            L = root(M, r, inverse(M, r, gram(n, F, di, 1)))
            variables(M, st, n, r, di, scaled(n, r, F, di, L), "precision variables", i, a)
            M.reachable("inputs")
            M.total()
        with ck.mode(f"{cls}: pair of a state") as M:
            n, r, S, Sig = begin(M)
            e, G, st = given(M, cls, n, r, Sig)
            M.fn = CC + cls + ".build"
            M.case = lambda env: dict(what="build", cls=cls, S=tab(env, "S", n, n), e=tab(env, "e", n), G=tab(env, "G", n, r))
            i, a = M.index(n), M.index(r, "a")
            Fo, do = M.it.unpack(M.it.call_method(st, "build", [], {}), 2)
            ei = lambda i: div(ONE, e(i))
            L = root(M, r, inverse(M, r, gram(n, G, ei, -1)))
            fo, dd = array(M, Fo, (n, r), "loadings"), array(M, do, (n,), "diagonal")
            M.same_num("loadings", fo.at(i, a), Num(scaled(n, r, G, ei, L)(i, a)), (), [i, a])
            M.same_num("diagonal", dd.at(i), Num(ei(i)), (), [i])
            variables(M, st, n, r, e, G, "state unchanged", i, a)
            M.total()
        with ck.mode(f"{cls}: objective") as M:
            n, r, S, Sig = begin(M)
            e, G, st = given(M, cls, n, r, Sig)
            M.fn = CC + cls + ".objective"
            M.case = lambda env: dict(what="objective", cls=cls, S=tab(env, "S", n, n), e=tab(env, "e", n), G=tab(env, "G", n, r))
            i, a = M.index(n), M.index(r, "a")
            want = add(neg(logdet(M, n, r, e, G)), weight_trace(n, S, e), neg(cross(n, r, S, G, G)))
            M.same_num("log-determinant of the model covariance plus trace of the input times the model precision", M.D(M.it.call_method(st, "objective", [], {})), Num(want))
            variables(M, st, n, r, e, G, "state unchanged", i, a)
            M.total()
    for steps in (1, 2):
        with ck.mode("one iteration" if steps == 1 else "two iterations") as M:
            n, r, S, Sig = begin(M)
            e, G, st = given(M, "_State", n, r, Sig)
            M.it.call_method(st, "construct_problem", [], {})
            M.case = lambda env: dict(what="iterate", cls="_State", steps=steps, S=tab(env, "S", n, n), e=tab(env, "e", n), G=tab(env, "G", n, r))
            i, a = M.index(n), M.index(r, "a")
            H = G
            for k in range(steps):
                M.fn = CC + "_State.iterate"
                M.it.call_method(st, "iterate", [], {})
                M.add("one problem is solved", "discharged" if len(M.it.solves) == k + 1 else "refuted", "", by="execution")
                rec = M.it.solves[k]
                x, g = problem(M, rec, n, r, S, H)
                H = lambda i, a, g=g, c=rec["ctx"]: g(c, i, a)
                variables(M, st, n, r, lambda i: x(rec["ctx"], i), H, "state moves to the solution", i, a)
            M.total(allow=("SolverError",))
    with ck.mode("one proximal iteration") as M:
        n, r, S, Sig = begin(M)
        e, G, st = given(M, "_State2", n, r, Sig)
        M.fn = CC + "_State2.iterate"
        M.case = lambda env: dict(what="proximal", cls="_State2", steps=2, S=tab(env, "S", n, n), e=tab(env, "e", n), G=tab(env, "G", n, r))
        i, a, j = M.index(n), M.index(r, "a"), M.index(n, "j")
        x, g = M.data("x", 1), M.data("g", 2)
        calls, it = [], M.it

        def steps(it, e_init, G_init, Gk, Sigma, maxiters=None):
            """_solve_proximal_gradient: gradient steps from the first two arguments (mode "gradient steps")"""
            vals = [it.D(z) for z in (e_init, G_init, Gk, Sigma)]
            if not all(isinstance(v, Arr) for v in vals) or it.loops:
                return NotImplemented
            calls.append(vals)
            return (it.new(Arr((n,), lambda i: Num(x(i)))), it.new(Arr((n, r), lambda i, a: Num(g(i, a)))))
        it.contracts[CC + "_solve_proximal_gradient"] = steps
        it.call_method(st, "iterate", [], {})
        if len(calls) != 1:
            M.add("one run of gradient steps", "undecided", "outside the verified subset: other calls")
            raise Skip()
        for what, v, shape, k, w in (("start, diagonal", calls[0][0], (n,), (i,), e), ("start, loadings", calls[0][1], (n, r), (i, a), G), ("loadings linearised at", calls[0][2], (n, r), (i, a), G), ("covariance", calls[0][3], (n, n), (i, j), S)):
            M.same_num(what, array(M, M.box(v), shape, what).at(*k), Num(w(*k)), (), list(k))
        variables(M, st, n, r, x, g, "state moves to the result", i, a)
        M.total()
    with ck.mode("gradients") as M:
        n, r, S, Sig = begin(M)
        e, ea = vec(M, "e", n)
        G, Ga = vec(M, "G", n, r)
        M.data_positive |= {"e"}
        pv.pos_apps["e"] = lambda args: True
        M.case = lambda env: dict(what="gradient", e=tab(env, "e", n), G=tab(env, "G", n, r), S=tab(env, "S", n, n))
        i, a = M.index(n), M.index(r, "a")
        ei = lambda i: div(ONE, e(i))
        C = scaled(n, r, G, ei, inverse(M, r, gram(n, G, ei, -1)))
        cf = M.call(CC + "_common_factor", ea, Ga)
        c = array(M, cf, (n, r), "common factor")
        M.same_num("common factor", c.at(i, a), Num(C(i, a)), (), [i, a])
        gg = array(M, M.call(CC + "_grad_G", cf), (n, r), "gradient in the loadings")
        M.same_num("gradient in the loadings", gg.at(i, a), Num(mul(const(2), C(i, a))), (), [i, a])
        ge_ = array(M, M.call(CC + "_grad_e", ea, Ga, cf), (n,), "gradient in the diagonal")
        b = fresh("b", "I", r)
        M.same_num("gradient in the diagonal", ge_.at(i), Num(neg(add(ei(i), mk_sum(b, r, mul(C(i, b), G(i, b), ei(i)))))), (), [i])
        M.total()
    gradient_steps(ck)
    with ck.mode("matrix lemmas") as M:
        M.fn = "lean/Ccp.lean"
        M.lean(LEAN, ["state_precision: (F F' + D)(D^-1 - G G') = 1 for G = D^-1 F L, L L' = (1 + F' D^-1 F)^-1",
                      "built_covariance: (E - G G')(F F' + E^-1) = 1 for F = E^-1 G L, L L' = (1 - G' E^-1 G)^-1",
                      "bordered_det: det [[E, G], [G', 1]] = det(E - G G')", "linearisation_above: the convexified objective lies above and touches",
                      "woodbury: E^-1 + E^-1 G (1 - G' E^-1 G)^-1 G' E^-1 inverts E - G G'", "common_factor: (E - G G') times the common factor is G"])


def gradient_steps(ck):
    """each step subtracts the exact gradient of -log det(diag(e) - G G') + tr(S diag(e)) - 2 tr(H' S G)"""
    with ck.mode("gradient steps") as M:
        n, r, S, Sig = begin(M)
        m = M.nat("m")
        e, ea = vec(M, "e", n)
        G, Ga = vec(M, "G", n, r)
        H, Ha = vec(M, "H", n, r)
        M.case = lambda env: dict(what="steps", steps=min(num(env, m), 3), S=tab(env, "S", n, n), e=tab(env, "e", n), G=tab(env, "G", n, r), H=tab(env, "H", n, r))
        it, calls = M.it, {}

        def contract(what, shape):
            def go(it, *args, **kw):
                """the function of its arguments proved in the mode "gradients"; where 1/e and the inverse exist"""
                vals = [it.D(x) for x in list(args) + list(kw.values())]
                if len(it.loops) != 1 or len(it.pc) > 1 or not all(isinstance(x, Arr) for x in vals):
                    return NotImplemented
                f = M.data(f"{what}{len(calls)}!", 1 + len(shape))
                l = it.loops[-1][0]
                calls[f] = what, l, vals
                return it.new(Arr(shape, lambda *i: Num(f(l, *i))))
            return go
        for fn, shape in (("common_factor", (n, r)), ("grad_G", (n, r)), ("grad_e", (n,))):
            it.contracts[f"{CC}_{fn}"] = contract(fn, shape)
        i, a, j = M.index(n), M.index(r, "a"), M.index(m, "j")
        x, g = M.it.unpack(M.call(CC + "_solve_proximal_gradient", ea, Ga, Ha, Sig, Num(m)), 2)
        xo, go = array(M, x, (n,), "diagonal"), array(M, g, (n, r), "loadings")
        last = {w: (f, l, v) for f, (w, l, v) in calls.items()}
        if set(last) != {"common_factor", "grad_G", "grad_e"}:
            M.add("gradients by their functions", "undecided", f"outside the verified subset: calls of {sorted(last)}")
            raise Skip()

        def iterate(k):
            """the iterates after k steps"""
            def ek(i):
                s = fresh("s", "I", k)
                return sub(e(i), mk_sum(s, k, add(last["grad_e"][0](s, i), S(i, i))))

            def Gk(i, a):
                s, q = fresh("s", "I", k), fresh("q", "I", n)
                return sub(G(i, a), mk_sum(s, k, sub(last["grad_G"][0](s, i, a), mul(const(2), mk_sum(q, n, mul(S(i, q), H(q, a)))))))
            return ek, Gk
        want = dict(zip("eG", iterate(j)))
        for w, ps in (("common_factor", "eG"), ("grad_G", "C"), ("grad_e", "eGC")):
            f, l, vals = last[w]
            if len(vals) != len(ps):
                M.add(f"arguments of _{w}", "undecided", "outside the verified subset: other arguments")
                raise Skip()
            for p, v in zip(ps, vals):
                v = array(M, M.box(v), (n,) if p == "e" else (n, r), f"_{w}: argument {p}")
                k = (i,) if p == "e" else (i, a)
                got = tm.subst(ip.at_iteration(v.at(*k).r, l), {l: j})
                M.same_num(f"_{w} is taken at the current iterate ({p})", Num(got, v.at(*k).nan, v.at(*k).inf), Num(last["common_factor"][0](j, *k) if p == "C" else want[p](*k)), (), [i, a, j])
        ek, Gk = iterate(m)
        M.same_num("diagonal after m steps", xo.at(i), Num(ek(i)), (), [i])
        M.same_num("loadings after m steps", go.at(i, a), Num(Gk(i, a)), (), [i, a])
        M.total()
