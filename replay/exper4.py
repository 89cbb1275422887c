"""Contract monitor for the convex-concave factor fit (C27) on the real code."""
import cvxpy as cp

from common import *
from exper import imp, random_cov


def solver_stand_in():
    """problems that ask for a solver that is not installed are solved by an installed one"""
    if getattr(cp.Problem, "_stand_in", False):
        return
    solve = cp.Problem.solve

    def go(self, *a, **k):
        if k.get("solver") is not None and k["solver"] not in cp.installed_solvers():
            k["solver"] = "CLARABEL"
        return solve(self, *a, **k)
    cp.Problem.solve = go
    cp.Problem._stand_in = True


def arr(x):
    return np.array(x, dtype=float)


def gen_C27(rng, tier):
    n = int(rng.integers(1, 6)) if rng.random() < 0.9 else int(hint_size(rng, 6, 14) or rng.integers(6, 12))
    what = pick(rng, ["state", "build", "objective", "iterate", "gradient", "steps", "round", "proximal"])
    if what in ("steps", "proximal") and rng.random() < 0.3:        # many steps: small enough a step for the errors to die out
        return dict(seed=int(rng.integers(0, 2 ** 31)), what=what, cls="_State2", n=n, r=1, scale=float(pick(rng, [0.2, 0.1, 0.3])), spread=0.0, steps=int(hint_size(rng, 4, 120) or rng.integers(4, 121)), near=False)
    return dict(seed=int(rng.integers(0, 2 ** 31)), what=what, cls=pick(rng, ["_State", "_State2"]), n=min(n, 4) if what == "iterate" else n, r=int(rng.integers(1, max(2, min(n, 4) + (rng.random() < 0.1)))),
                scale=float(pick(rng, [1.0, 1.0, 0.01, 10.0, hint_scale(rng) or 1.0])) if what != "iterate" else float(pick(rng, [1.0, 0.3, 3.0, 1.0])),
                spread=float(pick(rng, [0, 1, 2])) if what != "iterate" else 0.0, steps=int(rng.integers(0, 4)) if what in ("steps", "proximal") else int(rng.integers(1, 3)), near=bool(rng.random() < 0.3))


def fixed_C27():
    return [dict(seed=3, what=w, cls=c, n=4, r=2, scale=1.0, spread=0.0, steps=2, near=False) for w in ("state", "build", "objective", "round", "gradient", "steps", "proximal") for c in ("_State", "_State2")] + \
           [dict(seed=4, what="iterate", cls="_State", n=3, r=2, scale=1.0, spread=0.0, steps=2, near=False)]


def inputs(c):
    """covariance S, pair (F, d) and precision variables (e, G) with diag(e) - G G' positive definite"""
    if "S" in c:
        S = arr(c["S"])
        n = len(S)
        g = lambda k, d: arr(c[k]) if k in c else d
        F, d, e, G = g("F", np.ones((n, len(c["G"][0]) if "G" in c else 1)) * 0.5), g("d", np.ones(n)), g("e", None), g("G", None)
        if e is None:
            e, G = precision(F, d)
        return S, F, d, e, G, g("H", G)
    rng = np.random.default_rng([c["seed"], 27])
    n, r = c["n"], c["r"]
    sd = c["scale"] * 10 ** (rng.uniform(-1, 1, n) * c["spread"])
    S = random_cov(rng, n) * np.outer(sd, sd)
    if c["near"]:
        B = rng.normal(size=(n, r))
        S = (B @ B.T + np.diag(0.2 + rng.random(n))) * np.outer(sd, sd)
    F = rng.normal(size=(n, r)) * sd[:, None]
    d = (0.2 + rng.random(n)) * sd ** 2
    e, G = precision(F, d)
    Q = np.linalg.qr(rng.normal(size=(r, r)))[0]
    return S, F, d, e, G @ Q, G * (1 + 0.3 * rng.normal(size=G.shape))


def precision(F, d):
    D = F / d[:, None]
    return 1 / d, D @ np.linalg.cholesky(np.linalg.inv(np.eye(F.shape[1]) + F.T @ D))


def same(A, B, what, rtol=1e-7, scale=None):
    """entries relative to the roots of the diagonal (units may differ)"""
    A, B = arr(A), arr(B)
    if A.shape != B.shape:
        bad(f"{what}: shape {A.shape}, expected {B.shape}")
    s = np.sqrt(np.abs(np.diag(B))) if scale is None else scale
    s = np.outer(s, s) + 1e-300
    must_close(A / s, B / s, what, rtol, rtol * 10)


def objective(S, e, G):
    P = np.diag(e) - G @ G.T
    return -np.linalg.slogdet(P)[1] + np.trace(S @ P)


def untouched(pairs, what):
    for x, y in pairs:
        if not np.array_equal(x, y):
            bad(f"{what}: an input was changed")


def run_C27(c):
    M = imp("ccp_regularize")
    solver_stand_in()
    S, F, d, e, G, H = inputs(c)
    n, r = G.shape
    what = c["what"]
    if np.linalg.eigvalsh(np.eye(r) - G.T @ (G / e[:, None])).min() < 1e-6 or min(e.min(), d.min()) <= 0 or np.linalg.eigvalsh(S / np.sqrt(np.outer(np.diag(S), np.diag(S)))).min() < 1e-6:
        return
    if what == "gradient":
        P = np.linalg.inv(np.diag(e) - G @ G.T)
        cf = M._common_factor(e.copy(), G.copy())
        u = 1 / np.sqrt(e)
        must_close(cf / u[:, None], (P @ G) / u[:, None], "common factor of the gradients", 1e-6, 1e-8)
        must_close(M._grad_G(cf.copy()) / u[:, None], 2 * (P @ G) / u[:, None], "gradient in the loadings", 1e-6, 1e-8)
        must_close(M._grad_e(e.copy(), G.copy(), cf.copy()) / u ** 2, -np.diag(P) / u ** 2, "gradient in the diagonal", 1e-6)
        return
    if what in ("steps", "proximal"):
        if what == "proximal":
            H = G
        bound = 1e4 * (1 + np.abs(e).max() + np.abs(G).max())

        def walk(x, g):
            for _ in range(c["steps"]):
                A = np.eye(r) - g.T @ (g / x[:, None])
                if np.abs(x).min() < 1e-3 * np.abs(x).max() or np.abs(np.linalg.eigvals(A)).min() < 1e-3:
                    return None, None
                P = np.linalg.inv(np.diag(x) - g @ g.T)
                x, g = x + np.diag(P) - np.diag(S), g - 2 * (P @ g) + 2 * S @ H
                if max(np.abs(x).max(), np.abs(g).max()) > bound:
                    return None, None
            return x, g
        x, g = walk(e, G)
        noise = np.random.default_rng(1)
        x2, g2 = walk(e * (1 + 1e-12 * noise.normal(size=n)), G * (1 + 1e-12 * noise.normal(size=G.shape)))
        # rounding errors must not be blown up by the steps
        if x is None or x2 is None or max(np.abs(x - x2).max(), np.abs(g - g2).max()) > 1e-9 * (1 + np.abs(x).max() + np.abs(g).max()):
            return
        if what == "proximal":
            st = M._State2(S.copy(), F.copy(), d.copy())
            st.ek, st.Gk = e.copy(), G.copy()
            run = M._solve_proximal_gradient
            M._solve_proximal_gradient = lambda *a: run(*a, maxiters=c["steps"])        # few steps: many blow rounding errors up
            try:
                st.iterate()
            finally:
                M._solve_proximal_gradient = run
            m = 1 + np.abs(x).max() + np.abs(g).max()
            must_close(np.ravel(st.ek), x, f"diagonal after a proximal iteration of {c['steps']} steps", 1e-5, 1e-7 * m)
            must_close(st.Gk, g, f"loadings after a proximal iteration of {c['steps']} steps", 1e-5, 1e-7 * m)
            return
        ins = [z.copy() for z in (e, G, H, S)]
        got = M._solve_proximal_gradient(*ins, maxiters=c["steps"])
        m = 1 + np.abs(x).max() + np.abs(g).max()
        must_close(got[0], x, f"diagonal after {c['steps']} gradient steps", 1e-5, 1e-7 * m)
        must_close(got[1], g, f"loadings after {c['steps']} gradient steps", 1e-5, 1e-7 * m)
        untouched(zip(ins, (e, G, H, S)), "gradient steps")
        return
    ins = [z.copy() for z in (S, F, d)]
    st = getattr(M, c["cls"])(*ins)
    if what in ("state", "round"):
        same(np.diag(st.ek) - st.Gk @ st.Gk.T, np.linalg.inv(F @ F.T + np.diag(d)), "precision represented by the state", 1e-6, 1 / np.sqrt(d))
        must_close(st.ek, 1 / d, "diagonal of the state", 1e-12)
        if what == "round":
            F2, d2 = st.build()
            must_close(d2, d, "diagonal built at once", 1e-10)
            same(F2 @ F2.T + np.diag(d2), F @ F.T + np.diag(d), "covariance built at once", 1e-6)
            must_close(st.objective(), np.linalg.slogdet(F @ F.T + np.diag(d))[1] + np.trace(np.linalg.solve(F @ F.T + np.diag(d), S)), "objective of the pair", 1e-6, 1e-6)
        untouched(zip(ins, (S, F, d)), "making a state")
        return
    st.ek, st.Gk = e.copy(), G.copy()
    if what == "build":
        F2, d2 = st.build()
        must_close(d2, 1 / e, "diagonal of the pair", 1e-12)
        same(F2 @ F2.T + np.diag(d2), np.linalg.inv(np.diag(e) - G @ G.T), "covariance of the pair", 1e-6)
        untouched([(st.ek, e), (st.Gk, G)], "building")
        return
    if what == "objective":
        must_close(st.objective(), objective(S, e, G), "objective", 1e-6, 1e-6)
        untouched([(st.ek, e), (st.Gk, G)], "evaluating the objective")
        return
    st = M._State(*ins)
    st.construct_problem()
    if c["cls"] == "_State" and "e" in c:
        st.ek, st.Gk = e.copy(), G.copy()
    for k in range(c["steps"]):
        e0, G0 = np.ravel(st.ek).copy(), np.array(st.Gk)
        try:
            st.iterate()
        except cp.SolverError:
            return
        x, g = np.ravel(st.ek), np.array(st.Gk)
        if x.shape != (n,) or g.shape != (n, r):
            bad(f"iteration {k}: shapes {x.shape}, {g.shape}")
        if np.linalg.eigvalsh(np.diag(x) - g @ g.T).min() < 1e-5:
            return
        P = np.linalg.inv(np.diag(x) - g @ g.T)
        must_close(np.diag(P), np.diag(S), f"iteration {k}: slope in the diagonal at the new state", 2e-2, 1e-3 * np.abs(S).max())
        must_close(P @ g, S @ G0, f"iteration {k}: slope in the loadings at the new state", 3e-2, 1e-2 * np.abs(S @ G0).max() + 1e-3)
        if objective(S, x, g) > objective(S, e0, G0) + 1e-3:
            bad(f"iteration {k} raises the objective from {objective(S, e0, G0)} to {objective(S, x, g)}")
    probs = [p for p in vars(st).values() if isinstance(p, cp.Problem)]
    for p in probs:                     # any positive definite precision may be chosen, however large or small the units
        vs = p.variables()
        for size in (1e-8, 1e-4, 1.0, 1e4, 1e8):
            for v in vs:
                v.save_value(np.full(v.shape, size) if v.size == n and (v.size != n * r or v.shape != (n, r)) else np.zeros(v.shape))
            if p.objective.value is not None and np.isfinite(p.objective.value):
                for con in p.constraints:
                    if not con.value(tolerance=1e-9 * size):
                        bad(f"constraint {con} excludes the precision {size} * identity, at which the objective is finite")
    untouched(zip(ins, (S, F, d)), "iterating")
