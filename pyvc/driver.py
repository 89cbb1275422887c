"""Runs the contracts of a property against the current source and decides their obligations."""
from __future__ import annotations

import contextlib
import importlib
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

from . import terms as tm          # noqa: E402
from . import interp as ip         # noqa: E402
from . import prove as pv          # noqa: E402
from . import logic                # noqa: E402
from . import lib_np, lib_pd, lib_py  # noqa: E402,F401
from . import lib_cvx          # noqa: E402,F401
from . import lib_rec          # noqa: E402,F401
from . import numeval as ne        # noqa: E402
from . import values          # noqa: E402
from .values import (Num, BoolV, Axis, Frame, Series, Arr, Seq, SymDict, Ref, Unsupported, NeedCarry, Fn, DictV, ListV, NT, vsubst)  # noqa: E402
from .terms import TRUE, FALSE, And, Or, Not, ZERO, ONE  # noqa: E402

sys.setrecursionlimit(20000)


class Timeout(Exception):
    pass


class Skip(Exception):
    """end of a mode: a construct outside the verified subset"""


# back-end accounting: how an obligation was closed
class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []
        self.functions = {}
        self.assumptions = []
        self.bounded = []
        self.vacuity = {}
        self.backends = {}
        self.t0 = time.time()
        self.deadline = self.t0 + {"quick": 420, "thorough": 800}[tier]
        self.witness_cases = []

    @contextlib.contextmanager
    def mode(self, name, limit=None, lemma=False, hunt=False):
        """lemma: a contract this property's proof relies on; when it fails the proof is undecided,
        the property itself may still hold
        hunt: only counterexamples count (intermediate values are named and taken to be non-zero)"""
        m = Mode(self, name)
        m.lemma, m.hunt = lemma, hunt
        pv.hunting = hunt
        left = self.deadline - time.time()
        limit = min(limit or {"quick": 150, "thorough": 400}[self.tier], left)

        def onalarm(sig, frm):
            raise Timeout()
        if limit <= 2:
            m.add("execute", "undecided", "time budget of the check is used up")
            try:
                yield Dead(m)
            except Skip:
                pass
            return
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, limit)
        t0 = time.time()
        try:
            yield m
        except Skip:
            pass
        except Timeout:
            m.add("within time", "undecided", f"no answer within {limit:.0f} s")
        except (Unsupported, NeedCarry) as e:
            m.add("execute", "undecided", f"outside the verified subset: {e}" + where(e))
        except (RecursionError, MemoryError) as e:
            if os.environ.get("PYVC_TRACE"):
                traceback.print_exc(limit=60)
            m.add("execute", "undecided", f"{type(e).__name__}")
        except Exception as e:
            m.add("execute", "undecided", f"verifier error {type(e).__name__}: {e}" + where(e))
            if os.environ.get("PYVC_TRACE"):
                traceback.print_exc()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            pv.hunting = False
            for f in m.it.executed:
                self.functions.setdefault(str(f), set()).add(name)
            for o in m.it.obs:
                if o[0] == "assume" and o[1] not in self.assumptions:
                    self.assumptions.append(o[1])
            m.seconds = time.time() - t0


def _undef():
    raise ne.Undefined("index")


def sequence(M, v, what="outcomes"):
    s = M.D(v)
    if not isinstance(s, Seq):
        M.add(f"{what} are a sequence", "undecided", type(s).__name__)
        raise Skip()
    return s


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " [" + " < ".join(f"{f.name}:{f.lineno}" for f in list(tb)[::-1][:3]) + "]"


class Dead:
    """a mode that is not run"""

    def __init__(self, m):
        self.m = m

    def __getattr__(self, k):
        raise Skip()


class Mode:
    def __init__(self, ck, name):
        self.ck, self.name = ck, name
        self.it = ip.Interp()
        self.sizes = []
        self.reals = []
        self.fn = "?"
        self.samplers = []
        self.case = None
        self.funs = {}
        self.seconds = 0
        self.tries = 60
        self.lemma = self.hunt = False
        self.volas, self.centers = [], []
        self.scale_fn = self.perm_fn = None
        self.perms, self.data_positive, self.integer = {}, set(), set()
        pv.rec_state.clear()
        pv.nonneg_names.clear()
        pv.positive.clear()
        pv.pos_apps.clear()
        pv.nonneg_apps.clear()
        pv.positive.add(tm.Var('pi', 'R'))
        pv.pair_facts.clear()
        pv.app_facts[:] = [ip.rec_facts, ip.let_facts, sym_facts]
        tm.zero_forces.clear()
        tm.bijections.clear()
        tm.symmetric.clear()
        tm.fun_lower.clear()
        tm.clear_memo()
        ne.fun_hooks.clear()
        symbol_facts.clear()
        ip.call_defs.clear()
        values.number_labels.clear()

    # -------------------------------------------------- parameters
    def nat(self, name, lo=0):
        v = tm.Var(name, "I")
        tm.lower_bound[v] = lo
        self.sizes.append((v, lo))
        return v

    def pos(self, name):
        v = tm.Var(name, "R")
        pv.positive.add(v)
        self.it.hyps.append(tm.gt(v, ZERO))
        self.reals.append((v, "pos"))
        return v

    def real(self, name):
        v = tm.Var(name, "R")
        self.reals.append((v, "real"))
        return v

    def data(self, name, n, sort="R"):
        """an arbitrary function of n indices"""
        self.funs[name] = n
        if sort == "I":
            self.integer.add(name)
        return lambda *idx: tm.App(name, tuple(idx), sort)

    def frame(self, rows, cols, cell, input=True):
        r = self.it.new(Frame(rows, cols, cell))
        if input:
            self.it.inputs.add(r.id)
        return r

    def box(self, v, input=True):
        r = self.it.new(v)
        if input:
            self.it.inputs.add(r.id)
        return r

    def assume(self, *hs):
        self.it.hyps += [h for h in hs if h is not TRUE]

    def index(self, n, prefix="t"):
        return tm.fresh(prefix, "I", n)

    # -------------------------------------------------- execution
    def call(self, fn, *args, **kw):
        self.fn = fn
        f = self.it.func(fn)
        return self.it.call(f, list(args), kw)

    def D(self, v):
        return self.it.D(v)

    # -------------------------------------------------- obligations
    def add(self, name, status, detail="", by=None, s=0.0, **kw):
        if status == "refuted" and self.lemma:
            status, detail = "undecided", "callee contract does not hold: " + str(detail)
            kw.pop("witness", None)
        if self.hunt and status != "refuted":
            return status == "discharged"
        self.ck.obs.append(dict(name=f"{self.ck.pid} {self.name}: {name}", function=self.fn, status=status, detail=detail, by=by, s=s, lemma=self.lemma, **kw))
        if by:
            self.ck.backends[by] = self.ck.backends.get(by, 0) + 1
        if os.environ.get("PYVC_SHOW"):
            print(f"  {status:10s} {self.name}: {name} [{by}] {s:.2f}s {str(detail)[:1500] if status != 'discharged' else ''}", flush=True)
        return status == "discharged"

    def prove(self, name, goal, given=(), vars=()):
        """formula obligation"""
        t0 = time.time()
        hyps = list(self.it.hyps) + [h for h in given if h is not TRUE]
        by = None
        n0 = pv.stats["z3_calls"]
        goal0 = goal
        if goal is TRUE:
            by = "normal form"
        elif prove_formula(hyps, goal):
            by = "z3" if pv.stats["z3_calls"] > n0 else "normal form"
        if by:
            return self.add(name, "discharged", by=by, s=time.time() - t0)
        w = self.refute(hyps, lambda env: not env.ev(goal0), vars)
        if w:
            return self.add(name, "refuted", "fails at " + w[0], s=time.time() - t0, witness=w[1])
        return self.add(name, "undecided", f"{goal}"[:1500], s=time.time() - t0)

    def same_num(self, name, got, want, given=(), vars=(), rtol=1e-6):
        """extended-real equality of two values"""
        t0 = time.time()
        if not isinstance(got, Num) or not isinstance(want, Num):
            if isinstance(got, BoolV):
                return self.prove(name, tm.Iff(got.t, want.t), given, vars)
            return self.add(name, "undecided", f"value is a {type(got).__name__}")
        hyps = list(self.it.hyps) + [h for h in given if h is not TRUE]
        n0 = pv.stats["z3_calls"]
        got0, want0 = got, want
        for v in vars:           # an index of a range with one element
            n = tm.var_range.get(v)
            if n is not None and tm.lt(v, n) in given and (n is ONE or not tm.is_const(n) and logic.prove(hyps, tm.le(n, ONE))):
                got, want = vsubst(got, {v: tm.ZERO}), vsubst(want, {v: tm.ZERO})
                hyps = [tm.subst(h, {v: tm.ZERO}) for h in hyps]
        ok = iff(hyps, got.nan, want.nan) and iff(hyps + [Not(want.nan)], got.inf, want.inf)
        why = "missing or infinite flags differ" if not ok else ""
        if ok:
            h2 = hyps + [x for x in (Not(want.nan),) if x is not TRUE]
            ok = equal(h2, got.r, want.r)
            why = "values differ" if not ok else ""
        if ok:
            by = "normal form" if pv.stats["z3_calls"] == n0 else "normal form + z3"
            return self.add(name, "discharged", by=by, s=time.time() - t0)
        w = self.refute(list(self.it.hyps) + [h for h in given if h is not TRUE], lambda env: ne.differ(ne.evnum(env, got0), ne.evnum(env, want0), rtol), vars)
        if w:
            return self.add(name, "refuted", why + "; " + w[0], s=time.time() - t0, witness=w[1])
        return self.add(name, "undecided", why + f": got {got.r} nan {got.nan} inf {got.inf} want {want.r} nan {want.nan}"[:3000], s=time.time() - t0)

    def induct(self, name, got, want, k, cases=({},), given=(), vars=(), rtol=1e-6):
        """got(k) = want(k) for every k >= 0 by induction on k when got is recursively defined; cases: substitutions that
        together cover every k >= 1 (of k and sizes)"""
        g = got(k)
        if not isinstance(g, Num) or g.nan is not FALSE or g.inf is not FALSE or not has_rec(g.r):
            return self.same_num(name, g, Num(want(k)), given, [k] + list(vars), rtol)
        g0 = got(ZERO)
        for _ in range(3):                               # recursions at a fixed step
            for c in {x.args[1][0] for x in tm.walk(g0.r) if x.op == "app" and x.args[0] in ip.rec_defs and tm.is_const(x.args[1][0]) and tm.cval(x.args[1][0]) >= 1}:
                g0 = Num(unfold_at(g0.r, c), g0.nan, g0.inf)
        ok = self.same_num(name + ", first step", g0, Num(want(ZERO)), (), list(vars), rtol)
        old = tm.lower_bound.get(k, 0)
        rng = tm.var_range.pop(k, None)
        tm.lower_bound[k] = 1
        tm.clear_memo()
        try:
            recs = {x for x in tm.walk(g.r) if x.op == "app" and x.args[0] in ip.rec_defs}
            prev = {tm.subst(x, {k: tm.sub(k, ONE)}) for x in recs}
            step = unfold_at(g.r, g.r.args[1][0] if g.r in recs else k)
            if g.r in recs:
                step = tm.subst_terms(step, {tm.subst(g.r, {k: tm.sub(k, ONE)}): want(tm.sub(k, ONE))})
            one = next(iter(recs)) if g.r not in recs and len(recs) == 1 else None
            if one is not None and equal(list(self.it.hyps) + list(given), unfold_at(one, one.args[1][0]), got(tm.sub(k, ONE)).r):
                step = tm.subst_terms(g.r, {one: want(tm.sub(k, ONE))})             # the state before the step is the value of the step before
            left = [x for x in tm.walk(step) if x in prev]
            if left:
                return self.same_num(name, g, Num(want(k)), given, [k] + list(vars), rtol)
            for c in cases:
                sb = c if isinstance(c, dict) else c[1]
                lab = "" if isinstance(c, dict) else f" ({c[0]})"
                diff = [tm.subst(tm.subst(x, sb), {}) for x in (step, want(k))]
                good = equal([tm.subst(h, sb) for h in list(self.it.hyps) + list(given)], *diff)
                if good:
                    self.add(f"{name}, induction step{lab}", "discharged", by="induction")
                else:
                    if rng is not None:
                        tm.var_range[k] = rng
                    tm.lower_bound[k] = old
                    tm.clear_memo()
                    w = self.refute(list(self.it.hyps) + list(given), lambda env: ne.differ(ne.evnum(env, g), env.ev(want(k)), rtol), [k] + list(vars))
                    if w:
                        return self.add(f"{name}, induction step{lab}", "refuted", w[0], witness=w[1])
                    ok = self.add(f"{name}, induction step{lab}", "undecided", f"{tm.sub(*diff)}")
            return ok
        finally:
            tm.lower_bound[k] = old
            if rng is not None:
                tm.var_range[k] = rng
            tm.clear_memo()

    def same_rec(self, name, got, want, given=(), vars=()):
        """equality of values defined by recursion, by induction over matching recursions"""
        if isinstance(got, Num) and isinstance(want, Num) and has_rec(got.r) and has_rec(want.r):
            maps = match_recs(list(self.it.hyps) + list(given), got.r, want.r)
            if maps and equal(list(self.it.hyps) + list(given), map_recs(got.r, maps), want.r) and got.nan is FALSE and got.inf is FALSE:
                return self.add(name, "discharged", by="induction")
        return self.same_num(name, got, want, given, vars)

    def total(self, allow=()):
        """no exception, no write into an input"""
        bad = [(pc, e) for pc, e in self.it.raises if not any(a in str(e) for a in allow)]
        if not bad:
            self.add("no exception", "discharged", by="execution")
        for pc, e in bad:
            self.prove(f"no exception ({e})", Not(pc if not isinstance(pc, (list, tuple)) else And(*pc)))
        if not self.it.input_writes:
            self.add("frame: inputs unchanged", "discharged", by="execution")
        for pc, what in self.it.input_writes:
            self.prove(f"frame: inputs unchanged ({what})", Not(pc))
        for what, hy, goal in self.it.safety:
            self.prove(f"safety: {what}", goal, hy)

    def depends(self, name, vals, need, forbid=(), given=(), vars=(), perturb=None, case=None):
        """footprint: every data access in the values satisfies need(symbol, args) (None: irrelevant symbol), and no
        variable of `forbid` occurs; otherwise two runs that differ outside the footprint are compared numerically"""
        t0 = time.time()
        hyps = list(self.it.hyps) + [h for h in given if h is not TRUE]
        terms = []
        for v in vals:
            terms += [x for x in ((v.r, v.nan, v.inf) if isinstance(v, Num) else (v.t,) if isinstance(v, BoolV) else (v,))]
        terms = [logic.simplify_deep(ip.expand_lets(logic.simplify_deep(x, hyps)), hyps) for x in terms]
        bad = None
        for x in terms:
            for v in forbid:
                if v in x.fv:
                    bad = f"depends on {v}"
            if bad:
                break
            for a, sc in accesses(x):
                c = need(a.args[0], a.args[1])
                if c is None or c is TRUE:
                    continue
                if not (c is not FALSE and prove_formula(hyps + sc, c)):
                    bad = f"reads {a} (needs {c})"
                    break
        if not bad:
            return self.add(name, "discharged", by="footprint", s=time.time() - t0)
        if perturb:
            def differs(env):
                e2 = perturb(env)
                if e2 is None:
                    return False
                if not all(e2.ev(h) for h in hyps):
                    return False
                for v in vals:
                    if isinstance(v, Num):
                        if ne.differ(ne.evnum(env, v), ne.evnum(e2, v), 1e-7):
                            return True
                    elif bool(env.ev(v.t if isinstance(v, BoolV) else v)) != bool(e2.ev(v.t if isinstance(v, BoolV) else v)):
                        return True
                return False
            old = self.case
            if case:
                self.case = case
            w = self.refute(hyps, differs, vars)
            self.case = old
            if w:
                return self.add(name, "refuted", bad + "; fails at " + w[0], s=time.time() - t0, witness=w[1])
        return self.add(name, "undecided", bad[:600], s=time.time() - t0)

    # -------------------------------------------------- falsification
    def sample(self, rng, small):
        vs = {}
        for v, lo in self.sizes:
            vs[v] = lo + rng.choice([0, 0, 1, 1, 2, 3] if small else [0, 1, 2, 3, 4, 5, 6])
        for v, kind in self.reals:
            x = rng.choice([0.5, 1.0, 2.0, 3.7, 10.0, 60.0]) if rng.random() < .7 else 10 ** rng.uniform(-2, 2)
            vs[v] = x if kind == "pos" else x * rng.choice([-1, 1, 0])
        style = rng.choice(["n", "n", "heavy", "zero", "tiny", "mixed", "lead", "stuck", "column"])
        seed = rng.random()
        cut, col = rng.choice([1, 1, 2, 3]), rng.choice([0, 0, 1])

        def mk(name):
            cache = {}

            def f(*idx):
                x = cache.get(idx)
                if x is None:
                    g = random.Random(f"{seed}{name}{idx}")
                    x = g.gauss(0, 1)
                    if style == "heavy" and g.random() < .2:
                        x *= 30
                    if style == "zero" and g.random() < .4:
                        x = 0.0
                    if style == "tiny":
                        x *= 1e-6
                    if idx and (style == "lead" and idx[0] < cut or style == "stuck" and idx[0] >= cut and idx[-1] == col or
                                style == "column" and len(idx) > 1 and idx[-1] == col):
                        x = 0.0
                    if style == "mixed":
                        x *= 10.0 ** g.choice([-5, -2, 0, 2, 4])
                    cache[idx] = x
                return x
            f.cache = cache
            return f
        fs = {n: mk(n) for n in self.funs if n not in self.perms}
        env = ne.NumEnv(vs, fs)
        for n in self.data_positive:
            g = fs[n]
            fs[n] = env.funs[n] = (lambda *idx, g=g: 1 + int(2 * abs(g(*idx)))) if n in self.integer else lambda *idx, g=g: 2.0 ** round(3 * g(*idx))
        for n in pv.nonneg_names & set(self.funs):
            g = fs[n]
            fs[n] = env.funs[n] = lambda *idx, g=g: abs(g(*idx))
        for n, size in self.perms.items():
            N = int(env.ev(size))
            order = list(range(N))
            rng.shuffle(order)
            env.funs[n] = lambda i, order=order: order[i] if 0 <= i < len(order) else _undef()
        return env

    def refute(self, hyps, bad, vars=(), tries=None):
        """a concrete point satisfying the hypotheses where the obligation fails"""
        rng = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
        t0 = time.time()
        n = 0
        hit = 0
        found, cases = None, []
        for k in range(max((tries or self.tries) * 4, 240)):
            if time.time() - t0 > (12 if found is None else 6) or hit >= (tries or self.tries):
                break
            env = None
            for smp in ([self.samplers[k % len(self.samplers)]] if self.samplers else [self.sample]):
                env = smp(rng, k % 3 == 0)
            n += 1
            try:
                for v in vars:
                    N = tm.var_range.get(v)
                    if N is not None:
                        N = int(env.ev(N))
                        if N <= 0:
                            raise ne.Undefined("empty")
                        env.vars[v] = rng.randrange(N)
                    else:
                        env.vars[v] = tm.lower_bound.get(v, 0) + rng.randrange(6)
                env.memo.clear()
                if not all(env.ev(h) for h in hyps):
                    continue
                hit += 1
                if bad(env):
                    desc = ", ".join(f"{v}={env.vars[v]}" for v, _ in self.sizes + self.reals) + "; " + ", ".join(f"{v}={env.vars[v]}" for v in vars)
                    case = None
                    if self.case:
                        try:
                            case = self.case(env)
                        except Exception as e:   # the witness cannot be made concrete
                            case = None
                    if found is None:
                        found = desc
                    if case is not None:
                        cases.append(case)
                    if len(cases) >= 4 or not self.case:
                        break
            except (ne.Undefined, OverflowError, ZeroDivisionError, KeyError, ValueError):
                continue
        return (found, cases) if found is not None else None

    def lean(self, path, theorems):
        """matrix lemmas used by the contract, checked by Lean on every run"""
        import subprocess
        t0 = time.time()
        try:
            r = subprocess.run(["lean", path], capture_output=True, text=True, timeout=240, cwd=os.path.dirname(os.path.abspath(__file__)))
            ok = r.returncode == 0 and "sorry" not in r.stdout and "error" not in r.stdout
            why = (r.stdout + r.stderr)[:600]
        except (OSError, subprocess.TimeoutExpired) as e:
            ok, why = False, f"Lean gave no answer: {type(e).__name__}"
        for t in theorems:
            self.add(f"lemma {t}", "discharged" if ok else "undecided", "" if ok else why, by="Lean 4 + Mathlib" if ok else None, s=(time.time() - t0) / len(theorems))

    def reachable(self, name, cond=TRUE, vars=()):
        """vacuity: the hypotheses (and cond) hold at some concrete point"""
        w = self.refute(list(self.it.hyps) + [cond], lambda env: True, vars, tries=5)
        self.ck.vacuity[f"{self.name}: {name}"] = w[0] if w else "no sample found"
        return w


def accesses(t, scope=(), seen=None):
    """applications of data symbols in t with the facts of the scopes they occur in; recursive definitions are opened"""
    seen = set() if seen is None else seen
    if (t, scope) in seen or not isinstance(t, tm.T):
        return
    seen.add((t, scope))
    op = t.op
    if op == "poly":
        for m, _ in t.args:
            for a, _e in m:
                yield from accesses(a, scope, seen)
    elif op == "sum":
        bs, rs, mono = t.args
        fr = {b: tm.fresh("b", "I") for b in bs}
        sc = list(scope)
        for b, n in zip(bs, rs):
            n2 = tm.subst(n, fr)
            tm.lower_bound[fr[b]] = 0
            sc += [tm.ge(fr[b], ZERO), tm.lt(fr[b], n2)]
            yield from accesses(n2, scope, seen)
        sc = tuple(x for x in sc if x is not TRUE)
        for a, _e in mono:
            yield from accesses(tm.subst(a, fr), sc, seen)
    elif op in ("forall", "exists"):
        b, n, body = t.args
        v = tm.fresh("b", "I")
        tm.lower_bound[v] = 0
        yield from accesses(n, scope, seen)
        yield from accesses(tm.subst(body, {b: v}), scope + (tm.lt(v, n),), seen)
    elif op == "ite":
        c, a, b = t.args
        yield from accesses(c, scope, seen)
        yield from accesses(a, scope + ((c,) if not _bnd(c) else ()), seen)
        yield from accesses(b, scope + ((Not(c),) if not _bnd(c) else ()), seen)
    elif op == "app":
        name, args = t.args
        if name in ip.rec_defs:
            d = ip.rec_defs[name]
            kk = tm.fresh("k", "I")
            tm.lower_bound[kk] = 1
            m = {d["k"]: kk}
            m.update(zip(d["idx"], args[1:1 + len(d["idx"])]))
            m.update(zip(d["params"], args[1 + len(d["idx"]):]))
            step = tm.rewrite_apps(d["step"], lambda n, a, srt: ZERO if n == name else None)
            yield from accesses(tm.subst(step, m), scope + (tm.le(kk, args[0]),), seen)
            m[d["k"]] = ZERO
            yield from accesses(tm.subst(d["init"], m), scope, seen)
            yield from accesses(args[0], scope, seen)
            return
        if name in ip.call_defs:        # result of a call replaced by its contract: a function of its arguments
            rec = ip.call_defs[name]
            nc = len(rec["ctx"])
            ks, m, sc = [], {}, scope
            for v, a in zip(rec["ctx"], args[:nc]):     # the arguments of every call up to this one (earlier results included)
                kk = tm.fresh("k", "I")
                tm.lower_bound[kk] = 0
                m[v] = kk
                sc += (tm.le(kk, a),)
            for v in rec["vals"]:
                ix = [tm.fresh("b", "I", s) for s in v.shape]
                x = v.at(*ix)
                for y in (x.r, x.nan, x.inf):
                    y = tm.rewrite_apps(tm.subst(y, m), lambda n, a, srt: ZERO if n in rec["names"] and nc and tm.subst(rec["ctx"][-1], m) is tm.add(a[nc - 1], ONE)
                                        and all(p is m[q] for p, q in zip(a[:nc - 1], rec["ctx"])) else None)
                    yield from accesses(y, sc + tuple(tm.lt(b, tm.subst(s, m)) for b, s in zip(ix, v.shape)), seen)
            for a in args[:nc]:
                yield from accesses(a, scope, seen)
            return
        if name in lib_np.matfns and not isinstance(lib_np.matfns[name][3], tuple):
            kind, pvars, i, j, body, dim = lib_np.matfns[name]
            v, w = tm.fresh("b", "I"), tm.fresh("b", "I")
            tm.lower_bound[v] = tm.lower_bound[w] = 0
            m = dict(zip(pvars, args))
            n2 = tm.subst(dim, m)
            m[i], m[j] = v, w
            yield from accesses(tm.subst(body, m), scope + (tm.lt(v, n2), tm.lt(w, n2)), seen)
            yield from accesses(n2, scope, seen)
        elif name in lib_np.matfns:
            kind, pvars, i, par, body, dim = lib_np.matfns[name]
            v = tm.fresh("b", "I")
            tm.lower_bound[v] = 0
            m = dict(zip(pvars, args))
            n2 = tm.subst(dim, m)
            m[i] = v
            yield from accesses(tm.subst(body, m), scope + (tm.lt(v, n2),), seen)
            yield from accesses(tm.subst(par[2], m), scope + (tm.lt(v, n2),), seen)
        if args and name not in ("E", "log", "sqrt", "abs", "max", "min", "pow"):
            yield t, list(scope)
        for a in args:
            yield from accesses(a, scope, seen)
    elif op in ("true", "false", "var"):
        return
    else:
        for a in t.args:
            yield from accesses(a, scope, seen)


def _bnd(c):
    return any(v.args[0].startswith("$b") for v in c.fv)


symbol_facts: dict = {}     # function symbol -> f(args, atom) -> facts


def sym_facts(name, args, t):
    f = symbol_facts.get(name)
    lo = [tm.ge(t, tm.const(tm.fun_lower[name]))] if name in tm.fun_lower else []
    return lo + list(f(args, t)) if f else lo


def iff(hyps, a, b, expanded=False):
    if a is b:
        return True
    if tm.Iff(a, b) is TRUE:
        return True
    if prove_formula(hyps + [a], b) and prove_formula(hyps + [b], a):
        return True
    if not expanded:
        ea, eb = ip.expand_lets(a), ip.expand_lets(b)
        if ea is not a or eb is not b:
            return iff(hyps, ea, eb, True)
    return False


def prove_formula(hyps, goal):
    if goal is TRUE:
        return True
    if goal.op == "iff":
        return iff(hyps, *goal.args)
    if goal.op == "and":
        return all(prove_formula(hyps, g) for g in goal.args)
    g2 = zero_sums(goal, hyps)
    if g2 is not goal:
        return prove_formula(hyps, g2)
    if logic.prove(hyps, goal):
        return True
    return logic.prove(hyps, goal, timeout=4000, unfold=2)


def zero_sums(t, hyps):
    """sums whose every summand is provably zero are zero (only under assumptions about data over ranges)"""
    if not any(h.op == "forall" for h in hyps):
        return t
    m = {}
    for x in tm.walk(t):
        if x.op == "sum" and len(x.args[0]) == 1 and not _bnd(x):
            b, n, mono = x.args[0][0], x.args[1][0], x.args[2]
            v = tm.fresh("s", "I")
            tm.lower_bound[v] = 0
            body = ip.expand_lets(tm.subst(tm._mono_term(mono), {b: v}))
            if logic.prove(list(hyps) + [tm.lt(v, n)], tm.eq0(body)):
                m[x] = ZERO
    return tm.subst_terms(t, m) if m else t


def given_sums(t, hyps):
    """rewrite with assumed equations  Sum = e"""
    for h in hyps:
        if h.op != "eq0":
            continue
        for mono, c in tm.poly(h.args[0]).items():
            if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "sum":
                x = mono[0][0]
                rest = tm.sub(x, tm.scale(h.args[0], 1 / c))
                if x not in tm.walk(rest):
                    t = tm.subst_terms(t, {x: rest})
                    break
    return t


def equal(hyps, a, b, splits=0, expanded=False):
    if a is b:
        return True
    a, b = given_sums(a, hyps), given_sums(b, hyps)
    if a is b:
        return True
    d = tm.sub(a, b)
    if tm.is_zero(d):
        return True
    a2, b2 = zero_sums(a, hyps), zero_sums(b, hyps)
    if a2 is not a or b2 is not b:
        return equal(hyps, a2, b2, splits, expanded)
    sa, sb = logic.simplify(a, hyps), logic.simplify(b, hyps)
    d = tm.sub(sa, sb)
    if sa is sb or tm.is_zero(d):
        return True
    try:
        d2 = logic.align_sums([d])[0]
        if tm.is_zero(d2):
            return True
        d3 = logic.simplify(d2, hyps)
        if tm.is_zero(d3):
            return True
        d4 = logic.align_shifts(d2)
        if d4 is not d2 and tm.is_zero(d4):
            return True
    except (IndexError, ZeroDivisionError):
        pass
    b2 = congruent(hyps, sa, sb)
    if b2 is not sb and (b2 is sa or tm.is_zero(tm.sub(sa, b2))):
        return True
    if not expanded:
        ea, eb = ip.expand_lets(a), ip.expand_lets(b)
        if ea is not a or eb is not b:
            if tm.is_zero(tm.sub(ea, eb)):
                return True
            if logic.prove(hyps, tm.eq0(d), timeout=1500):
                return True
            return equal([ip.expand_lets(h) for h in hyps], ea, eb, splits, True)
    if splits < 3:
        c = split_condition(d)
        if c is not None:
            return all(equal(hyps + [x], assume_cond(d, c, y), ZERO, splits + 1, expanded) for x, y in ((c, True), (Not(c), False)))
        x = next((x for x in tm.walk(d) if x.op == "app" and x.args[0] in ("max", "min") and x.sort == "I" and not _bnd(x)), None)
        if x is not None:
            p, q = x.args[1] if x.args[0] == "max" else x.args[1][::-1]
            return all(equal(hyps + [c], tm.subst_terms(d, {x: v}), ZERO, splits + 1, expanded)
                       for c, v in ((tm.ge(p, q), x.args[1][0]), (tm.lt(p, q), x.args[1][1])))
    return logic.prove(hyps, tm.eq0(d), timeout=3000)


def split_condition(t):
    """the condition of a case distinction of t that is not below a binder"""
    for x in tm.walk(t):
        if x.op == "ite" and not _bnd(x.args[0]) and x.sort != "B":
            return x.args[0]
    return None


def assume_cond(t, c, val):
    if val and c.op == "eq0":
        t2 = tm._subst_eq(c, t)
        if t2 is not None:
            return t2
    m = {x: x.args[1] if val else x.args[2] for x in tm.walk(t) if x.op == "ite" and x.args[0] is c}
    return tm.subst_terms(t, m)


def congruent(hyps, a, b, depth=0):
    """b with its function applications replaced by applications of a that have provably equal arguments"""
    if depth > 3:
        return b
    fa, fb = {}, {}
    for t, f in ((a, fa), (b, fb)):
        for x in tm.walk(t):
            if x.op == "app" and x.args[1] and not any(v.args[0].startswith("$b") for v in x.fv):
                f.setdefault(x.args[0], []).append(x)
    m = {}
    for n, ys in fb.items():
        for y in ys:
            if y in fa.get(n, ()):
                continue
            for x in fa.get(n, ())[:6]:
                if len(x.args[1]) == len(y.args[1]) and all(
                        p is q or (p.sort != "B" and q.sort != "B" and (tm.is_zero(tm.sub(p, q)) or equal_args(hyps, p, q, depth)))
                        for p, q in zip(x.args[1], y.args[1])):
                    m[y] = x
                    break
    return tm.subst_terms(b, m) if m else b


def equal_args(hyps, p, q, depth):
    q2 = congruent(hyps, p, q, depth + 1)
    return q2 is not q and tm.is_zero(tm.sub(p, q2))


def rec_groups(t):
    """recursions a term depends on, innermost first: (name, arguments after the step number)"""
    out, seen = [], set()

    def visit(x):
        for a in tm.walk(x):
            if a.op == "app" and a.args[0] in ip.rec_defs:
                g = (a.args[0], tuple(a.args[1][1:]))
                if g not in seen:
                    seen.add(g)
                    k = tm.fresh("k", "I")
                    tm.lower_bound[k] = 1
                    visit(rec_at(g, k, "init"))
                    visit(rec_at(g, k, "step"))
                    out.append(g)
    visit(t)
    return out


def rec_at(g, k, part):
    d = ip.rec_defs[g[0]]
    m = {d["k"]: k}
    m.update(zip(d["idx"], g[1][:len(d["idx"])]))
    m.update(zip(d["params"], g[1][len(d["idx"]):]))
    return tm.subst(d[part], m)


def map_recs(t, maps):
    def f(name, args, sort):
        g = maps.get((name, tuple(args[1:])))
        return None if g is None else tm._app(g[0], (args[0],) + g[1], sort)
    return tm.rewrite_apps(t, f)


def match_recs(hyps, got, want):
    """recursions of the code that equal a recursion of the specification, by induction over the step number: same first
    value, and the same step when the previous values agree"""
    maps = {}
    spec = rec_groups(want)
    for c in rec_groups(got):
        if c in spec:
            continue
        for s in spec:
            if ip.rec_defs[c[0]]["sort"] != ip.rec_defs[s[0]]["sort"]:
                continue
            k = tm.fresh("k", "I")
            tm.lower_bound[k] = 1
            if not equal(hyps, map_recs(rec_at(c, k, "init"), maps), rec_at(s, k, "init")):
                continue
            if equal(hyps, unfold_at(map_recs(rec_at(c, k, "step"), {**maps, c: s}), k), unfold_at(rec_at(s, k, "step"), k)):
                maps[c] = s
                break
    return maps


def unfold_at(t, k):
    """recursively defined atoms at step k (k >= 1) replaced by their step"""
    def f(name, args, sort):
        d = ip.rec_defs.get(name)
        if d is None or args[0] is not k:
            return None
        m = {d["k"]: args[0]}
        m.update(zip(d["idx"], args[1:1 + len(d["idx"])]))
        m.update(zip(d["params"], args[1 + len(d["idx"]):]))
        return tm.subst(d["step"], m)
    return tm.rewrite_apps(t, f)


def has_rec(t):
    return any(x.op == "app" and x.args[0] in ip.rec_defs for x in tm.walk(t))


# ---------------------------------------------------------------- entry point
CONTRACTS = {
    "ewma": ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"],
    "combo": ["C09", "C10", "C11", "C12", "C13"],
    "regul": ["C14", "C15"],
    "exper": ["C16", "C17", "C19", "C22"],
    "exper2": ["C18", "C20", "C21", "C23"],
    "exper3": ["C24", "C25", "C26"],
    "exper4": ["C27"],
    "exper5": ["C28"],
    "exper6": ["C29"],
}


def verify(pid, tier="quick"):
    mod = next(m for m, ps in CONTRACTS.items() if pid in ps)
    ck = Check(pid, tier)
    try:
        M = importlib.import_module("contracts." + mod)
    except ImportError as e:
        if "contracts" not in str(e):
            raise
        return dict(status="no contract", obligations=[], reason="no machine-checked contract yet")
    fn = getattr(M, pid, None)
    if fn is None:
        return dict(status="no contract", obligations=[], reason="no machine-checked contract yet")
    pv.stats["z3_calls"] = 0
    pv.stats["z3_s"] = 0.0
    fn(ck)
    obs = ck.obs
    st = "proved" if obs and all(o["status"] == "discharged" for o in obs) else \
        ("refuted" if any(o["status"] == "refuted" for o in obs) else "undecided")
    used = sorted(getattr(lib_np, "used", set()))
    return dict(status=st, obligations=obs, trusted=used, functions=sorted(ck.functions), backends=ck.backends,
                solver_s=pv.stats["z3_s"], bounded=ck.bounded, assumptions=ck.assumptions, vacuity=ck.vacuity,
                seconds=time.time() - ck.t0)


if __name__ == "__main__":
    os.environ.setdefault("PYVC_SHOW", "1")
    from pyvc.driver import verify as _v      # one module, one set of facts
    r = _v(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick")
    print(r["status"], {k: v for k, v in r.items() if k not in ("obligations",)})
