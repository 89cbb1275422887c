"""Term language of the verifier: hash-consed first-order terms over Int/Real/Bool with
index-sum binders, kept in a polynomial normal form.

Every arithmetic term is a Laurent polynomial over atoms (variables, applications, sums, ites,
reciprocals).  Sums over index ranges are flattened to contractions (einsum normal form) with
canonically named binders, so ring identities of matrix expressions hold syntactically.
"""
from __future__ import annotations

import hashlib
import itertools
from fractions import Fraction

_table: dict = {}
_ctr = itertools.count()
_fresh = itertools.count()
_empty = frozenset()


class T:
    __slots__ = ("op", "args", "sort", "id", "fv", "_s", "maxb")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    @property
    def s(self):
        if self._s is None:
            self._s = _struct(self)
        return self._s


def _mk(op, args, sort, fv, maxb):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.id, t.fv, t._s, t.maxb = op, args, sort, next(_ctr), fv, None, maxb
        _table[key] = t
    return t


def _struct(t):
    op = t.op
    if op == "var":
        r = "v:" + t.args[0]
    elif op == "app":
        r = t.args[0] + "(" + ",".join(a.s for a in t.args[1]) + ")"
    elif op == "poly":
        r = "{" + "+".join(sorted(str(c) + "*" + "*".join(sorted(a.s + "^" + str(e) for a, e in m)) for m, c in t.args)) + "}"
    elif op == "sum":
        bs, rs, mono = t.args
        r = "S[" + ",".join(b.s + "<" + n.s for b, n in zip(bs, rs)) + ":" + "*".join(sorted(a.s + "^" + str(e) for a, e in mono)) + "]"
    elif op in ("forall", "exists"):
        r = op + "[" + t.args[0].s + "<" + t.args[1].s + ":" + t.args[2].s + "]"
    elif op in ("and", "or"):
        r = op + "(" + ",".join(sorted(a.s for a in t.args)) + ")"
    else:
        r = op + "(" + ",".join(a.s for a in t.args) + ")"
    if len(r) > 160:
        r = "#" + hashlib.md5(r.encode()).hexdigest()
    return r


# ---------------------------------------------------------------- variables
var_range: dict = {}      # Var -> N  (0 <= v < N)


def Var(name, sort, rng=None):
    v = _mk("var", (name,), sort, None, -1)
    if v.fv is None:
        v.fv = frozenset((v,))
        if name.startswith("$b"):
            v.maxb = int(name[2:])
    if rng is not None:
        var_range[v] = rng
    return v


def fresh(prefix, sort="I", rng=None):
    v = Var(f"{prefix}!{next(_fresh)}", sort, rng)
    if prefix == "l":
        lower_bound[v] = 0      # labels are positions in their space
    return v


def _bvar(k):
    return Var(f"$b{k}", "I")


# ---------------------------------------------------------------- polynomials
def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def _mkpoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: _mono_key(mc[0]))
    fv = _empty
    maxb = -1
    isint = True
    for m, c in items:
        if c.denominator != 1:
            isint = False
        for a, e in m:
            fv = fv | a.fv
            if a.maxb > maxb:
                maxb = a.maxb
            if a.sort != "I" or e < 0:
                isint = False
    return _mk("poly", tuple(items), "I" if isint else "R", fv, maxb)


def poly(t):
    """term -> dict monomial -> coef"""
    if t.op == "poly":
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def const(x):
    if isinstance(x, float):
        x = Fraction(x).limit_denominator(10 ** 12) if Fraction(x) != Fraction(str(x)) else Fraction(str(x))
    x = Fraction(x)
    return _mkpoly({(): x} if x else {})


def is_const(t):
    return t.op == "poly" and (not t.args or (len(t.args) == 1 and t.args[0][0] == ()))


def cval(t):
    return t.args[0][1] if t.args else Fraction(0)


ZERO = const(0)
ONE = const(1)


def add(*ts):
    d = {}
    for t in ts:
        for m, c in (t.args if t.op == "poly" else ((((t, 1),), Fraction(1)),)):
            d[m] = d.get(m, 0) + c
    return _mkpoly(d)


def scale(t, k):
    k = Fraction(k)
    return _mkpoly({m: c * k for m, c in poly(t).items()}) if k else ZERO


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def _is_ind(a):
    return a.op == "ite" and a.args[1] is ONE and a.args[2] is ZERO


def _mono_mul(m1, m2):
    """product of monomials -> (mono, list of extra polys to multiply)"""
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = []
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
        elif a.op == "app" and a.args[0] == "sqrt" and abs(e) >= 2:
            q = abs(e) // 2
            r = abs(e) - 2 * q
            x = a.args[1][0]
            extra.append(ipow(x, q) if e > 0 else ipow(x, -q))
            if r:
                d[a] = r if e > 0 else -r
            else:
                del d[a]
        elif e > 1 and _is_ind(a):
            d[a] = 1
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id)), extra


def mul(*ts):
    acc = {(): Fraction(1)}
    for t in ts:
        p = t.args if t.op == "poly" else ((((t, 1),), Fraction(1)),)
        nd = {}
        for m1, c1 in acc.items():
            for m2, c2 in p:
                m, extra = _mono_mul(m1, m2)
                if extra:
                    q = mul(_mkpoly({m: c1 * c2}), *extra)
                    for m3, c3 in poly(q).items():
                        nd[m3] = nd.get(m3, 0) + c3
                else:
                    nd[m] = nd.get(m, 0) + c1 * c2
        acc = nd
    return _mkpoly(acc)


def ipow(t, k):
    if k == 0:
        return ONE
    if k < 0:
        return div(ONE, ipow(t, -k))
    r = t
    for _ in range(k - 1):
        r = mul(r, t)
    return r


def _monogcd(p):
    g = None
    for m in p:
        d = dict(m)
        if g is None:
            g = d
        else:
            g = {a: min(e, d[a]) for a, e in g.items() if a in d and (e > 0) == (d[a] > 0)} if True else g
    return {a: e for a, e in (g or {}).items() if e != 0}


def _min_s_mono(p):
    return min(p, key=lambda m: (len(m), sorted((a.s, e) for a, e in m)))


def div(a, b):
    if is_const(b):
        k = cval(b)
        if k == 0:
            return _app("div0", (a,), "R")
        return scale(a, 1 / k)
    pb = poly(b)
    pa = poly(a)
    # proportional?
    if pa and len(pa) == len(pb):
        it = iter(pb.items())
        m0, c0 = next(it)
        if m0 in pa:
            k = pa[m0] / c0
            if all(pa.get(m) == c * k for m, c in pb.items()):
                return const(k)
    # pull out common monomial of b, and the lowest powers of exponentials
    g = _monogcd(pb)
    if len(pb) > 1:
        low = {}
        for m in pb:
            for x, e in m:
                if e < 0 and x.op == "app" and x.args[0] == "E":
                    low[x] = min(low.get(x, 0), e)
        g.update(low)
    gm = tuple(sorted(g.items(), key=lambda ae: ae[0].id))
    ginv = tuple((x, -e) for x, e in gm)
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = mul(*[_mono_term(((x, -e),)) for x, e in m]) if m else ONE
        return scale(mul(a, inv), 1 / c)
    if gm:
        a = mul(a, *[_mono_term(((x, e),)) for x, e in ginv])
        rest = {}
        for m, c in pb.items():
            d = dict(m)
            for x, e in gm:
                d[x] = d.get(x, 0) - e
            rest[tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda ae: ae[0].id))] = c
        b = _mkpoly(rest)
        pb = poly(b)
        if len(pb) == 1:
            return div(a, b)
    lead = pb[_min_s_mono(pb)]
    bn = scale(b, 1 / lead)
    r = _mk("recip", (bn,), "R", bn.fv, bn.maxb)
    return scale(mul(a, r), 1 / lead)


def _mono_term(m):
    m = tuple(m)
    if len(m) == 1:
        a, e = m[0]
        if a.op == "recip" and e < 0:
            return ipow(a.args[0], -e)
        if a.op == "app" and a.args[0] == "sqrt" and abs(e) >= 2:
            return mul(*[_mkpoly({((a, 1 if e > 0 else -1),): Fraction(1)})] * abs(e))
        if e > 1 and _is_ind(a):
            return a
        return _mkpoly({m: Fraction(1)})
    return mul(*[_mono_term((x,)) for x in m])


# ---------------------------------------------------------------- applications
symmetric: dict = {}     # function symbols symmetric in two arguments -> the positions of these


def _app(name, args, sort):
    args = tuple(args)
    if name in symmetric:
        p, q = symmetric[name]
        if args[p].s > args[q].s:
            l = list(args)
            l[p], l[q] = l[q], l[p]
            args = tuple(l)
    fv = _empty
    maxb = -1
    for a in args:
        fv = fv | a.fv
        if a.maxb > maxb:
            maxb = a.maxb
    return _mk("app", (name, args), sort, fv, maxb)


rec_hook = None


def App(name, args, sort="R"):
    if name.startswith("rec") and args and args[0] is ZERO and rec_hook is not None:
        r = rec_hook(name, args)
        if r is not None:
            return r
    f = _interp.get(name)
    if f is not None:
        return f(*args)
    return _app(name, args, sort)


def nonneg_hook(a):
    return False


def sqrt(t):
    if is_const(t):
        c = cval(t)
        if c >= 0:
            from math import isqrt
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
    # pull non-negative factors common to all monomials out of the root
    p = poly(t)
    out = []
    for a, e in _monogcd(p).items():
        nn = a.op == "app" and a.args[0] in ("E", "sqrt")
        if not nn and (a.op == "recip" or not nonneg_hook(a)):
            continue
        q = e // 2 if e > 0 else -((-e) // 2)
        if q:
            out.append(_mono_term(((a, q),)))
        if e % 2:
            if len(p) == 1 and len(next(iter(p))) == 1 and abs(e) == 1 and next(iter(p.values())) == 1:
                if e > 0:
                    continue        # the root of a single atom stays
            out.append(_mono_term(((_app("sqrt", (a,), "R"), 1 if e > 0 else -1),)))
        t = mul(t, _mono_term(((a, -e),)))
    if out:
        return mul(*out, sqrt(t))
    return _app("sqrt", (t,), "R")


def _primes(n):
    f = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            f[p] = f.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def log(t):
    if is_const(t) and cval(t) > 0:
        c = cval(t)
        r = ZERO
        for p, e in _primes(c.numerator).items():
            r = add(r, scale(_app("log", (const(p),), "R"), e))
        for p, e in _primes(c.denominator).items():
            r = add(r, scale(_app("log", (const(p),), "R"), -e))
        return r
    p = poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and m and all(a.op == "app" and a.args[0] == "E" for a, e in m):
            r = log(const(c)) if c != 1 else ZERO
            for a, e in m:
                r = add(r, scale(a.args[1][0], e))
            return r
    return _app("log", (t,), "R")


def exp(t):
    r = ONE
    for m, c in poly(t).items():
        if m == ():
            r = mul(r, _mono_term(((_app("E", (ONE,), "R"), c.numerator),)) if c.denominator == 1
                    else _mono_term(((_app("E", (const(Fraction(1, c.denominator)),), "R"), c.numerator),)))
            continue
        # exp(k*log 2) with constant integer k
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].args[0] == "log" \
                and is_const(m[0][0].args[1][0]) and c.denominator == 1:
            base = cval(m[0][0].args[1][0])
            r = mul(r, const(base ** int(c)))
            continue
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].args[0] == "log" and c.denominator == 1:
            r = mul(r, ipow(m[0][0].args[1][0], int(c)))
            continue
        a = _app("E", (_mkpoly({m: Fraction(1, c.denominator)}),), "R")
        r = mul(r, _mono_term(((a, c.numerator),)))
    return r


def power(a, n):
    """a ** n"""
    if is_const(n) and cval(n).denominator == 1:
        return ipow(a, int(cval(n)))
    if is_const(n) and cval(n) == Fraction(1, 2):
        return sqrt(a)
    if is_const(a) and cval(a) > 0:
        return exp(mul(n, log(a)))
    p = poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and m and all(x.op == "app" and x.args[0] == "E" for x, e in m):
            arg = add(*[scale(x.args[1][0], e) for x, e in m])
            return exp(mul(arg, n))
    if sign_hook is not None and sign_hook(a, True):
        return exp(mul(n, log(a)))
    pn = dict(poly(n))
    k = pn.pop((), Fraction(0))
    if k and k.denominator == 1 and pn:
        return mul(power(a, _mkpoly(pn)), ipow(a, int(k)))
    return _app("pow", (a, n), "R")


def _common_pos(a, b):
    """a = f a', b = f b' with f a positive product of factors common to all monomials"""
    if "I" in (a.sort, b.sort) or not poly(a) or not poly(b):
        return None, a, b
    g = _monogcd({**poly(a), **poly(b)})
    g = {x: e for x, e in g.items() if x.op != "recip" and ((x.op == "app" and x.args[0] == "E") or (sign_hook is not None and sign_hook(x, True)))}
    if not g:
        return None, a, b
    inv = [_mono_term(((x, -e),)) for x, e in g.items()]
    return mul(*[_mono_term(((x, e),)) for x, e in g.items()]), mul(a, *inv), mul(b, *inv)


def tmax(a, b):
    if a is b:
        return a
    if is_const(a) and is_const(b):
        return a if cval(a) >= cval(b) else b
    d = sub(a, b)
    if d.sort == "I" and known_nonneg(d):
        return a
    if d.sort == "I" and known_nonneg(neg(d)):
        return b
    for x, y in ((a, b), (b, a)):
        if is_const(y) and cval(y) <= 0 and nonneg_hook(x):
            return x
    f, a, b = _common_pos(a, b)
    a, b = sorted((a, b), key=lambda t: t.s)
    r = _app("max", (a, b), "I" if a.sort == b.sort == "I" else "R")
    return r if f is None else mul(f, r)


def tmin(a, b):
    if a is b:
        return a
    if is_const(a) and is_const(b):
        return a if cval(a) <= cval(b) else b
    d = sub(a, b)
    if d.sort == "I" and known_nonneg(d):
        return b
    if d.sort == "I" and known_nonneg(neg(d)):
        return a
    for x, y in ((a, b), (b, a)):
        if is_const(y) and cval(y) <= 0 and nonneg_hook(x):
            return y
    f, a, b = _common_pos(a, b)
    a, b = sorted((a, b), key=lambda t: t.s)
    r = _app("min", (a, b), "I" if a.sort == b.sort == "I" else "R")
    return r if f is None else mul(f, r)


def tabs(a):
    if is_const(a):
        return const(abs(cval(a)))
    p = poly(a)
    lead = p[_min_s_mono(p)]
    if lead < 0:
        a = neg(a)
    return _app("abs", (a,), a.sort)


_interp = {"sqrt": sqrt, "log": log, "pow": power, "max": tmax, "min": tmin, "abs": tabs,
           "E": lambda t: exp(t), "div0": lambda a: _app("div0", (a,), "R")}

# dims (and other Int terms) known to be >= some bound: used for cheap syntactic nonnegativity
lower_bound: dict = {}    # Var/app -> int


fun_lower: dict = {}     # function symbol with whole values -> lower bound


def known_nonneg(t):
    """cheap sufficient test that an Int term is >= 0 (linear, using lower_bound and var_range)"""
    if is_const(t):
        return cval(t) >= 0
    total = Fraction(0)
    for m, c in poly(t).items():
        if m == ():
            total += c
            continue
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            lb = lower_bound.get(a)
            if lb is None and a in var_range:
                lb = 0
            if a.op == "app" and a.args[0] in fun_lower:
                lb = fun_lower[a.args[0]]
            if c > 0 and lb is not None:
                total += c * lb
                continue
            if a.op == "app" and a.args[0] in ("min", "max") and a.sort == "I":
                rest = sub(t, scale(a, c))
                both = (a.args[0] == "min") == (c > 0)
                return (all if both else any)(known_nonneg(add(rest, scale(x, c))) for x in a.args[1])
            if c < 0 and a in var_range:
                # a <= N-1
                return known_nonneg(add(t, scale(a, -c), scale(sub(var_range[a], ONE), c))) if var_range[a] is not a else False
        if c > 0 and all(a in lower_bound and lower_bound[a] >= 0 and e > 0 for a, e in m):
            v = c
            for a, e in m:
                v *= lower_bound[a] ** e
            total += v
            continue
        return False
    return total >= 0


# ---------------------------------------------------------------- booleans
TRUE = _mk("true", (), "B", _empty, -1)
FALSE = _mk("false", (), "B", _empty, -1)


_memo: dict = {}      # results of Not and of the order atoms; cleared when a fact about a variable is withdrawn


def clear_memo():
    _memo.clear()


def Not(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    r = _memo.get((0, t))
    if r is None:
        r = _memo[0, t] = _Not(t)
    return r


def _Not(t):
    if t.op == "le0":
        return lt0(neg(t.args[0]))
    if t.op == "lt0":
        return le0(neg(t.args[0]))
    if t.op == "and":
        return Or(*[Not(a) for a in t.args])
    if t.op == "or":
        return And(*[Not(a) for a in t.args])
    if t.op == "forall":
        return _quant("exists", t.args[0], t.args[1], Not(t.args[2]))
    if t.op == "exists":
        return _quant("forall", t.args[0], t.args[1], Not(t.args[2]))
    return _mk("not", (t,), "B", t.fv, t.maxb)


split_hook = None     # p -> terms t_i with p = sum of c_i t_i, c_i > 0, t_i >= 0 (so p = 0 iff all t_i = 0), or None


zero_forces: dict = {}   # function symbol -> f(args) -> terms that are zero whenever the value is zero


def _is_nz(u):
    return u.op == "not" and u.args[0].op == "eq0" and u.args[0].args[0].sort != "I"


def _forces(S, Y):
    """S (a sum of nonnegative elements) = 0 forces Y = 0: Y is a factor of one of its elements whose
    other factors are positive"""
    if S.op == "app" and S.args[0] in zero_forces:
        return any(eq0(z) is eq0(Y) for z in zero_forces[S.args[0]](S.args[1]))
    if S.op != "sum" or Y.op != "app" or sign_hook is None:
        return False
    bs, rs, mono = S.args
    if len(bs) != 1 or not sign_hook(S, False):
        return False
    b, n = bs[0], rs[0]
    f = fresh("s", "I", n)
    open_ = [(subst(a, {b: f}), e) for a, e in mono]
    hit = [a for a, e in open_ if not sign_hook(a, True)]
    if len(hit) != 1 or hit[0].op != "app" or hit[0].args[0] != Y.args[0] or len(hit[0].args[1]) != len(Y.args[1]):
        return False
    x = None
    for p, q in zip(hit[0].args[1], Y.args[1]):
        if f in p.fv:
            l = _lin_in(p, f)
            if l is None or abs(l[0]) != 1:
                return False
            v = scale(sub(q, l[1]), l[0])
            if x is not None and x is not v:
                return False
            x = v
        elif p is not q:
            return False
    return x is not None and known_nonneg(x) and known_nonneg(sub(sub(n, ONE), x))


def _nz_rules(op, out):
    """relations between 'sum of squares = 0' and 'summand = 0' literals"""
    eqs = [u for u in out if u.op == "eq0" and u.args[0].sort != "I"]
    nzs = [u for u in out if _is_nz(u)]
    for S in [u for u in eqs if u.args[0].op == "sum" or (u.args[0].op == "app" and u.args[0].args[0] in zero_forces)]:
        for Y in nzs:                                   # S = 0 , Y != 0 : contradictory
            if op == "and" and _forces(S.args[0], Y.args[0].args[0]):
                return FALSE
        for Y in eqs:                                   # S = 0 implies Y = 0
            if Y is not S and _forces(S.args[0], Y.args[0]):
                return [u for u in out if u is not (Y if op == "and" else S)]
    for S in [u for u in nzs if u.args[0].args[0].op == "sum" or (u.args[0].args[0].op == "app" and u.args[0].args[0].args[0] in zero_forces)]:
        for Y in eqs:
            if op == "or" and _forces(S.args[0].args[0], Y.args[0]):
                return TRUE
        for Y in nzs:                                   # Y != 0 implies S != 0
            if Y is not S and _forces(S.args[0].args[0], Y.args[0].args[0]):
                return [u for u in out if u is not (S if op == "and" else Y)]
    return None


def _exists_rules(op, out):
    """exists over the same range: merge bodies when one absorbs the other"""
    want = "exists" if op == "or" else "forall"
    qs = [u for u in out if u.op == want]
    for i, u in enumerate(qs):
        for v in qs[i + 1:]:
            if u.args[1] is not v.args[1]:
                continue
            f = fresh("q", "I", u.args[1])
            a, b = subst(u.args[2], {u.args[0]: f}), subst(v.args[2], {v.args[0]: f})
            r = (Or if op == "or" else And)(a, b)
            if r is a:
                return [x for x in out if x is not v]
            if r is b:
                return [x for x in out if x is not u]
            if r is TRUE or r is FALSE:
                return [x for x in out if x is not u and x is not v] + [(Exists if op == "or" else Forall)(f, u.args[1], r)]
    return None


def _nary(op, ts, unit, absorb):
    out = []
    seen = set()
    for t in ts:
        if t is unit:
            continue
        if t is absorb:
            return absorb
        for u in (t.args if t.op == op else (t,)):
            if u not in seen:
                seen.add(u)
                out.append(u)
    for u in out:
        if u.op == "not" and u.args[0] in seen:
            return absorb
        if u.op in ("le0", "lt0", "eq0") and Not(u) in seen:
            return absorb
    # absorption: x and (x or y) = x ; (x and (not x or y)) = x and y
    dual = "or" if op == "and" else "and"
    changed = True
    while changed:
        changed = False
        for i, u in enumerate(out):
            if u.op == dual:
                rest = []
                drop = False
                for v in u.args:
                    if v in seen:
                        drop = True
                        break
                    if Not(v) in seen:
                        continue
                    rest.append(v)
                if drop:
                    out.pop(i)
                    seen.discard(u)
                    changed = True
                    break
                if len(rest) != len(u.args):
                    nu = (Or if dual == "or" else And)(*rest)
                    out.pop(i)
                    seen.discard(u)
                    return _nary(op, out + [nu], unit, absorb)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    for rule in (_nz_rules, _exists_rules):
        r = rule(op, out)
        if r is not None:
            return r if isinstance(r, T) else _nary(op, r, unit, absorb)
    out.sort(key=lambda t: t.id)
    fv = _empty
    maxb = -1
    for t in out:
        fv = fv | t.fv
        maxb = max(maxb, t.maxb)
    return _mk(op, tuple(out), "B", fv, maxb)


def And(*ts):
    return _nary("and", ts, TRUE, FALSE)


def Or(*ts):
    return _nary("or", ts, FALSE, TRUE)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return Not(b)
    if b is FALSE:
        return Not(a)
    if a.id > b.id:
        a, b = b, a
    return _mk("iff", (a, b), "B", a.fv | b.fv, max(a.maxb, b.maxb))


def _pos_factors(p):
    """factors common to all monomials that are known to be positive"""
    return {a: e for a, e in _monogcd(poly(p)).items() if a.op != "recip" and
            ((a.op == "app" and a.args[0] == "E") or (sign_hook is not None and a.sort != "I" and sign_hook(a, True)))}


def _strip_pos(p):
    g = _pos_factors(p)
    return mul(p, *[_mono_term(((a, -e),)) for a, e in g.items()]) if g else p


def _posnorm(p):
    """scale by a positive constant to a canonical form"""
    p = _strip_pos(p)
    d = poly(p)
    if not d:
        return p
    k = abs(d[_min_s_mono(d)])
    return p if k == 1 else scale(p, 1 / k)


def le0(p):
    if is_const(p):
        return TRUE if cval(p) <= 0 else FALSE
    if p.sort == "I":
        if known_nonneg(neg(p)):
            return TRUE
        if known_nonneg(sub(p, ONE)):
            return FALSE
        return _mk("le0", (p,), "B", p.fv, p.maxb)
    r = _memo.get((3, p))
    if r is None:
        r = _memo[3, p] = _le0(p)
    return r


def _le0(p):
    if sign_hook is not None:
        if sign_hook(neg(p), False):
            return TRUE
        if sign_hook(p, True):
            return FALSE
        if sign_hook(p, False):
            return eq0(p)
    p = _posnorm(p)
    return _mk("le0", (p,), "B", p.fv, p.maxb)


sign_hook = None      # (term, strict) -> known syntactically >= 0 (> 0)


def lt0(p):
    if is_const(p):
        return TRUE if cval(p) < 0 else FALSE
    if p.sort == "I":
        return le0(add(p, ONE))
    r = _memo.get((1, p))
    if r is None:
        r = _memo[1, p] = _lt0(p)
    return r


def _lt0(p):
    if sign_hook is not None:
        if sign_hook(p, False):
            return FALSE
        if sign_hook(neg(p), True):
            return TRUE
        if sign_hook(neg(p), False):
            return Not(eq0(p))
    p = _posnorm(p)
    return _mk("lt0", (p,), "B", p.fv, p.maxb)


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq0(p):
    if is_const(p):
        return TRUE if cval(p) == 0 else FALSE
    if p.sort == "I":
        return _eq0(p)
    r = _memo.get((2, p))
    if r is None:
        r = _memo[2, p] = _eq0(p)
    return r


def _eq0(p):
    if p.sort == "I" and (known_nonneg(sub(p, ONE)) or known_nonneg(sub(neg(p), ONE))):
        return FALSE
    d = poly(p)
    if p.sort != "I" and sign_hook is not None:
        if sign_hook(p, True) or sign_hook(neg(p), True):
            return FALSE
        if len(d) == 1:
            (m, c), = d.items()
            out = []
            for a, e in m:
                if a.op == "recip" or e < 0:
                    continue
                if sign_hook(a, True):
                    continue
                if a.op == "app" and a.args[0] == "sqrt" and sign_hook(a.args[1][0], False):
                    out.append(eq0(a.args[1][0]))
                elif a.op == "ite":
                    out.append(Or(And(a.args[0], eq0(a.args[1])), And(Not(a.args[0]), eq0(a.args[2]))))
                elif len(m) > 1 or e > 1:
                    out.append(eq0(a))
                else:
                    out = None
                    break
            if out is not None:
                return Or(*out)
        elif split_hook is not None:
            parts = split_hook(p)
            if parts is None:
                parts = split_hook(neg(p))
            if parts is not None:
                return And(*[eq0(x) for x in parts])
    k = d[_min_s_mono(d)]
    if p.sort == "I":
        if k < 0:
            p = neg(p)
    else:
        # nonzero Laurent common monomial of always-positive atoms can be dropped
        p2 = _strip_pos(p)
        if p2 is not p:
            p = p2
            d = poly(p)
            k = d[_min_s_mono(d)]
        p = scale(p, 1 / k)
        if len(d) == 1:
            (m, c), = d.items()
            if len(m) == 1 and m[0][1] > 1:
                p = m[0][0]
    return _mk("eq0", (p,), "B", p.fv, p.maxb)


def eq(a, b):
    return eq0(sub(a, b))


def BApp(name, args):
    return _app(name, args, "B")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "eq0":
        sb = _subst_eq(c, b)
        if sb is not None:
            sa = _subst_eq(c, a)
            sa = a if sa is None else sa
            if sb is sa or (a.sort != "B" and is_zero(sub(sb, sa))):
                return b
        if sb is None and _subst_eq(c, a) is b:
            return b
    if a.sort == "B":
        return Or(And(c, a), And(Not(c), b))
    # nested same-condition simplification
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    nc = Not(c)
    if a.op == "ite" and a.args[0] is nc:
        a = a.args[2]
    if b.op == "ite" and b.args[0] is nc:
        b = b.args[1]
    if a is b:
        return a
    if c.op in ("lt0", "or", "exists") :
        # canonical polarity
        c, a, b = nc, b, a
    return _mk("ite", (c, a, b), "I" if a.sort == b.sort == "I" else "R",
               c.fv | a.fv | b.fv, max(c.maxb, a.maxb, b.maxb))


def _subst_eq(c, a):
    """if c is (v - e == 0) with v an Int variable, return a[v:=e]"""
    p = poly(c.args[0])
    for m, k in p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var" and abs(k) == 1 and m[0][0] in a.fv:
            v = m[0][0]
            e = scale(sub(c.args[0], scale(v, k)), -k)
            if v not in e.fv:
                return subst(a, {v: e})
    return None


def _rename_all(t, m):
    return subst(t, m)


def _quant(q, v, N, body):
    """quantifier over 0 <= v < N"""
    if v not in body.fv:
        # N >= 1 is not known in general: (forall: N<=0 or body)
        if body is TRUE or body is FALSE or True:
            empty = le0(N)
            return Or(empty, body) if q == "forall" else And(Not(empty), body)
    lvl = max(body.maxb, N.maxb) + 1
    b = _bvar(lvl)
    body2 = subst(body, {v: b})
    return _mk(q, (b, N, body2), "B", (body2.fv - {b}) | N.fv, lvl)


bijections: dict = {}      # function symbol -> N: a bijection of [0, N) onto itself


def through_bijection(v, N, body):
    """a body that depends on v only through p(v), p a bijection of the range of v: p(v) may be replaced by v"""
    if not bijections or v not in body.fv:
        return body
    for name, size in bijections.items():
        if N is not size:
            continue
        w = fresh("s", "I", N)
        b2 = subst_terms(body, {App(name, (v,), "I"): w})
        if v not in b2.fv:
            return subst(b2, {w: v})
    return body


def Forall(v, N, body):
    if body is TRUE:
        return TRUE
    body = through_bijection(v, N, body)
    # distribute over conjunction
    if body.op == "and":
        return And(*[Forall(v, N, x) for x in body.args])
    if body.op == "or":
        free = [x for x in body.args if v not in x.fv]
        if free:
            rest = [x for x in body.args if v in x.fv]
            return Or(*free, Forall(v, N, Or(*rest)))
    return _quant("forall", v, N, body)


def Exists(v, N, body):
    return Not(Forall(v, N, Not(body)))


# ---------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    if not m or not (t.fv & m.keys()):
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == "var":
        r = m.get(t, t)
    elif op == "poly":
        terms = []
        for mono, c in t.args:
            fs = []
            keep = []
            for a, e in mono:
                if a.fv & m.keys():
                    fs.append(ipow(subst(a, m, memo), e))
                else:
                    keep.append((a, e))
            terms.append(scale(mul(_mkpoly({tuple(keep): Fraction(1)}), *fs), c))
        r = add(*terms)
    elif op == "app":
        r = App(t.args[0], [subst(a, m, memo) for a in t.args[1]], t.sort)
    elif op == "recip":
        r = div(ONE, subst(t.args[0], m, memo))
    elif op == "ite":
        r = ite(*[subst(a, m, memo) for a in t.args])
    elif op == "sum":
        bs, rs, mono = t.args
        fr = [fresh("s") for _ in bs]
        m2 = {k: v for k, v in m.items() if k not in bs}
        m2.update(zip(bs, fr))
        rs2 = [subst(n, m2) for n in rs]
        for f, n in zip(fr, rs2):
            var_range[f] = n
        fs = [ipow(subst(a, m2), e) for a, e in mono]
        r = mul(*fs)
        for f, n in reversed(list(zip(fr, rs2))):
            r = mk_sum(f, n, r)
    elif op in ("forall", "exists"):
        b, n, body = t.args
        f = fresh("q")
        m2 = {k: v for k, v in m.items() if k is not b}
        m2[b] = f
        n2 = subst(n, m)
        var_range[f] = n2
        body2 = subst(body, m2)
        r = Forall(f, n2, body2) if op == "forall" else Exists(f, n2, body2)
    elif op == "not":
        r = Not(subst(t.args[0], m, memo))
    elif op == "and":
        r = And(*[subst(a, m, memo) for a in t.args])
    elif op == "or":
        r = Or(*[subst(a, m, memo) for a in t.args])
    elif op == "iff":
        r = Iff(*[subst(a, m, memo) for a in t.args])
    elif op == "le0":
        r = le0(subst(t.args[0], m, memo))
    elif op == "lt0":
        r = lt0(subst(t.args[0], m, memo))
    elif op == "eq0":
        r = eq0(subst(t.args[0], m, memo))
    else:
        raise AssertionError(op)
    memo[t] = r
    return r


def rewrite_apps(t, f, memo=None):
    """bottom-up rewriting of 'app' nodes: f(name, args, sort) -> term or None"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    op = t.op
    if op in ("var", "true", "false"):
        r = t
    elif op == "poly":
        r = add(*[scale(mul(*[ipow(rewrite_apps(a, f, memo), e) for a, e in mono]), c) for mono, c in t.args])
    elif op == "app":
        args = [rewrite_apps(a, f, memo) for a in t.args[1]]
        r = f(t.args[0], args, t.sort)
        if r is None:
            r = App(t.args[0], args, t.sort)
    elif op == "recip":
        r = div(ONE, rewrite_apps(t.args[0], f, memo))
    elif op == "ite":
        r = ite(*[rewrite_apps(a, f, memo) for a in t.args])
    elif op == "sum":
        bs, rs, mono = t.args
        fr = [fresh("s") for _ in bs]
        m2 = dict(zip(bs, fr))
        rs2 = [subst(n, m2) for n in rs]
        for x, n in zip(fr, rs2):
            var_range[x] = n
        fs = [ipow(rewrite_apps(subst(a, m2), f, memo), e) for a, e in mono]
        r = mul(*fs)
        for x, n in reversed(list(zip(fr, rs2))):
            r = mk_sum(x, rewrite_apps(n, f, memo), r)
    elif op in ("forall", "exists"):
        b, n, body = t.args
        x = fresh("q", "I", n)
        body2 = rewrite_apps(subst(body, {b: x}), f, memo)
        r = (Forall if op == "forall" else Exists)(x, rewrite_apps(n, f, memo), body2)
    elif op == "not":
        r = Not(rewrite_apps(t.args[0], f, memo))
    elif op in ("and", "or", "iff"):
        r = {"and": And, "or": Or, "iff": Iff}[op](*[rewrite_apps(a, f, memo) for a in t.args])
    else:
        r = {"le0": le0, "lt0": lt0, "eq0": eq0}[op](rewrite_apps(t.args[0], f, memo))
    memo[t] = r
    return r


def walk(t, seen=None):
    """all subterms (including under binders)"""
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    op = t.op
    if op == "poly":
        for m, _ in t.args:
            for a, _e in m:
                yield from walk(a, seen)
    elif op == "app":
        for a in t.args[1]:
            yield from walk(a, seen)
    elif op == "sum":
        for n in t.args[1]:
            yield from walk(n, seen)
        for a, _e in t.args[2]:
            yield from walk(a, seen)
    elif op in ("var", "true", "false"):
        pass
    else:
        for a in t.args:
            yield from walk(a, seen)


# ---------------------------------------------------------------- sums
# rules on contractions: matrix functions registered by the library
chol_def: dict = {}      # fname -> (formals, i, j, body, dim)  sum_k F(p,i,k) F(p,j,k) = body
orth_def: dict = {}      # fname -> (dim)  orthonormal square family V(p, i, m)
inv_def: dict = {}       # fname -> (formals, i, j, body, dim)
eig_def: dict = {}       # eigvec fname -> (eigval fname, formals, i, j, body, dim)


def mk_sum(v, N, body):
    """sum_{0 <= v < N} body"""
    if body is ZERO:
        return ZERO
    body = through_bijection(v, N, body)
    if is_const(N):
        k = int(cval(N))
        if k <= 8:
            return add(*[subst(body, {v: const(i)}) for i in range(max(k, 0))])
    parts = _tail_split(v, N, body)
    if parts is not None:
        return parts
    parts = _flat_sum(v, N, body)
    if parts is not None:
        return parts
    out = []
    for mono, c in poly(body).items():
        indep = [(a, e) for a, e in mono if v not in a.fv]
        dep = [(a, e) for a, e in mono if v in a.fv]
        pre = _mono_term(indep) if indep else ONE
        if not dep:
            out.append(scale(mul(pre, N), c))
            continue
        binders = [(v, N)]
        factors = []
        plain = True
        for a, e in dep:
            if a.op == "sum" and e > 0:
                plain = False
                for _ in range(e):
                    bs, rs, mn = a.args
                    fr = [fresh("s") for _ in bs]
                    m2 = dict(zip(bs, fr))
                    for f, n in zip(fr, rs):
                        n2 = subst(n, m2)
                        var_range[f] = n2
                        binders.append((f, n2))
                    for x, ex in mn:
                        factors.append((subst(x, m2), ex))
            else:
                factors.append((a, e))
        if v not in var_range:
            var_range[v] = N
        out.append(scale(mul(pre, _contract(binders, factors)), c))
    return add(*out)


def _tail_split(v, N, body):
    """a summand defined by cases at v = q with N - q in {1, 2}: sum over v < q, then the last one or two elements"""
    for x in walk(body):
        if x.op != "ite" or x.args[0].op != "le0" or v not in x.args[0].fv:
            continue
        c = x.args[0]
        kv = _lin_in(c.args[0], v)
        if kv is None or abs(kv[0]) != 1 or any(a.sort != "I" for m in poly(kv[1]) for a, _ in m):
            continue
        q = kv[1] if kv[0] < 0 else add(neg(kv[1]), ONE)      # v >= q false below q  /  v <= q - 1 true below q
        d = sub(N, q)
        if not is_const(d) or cval(d) not in (1, 2) or is_const(q) or not known_nonneg(q):
            continue
        below = TRUE if kv[0] > 0 else FALSE
        w = fresh("s", "I", q)
        b1 = subst(subst_terms(body, {c: below}), {v: w})
        return add(mk_sum(w, q, b1), *[subst(body, {v: add(q, const(e))}) for e in range(int(cval(d)))])
    return None


def _flat_sum(v, N, body):
    """sum over p < m*c of a summand that uses only p div m and p mod m: sum over both parts"""
    at = None
    for x in walk(body):
        if x.op == "app" and x.args[0] in ("fdiv", "fmod") and v in x.fv and x.args[1][0] is v:
            at = x
            break
    if at is None:
        return None
    m = at.args[1][1]
    c = div(N, m)
    if v in m.fv or any(e < 0 for mono in poly(c) for _, e in mono) or not is_zero(sub(mul(c, m), N)):
        return None
    i, j = fresh("s", "I", c), fresh("s", "I", m)
    b = subst_terms(body, {_app("fdiv", (v, m), "I"): i, _app("fmod", (v, m), "I"): j})
    if v in b.fv:
        return None
    return mk_sum(i, c, mk_sum(j, m, b))


def _lin_in(p, v):
    """p = k*v + e with v not in e: (k, e) else None"""
    k = Fraction(0)
    rest = {}
    for m, c in poly(p).items():
        if len(m) == 1 and m[0][0] is v and m[0][1] == 1:
            k += c
        else:
            rest[m] = c
    e = _mkpoly(rest)
    if v in e.fv:
        return None
    return k, e


def _resum(binders, body):
    r = body
    for b, n in reversed(binders):
        r = mk_sum(b, n, r)
    return r


def _has_delta(c, binders):
    return any(x.op == "eq0" and any(b in x.fv for b, _ in binders) for x in (c.args if c.op == "and" else (c,)))


def _contract(binders, factors):
    # merge equal factors
    fac = {}
    for a, e in factors:
        if (a.op == "sum" and e > 0) or a.op == "poly":
            return _resum(binders, mul(*[ipow(x, y) for x, y in factors]))
        if a.op == "ite" and e >= 1 and a.args[2] is ZERO and a.args[1] is not ONE and a.sort != "B" and _has_delta(a.args[0], binders):
            return _resum(binders, mul(_mono_term(((ite(a.args[0], ONE, ZERO), 1),)), ipow(a.args[1], e), *[ipow(x, y) for x, y in factors if x is not a]))
        fac[a] = fac.get(a, 0) + e
    for a, e in list(fac.items()):
        if e == 0:
            return _resum(binders, mul(*[ipow(x, y) for x, y in fac.items() if y]))
        if a.op == "app" and a.args[0] == "sqrt" and abs(e) > 1:
            return _resum(binders, mul(*[ipow(x, y) if x is not a else _mono_term(((x, y),)) for x, y in fac.items()]))
        if e > 1 and _is_ind(a):
            fac[a] = 1
    bset = {b for b, _ in binders}
    # delta elimination
    for a, e in fac.items():
        if _is_ind(a):
            conds = a.args[0].args if a.args[0].op == "and" else (a.args[0],)
            for c in conds:
                if c.op != "eq0":
                    continue
                for b, n in binders:
                    if b in c.fv:
                        le_ = _lin_in(c.args[0], b)
                        if le_ and abs(le_[0]) == 1:
                            val = scale(le_[1], -le_[0])
                            if any(b in n2.fv for _, n2 in binders):
                                continue
                            rest = [(x, y) for x, y in fac.items() if x is not a]
                            others = And(*[x for x in conds if x is not c])
                            body = mul(ite(others, ONE, ZERO), *[ipow(x, y) for x, y in rest])
                            body = subst(body, {b: val})
                            guard = And(ge(val, ZERO), lt(val, n))
                            if val.op == "var" and var_range.get(val) is n:
                                guard = TRUE
                            body = mul(ite(guard, ONE, ZERO), body)
                            return _resum([(x, y) for x, y in binders if x is not b], body)
    # matrix-function rules
    for b, n in binders:
        if any(b in n2.fv for _, n2 in binders):
            continue
        occ = [(a, e) for a, e in fac.items() if b in a.fv]
        tot = sum(e for _, e in occ)
        if tot != 2 or any(a.op != "app" or e < 0 for a, e in occ):
            continue
        u = occ[0][0]
        w = occ[-1][0]
        r = _pair_rule(u, w, b, n) or _pair_rule(w, u, b, n)
        if r is not None:
            rest = [(x, y) for x, y in fac.items() if b not in x.fv]
            return _resum([(x, y) for x, y in binders if x is not b], mul(r, *[ipow(x, y) for x, y in rest]))
    # connected components
    comps = []
    items = [(frozenset(a.fv & bset), [(a, e)]) for a, e in fac.items()]
    items += [(frozenset({b} | (n.fv & bset)), []) for b, n in binders]
    for bs, fs in items:
        hit = [c for c in comps if c[0] & bs]
        for c in hit:
            comps.remove(c)
        nb = set(bs)
        nf = list(fs)
        for c in hit:
            nb |= c[0]
            nf = c[1] + nf
        comps.append((nb, nf))
    out = []
    for bs, fs in comps:
        bl = [(b, n) for b, n in binders if b in bs]
        if not bl:
            out.append(_mono_term(fs))
        elif len(bl) == 1 and _geometric(bl[0], fs) is not None:
            out.append(_geometric(bl[0], fs))
        elif not fs:
            r = ONE
            for b, n in reversed(bl):
                if any(b in n2.fv for _, n2 in bl):
                    r = _sumatom([(b, n)], []) if False else mk_sum(b, n, r)
                else:
                    r = mul(r, n)
            out.append(r)
        else:
            out.append(_canon(bl, fs))
    return mul(*out)


def _geometric(bn, fs):
    """sum_{s<n} exp(c*s + e) = exp(e) (exp(c*n) - 1) / (exp(c) - 1) for c of known sign"""
    b, n = bn
    arg = ZERO
    for a, e in fs:
        if a.op != "app" or a.args[0] != "E":
            return None
        arg = add(arg, scale(a.args[1][0], e))
    e0 = subst(arg, {b: ZERO})
    c = sub(subst(arg, {b: ONE}), e0)
    if sub(arg, add(e0, mul(b, c))) is not ZERO or sign_hook is None or not known_nonneg(n):
        return None
    if not (sign_hook(c, True) or sign_hook(neg(c), True)):
        return None
    return div(mul(exp(e0), sub(exp(mul(c, n)), ONE)), sub(exp(c), ONE))


def mul_clear(t, den):
    """t * den with 1/den factors of t cancelled (den: polynomial in normal form)"""
    k = div(ONE, den)
    pk = poly(k)
    (mk, ck), = pk.items()
    out = []
    for m, c in poly(t).items():
        d = dict(m)
        if all(d.get(a, 0) >= e if e > 0 else True for a, e in mk if a.op == "recip") and any(a.op == "recip" for a, e in mk):
            for a, e in mk:
                d[a] = d.get(a, 0) - e
            out.append(scale(mul(*[_mono_term(((a, e),)) for a, e in d.items() if e]), c / ck))
        else:
            out.append(mul(scale(_mono_term(m), c) if m else const(c), den))
    return add(*out)


def _match_params(a, nform):
    return a.args[1][:nform], a.args[1][nform:]


def _pair_rule(u, w, b, n):
    fu, fw = u.args[0], w.args[0]
    if fu == fw and fu in chol_def:
        formals, i, j, body, dim = chol_def[fu]
        pu, (ui, uk) = _match_params(u, len(formals))
        pw, (wi, wk) = _match_params(w, len(formals))
        if pu == pw and uk is b and wk is b and b not in ui.fv and b not in wi.fv:
            m = dict(zip(formals, pu))
            if subst(dim, m) is n:
                m[i], m[j] = ui, wi
                return subst(body, m)
    if fu == fw and fu in orth_def:
        formals, dim = orth_def[fu]
        pu, (ui, uk) = _match_params(u, len(formals))
        pw, (wi, wk) = _match_params(w, len(formals))
        if pu == pw and subst(dim, dict(zip(formals, pu))) is n:
            if ui is b and wi is b and b not in uk.fv and b not in wk.fv:
                return ite(eq(uk, wk), ONE, ZERO)
            if uk is b and wk is b and b not in ui.fv and b not in wi.fv:
                return ite(eq(ui, wi), ONE, ZERO)
    if fu in inv_def:
        formals, i, j, body, dim = inv_def[fu]
        pu, (ui, uk) = _match_params(u, len(formals))
        m = dict(zip(formals, pu))
        if u.args[1][:-1] == w.args[1][:-1] and fu == fw and ui is b and b not in uk.fv and b not in w.args[1][-1].fv and subst(dim, m) is n:
            r = _inverse_factor(body, i, j, uk, w.args[1][-1], m)
            if r is not None:
                return r
        if subst(dim, m) is n and body.op == "app" and body.args[0] == fw:
            # sum_k INV(i,k) A(k,j) ; sum_k A(i,k) INV(k,j)
            if uk is b and b not in ui.fv:
                o = _other_index(body, i, j, m, w, b)
                if o is not None:
                    return ite(eq(ui, o), ONE, ZERO)
            if ui is b and b not in uk.fv:
                o = _other_index(body, j, i, m, w, b)
                if o is not None:
                    return ite(eq(o, uk), ONE, ZERO)
    return None


def _inverse_factor(body, i, j, x, y, m):
    """sum_b G(b, x) G(b, y) for G = C^-1, C C' = Theta, Theta = A^-1: equals A(x, y)"""
    if body.op != "app" or body.args[0] not in chol_def or body.args[1][-2:] != (i, j):
        return None
    f2, i2, j2, body2, _ = chol_def[body.args[0]]
    q = body.args[1][:-2]
    if i in set().union(*[t.fv for t in q]) or j in set().union(*[t.fv for t in q]):
        return None
    body2 = subst(body2, dict(zip(f2, q)))
    if body2.op != "app" or body2.args[0] not in inv_def or body2.args[1][-2:] != (i2, j2):
        return None
    f3, i3, j3, body3, _ = inv_def[body2.args[0]]
    q = body2.args[1][:-2]
    if any(i2 in t.fv or j2 in t.fv for t in q):
        return None
    body3 = subst(body3, dict(zip(f3, q)))
    return subst(subst(body3, {i3: x, j3: y}), m)


def _other_index(body, i, j, m, w, b):
    """the term o with w == body[i := b, j := o], o free of b"""
    for p in range(len(w.args[1])):
        o = w.args[1][p]
        if b not in o.fv and o.sort == "I" and subst(body, {**m, i: b, j: o}) is w:
            return o
    return None


def _orient(b, n, fs):
    """reverse the binder when it only occurs with coefficient -1 in arguments"""
    pos = negc = False
    for a, _e in fs:
        for t in walk(a):
            if t.op == "app":
                for x in t.args[1]:
                    if b in x.fv and x.sort == "I":
                        l = _lin_in(x, b)
                        if l and l[0] > 0:
                            pos = True
                        elif l and l[0] < 0:
                            negc = True
    return negc and not pos


def _canon(binders, fs):
    # orientation
    for b, n in binders:
        if not any(b in n2.fv for _, n2 in binders) and _orient(b, n, fs):
            m = {b: sub(sub(n, ONE), b)}
            nb = [(x, y) for x, y in binders]
            return _resum(nb, mul(*[ipow(subst(a, m), e) for a, e in fs]))
    L = 0
    for a, _e in fs:
        L = max(L, a.maxb + 1)
    for _b, n in binders:
        L = max(L, n.maxb + 1)
    k = len(binders)
    names = [_bvar(L + i) for i in range(k)]
    # group by signature
    star = Var("$star", "I")
    at = Var("$at", "I")

    def sig(b, n):
        m = {x: star for x, _ in binders}
        m[b] = at
        return (subst(n, m).s, tuple(sorted(subst(a, m).s + "^" + str(e) for a, e in fs if b in a.fv)))

    if k == 1:
        orders = [binders]
    else:
        sg = sorted(((sig(b, n), idx) for idx, (b, n) in enumerate(binders)))
        groups = [[binders[i] for _, i in g] for _, g in itertools.groupby(sg, key=lambda x: x[0])]
        orders = [list(itertools.chain(*p)) for p in itertools.product(*[itertools.permutations(g) for g in groups])]
        if len(orders) > 5040:
            orders = orders[:5040]
    best = None
    for order in orders:
        m = {b: nm for (b, _), nm in zip(order, names)}
        ff = [(subst(a, m), e) for a, e in fs]
        rr = tuple(subst(n, m) for _, n in order)
        key = (tuple(r.s for r in rr), tuple(sorted(a.s + "^" + str(e) for a, e in ff)))
        if best is None or key < best[0]:
            best = (key, rr, ff)
    _, rr, ff = best
    d = {}
    for a, e in ff:
        d[a] = d.get(a, 0) + e
    mono = tuple(sorted(d.items(), key=lambda ae: ae[0].id))
    fv = _empty
    for a, _e in mono:
        fv = fv | a.fv
    for r in rr:
        fv = fv | r.fv
    fv = fv - set(names)
    isint = all(a.sort == "I" and e > 0 for a, e in mono)
    return _mk("sum", (tuple(names), rr, mono), "I" if isint else "R", fv, L + k - 1)


# ---------------------------------------------------------------- abstraction keys
def abstract(ts, bound, selfnames=()):
    """Replace maximal subterms free of `bound` by parameters.
    Returns (abstracted terms, params list, param vars)."""
    params = []
    pvars = []
    bound = frozenset(bound)

    def param(t):
        for q, v in zip(params, pvars):
            if q is t:
                return v
        v = Var(f"$p{len(params)}{t.sort}", t.sort)
        params.append(t)
        pvars.append(v)
        return v

    def go(t, bd):
        if is_const(t) and t.op == "poly":
            return t
        if t.op in ("true", "false"):
            return t
        dep = bool(t.fv & bd)
        if not dep:
            selfy = selfnames and any(x.op == "app" and x.args[0] in selfnames for x in walk(t))
            if not selfy:
                if not t.fv:
                    return t
                return param(t)
        op = t.op
        if op == "var":
            return t
        if op == "poly":
            free = []
            rest = []
            items = sorted(t.args, key=lambda mc: (len(mc[0]), sorted((_anon(a, bd), e) for a, e in mc[0])))
            for mono, c in items:
                if mono == ():
                    rest.append(const(c))
                    continue
                dep_f = [(a, e) for a, e in mono if a.fv & bd or (selfnames and any(x.op == "app" and x.args[0] in selfnames for x in walk(a)))]
                ind_f = [(a, e) for a, e in mono if (a, e) not in dep_f]
                if not dep_f:
                    free.append(_mkpoly({mono: c}))
                    continue
                fs = [ipow(go(a, bd), e) for a, e in sorted(dep_f, key=lambda ae: _anon(ae[0], bd))]
                if ind_f:
                    it = _mono_term(tuple(ind_f))
                    fs.append(it if not it.fv else param(it))
                rest.append(scale(mul(*fs), c))
            if free:
                ft = add(*free)
                rest.append(ft if not ft.fv else param(ft))
            return add(*rest)
        if op == "app":
            return App(t.args[0], [go(a, bd) for a in t.args[1]], t.sort)
        if op == "recip":
            return div(ONE, go(t.args[0], bd))
        if op == "ite":
            return ite(*[go(a, bd) for a in t.args])
        if op == "sum":
            bs, rs, mono = t.args
            fr = [fresh("s") for _ in bs]
            m2 = dict(zip(bs, fr))
            bd2 = bd | frozenset(fr)
            rs2 = [go(subst(n, m2), bd2) for n in rs]
            for f, n in zip(fr, rs2):
                var_range[f] = n
            fs = [ipow(go(subst(a, m2), bd2), e) for a, e in sorted(mono, key=lambda ae: _anon(ae[0], bd | frozenset(bs)))]
            r = mul(*fs)
            for f, n in reversed(list(zip(fr, rs2))):
                r = mk_sum(f, n, r)
            return r
        if op in ("forall", "exists"):
            b, n, body = t.args
            f = fresh("q")
            n2 = go(n, bd)
            var_range[f] = n2
            body2 = go(subst(body, {b: f}), bd | {f})
            return (Forall if op == "forall" else Exists)(f, n2, body2)
        if op == "not":
            return Not(go(t.args[0], bd))
        if op in ("and", "or", "iff"):
            return {"and": And, "or": Or, "iff": Iff}[op](*[go(a, bd) for a in sorted(t.args, key=lambda x: _anon(x, bd))])
        if op in ("le0", "lt0", "eq0"):
            return {"le0": le0, "lt0": lt0, "eq0": eq0}[op](go(t.args[0], bd))
        raise AssertionError(op)

    return [go(t, bound) for t in ts], params, pvars


def _anon(t, bd):
    """structural string with free variables anonymised (ordering only)"""
    free = [v for v in t.fv if v not in bd and not v.args[0].startswith("$b")]
    if not free:
        return t.s
    m = {v: Var("$anon" + v.sort, v.sort) for v in free}
    try:
        return subst(t, m).s
    except ZeroDivisionError:
        return t.s


# ---------------------------------------------------------------- zero test with denominators
def is_zero(t):
    """sound test: t == 0 as rational function of its atoms (denominators assumed nonzero)"""
    for _ in range(40):
        if t.op == "poly" and not t.args:
            return True
        p = poly(t)
        rec = {}
        for m in p:
            for a, e in m:
                if a.op == "recip":
                    rec[a] = max(rec.get(a, 0), e)
        if not rec:
            return False
        a = max(rec, key=lambda x: x.id)
        k = rec[a]
        den = a.args[0]
        out = []
        for m, c in p.items():
            e = dict(m).get(a, 0)
            rest = tuple((x, y) for x, y in m if x is not a)
            out.append(mul(_mkpoly({rest: c}), ipow(den, k - e)))
        t = add(*out)
    return False


# ---------------------------------------------------------------- printing
def show(t, d=0):
    op = t.op
    if d > 40:
        return "..."
    if op == "var":
        return t.args[0]
    if op == "poly":
        if not t.args:
            return "0"
        out = []
        for m, c in t.args:
            f = "*".join(show(a, d + 1) + (f"^{e}" if e != 1 else "") for a, e in m)
            out.append(f if c == 1 and f else (f"{c}*{f}" if f else str(c)))
        return "(" + " + ".join(out) + ")"
    if op == "app":
        return t.args[0] + "(" + ", ".join(show(a, d + 1) for a in t.args[1]) + ")"
    if op == "sum":
        bs, rs, mono = t.args
        return "Sum[" + ",".join(f"{show(b)}<{show(n, d+1)}" for b, n in zip(bs, rs)) + "](" + "*".join(show(a, d + 1) + (f"^{e}" if e != 1 else "") for a, e in mono) + ")"
    if op in ("forall", "exists"):
        return f"{op} {show(t.args[0])}<{show(t.args[1], d+1)}. {show(t.args[2], d+1)}"
    if op in ("le0", "lt0", "eq0"):
        return f"({show(t.args[0], d+1)} {'<=' if op == 'le0' else '<' if op == 'lt0' else '=='} 0)"
    if op in ("true", "false"):
        return op
    if op == "recip":
        return f"1/{show(t.args[0], d+1)}"
    return f"{op}(" + ", ".join(show(a, d + 1) for a in t.args) + ")"


# ---------------------------------------------------------------- replacement of subterms
def subst_terms(t, m, memo=None):
    """replace occurrences of the (closed) terms in m"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        memo[t] = m[t]
        return m[t]
    op = t.op
    if op in ("var", "true", "false"):
        r = t
    elif op == "poly":
        ch = False
        out = []
        for mono, c in t.args:
            fs = []
            for a, e in mono:
                b = subst_terms(a, m, memo)
                if b is not a:
                    ch = True
                    fs.append(ipow(b, e))
                else:
                    fs.append(_mono_term(((a, e),)))
            out.append((fs, c))
        r = add(*[scale(mul(*fs), c) for fs, c in out]) if ch else t
    elif op == "app":
        args = [subst_terms(a, m, memo) for a in t.args[1]]
        r = t if all(x is y for x, y in zip(args, t.args[1])) else App(t.args[0], args, t.sort)
    elif op == "recip":
        b = subst_terms(t.args[0], m, memo)
        r = t if b is t.args[0] else div(ONE, b)
    elif op == "sum":
        bs, rs, mono = t.args
        if any(subst_terms(n, m, memo) is not n for n in rs) or any(subst_terms(a, m, memo) is not a for a, _ in mono):
            fr = [fresh("s") for _ in bs]
            m2 = dict(zip(bs, fr))
            rs2 = [subst_terms(subst(n, m2), m) for n in rs]
            for x, n in zip(fr, rs2):
                var_range[x] = n
            r = mul(*[ipow(subst_terms(subst(a, m2), m), e) for a, e in mono])
            for x, n in reversed(list(zip(fr, rs2))):
                r = mk_sum(x, n, r)
        else:
            r = t
    elif op in ("forall", "exists"):
        b, n, body = t.args
        n2 = subst_terms(n, m, memo)
        b2 = subst_terms(body, m, memo)
        if n2 is n and b2 is body:
            r = t
        else:
            x = fresh("q", "I", n2)
            r = (Forall if op == "forall" else Exists)(x, n2, subst_terms(subst(body, {b: x}), m))
    else:
        args = [subst_terms(a, m, memo) for a in t.args]
        if all(x is y for x, y in zip(args, t.args)):
            r = t
        else:
            r = {"ite": ite, "not": Not, "and": And, "or": Or, "iff": Iff, "le0": le0, "lt0": lt0, "eq0": eq0}[op](*args)
    memo[t] = r
    return r


def _subst_term(t, x, y):
    return subst_terms(t, {x: y})
