"""Guards around the library contracts: an argument a contract does not look at makes the call unsupported, and element
types other than float and bool (integers truncate, short floats round) are outside the verified subset."""
from .values import Unsupported
from . import values as V

EFFECT_FREE = ("builtins.print", "warnings.warn")
IGNORED = {"ignore_dpp", "solver", "warm_start", "copy", "order", "verbose", "desc", "disable", "total", "leave", "check_finite", "overwrite_a", "driver"}


class Args(list):
    def __init__(self, xs):
        super().__init__(xs)
        self.seen = set()

    def __getitem__(self, i):
        if isinstance(i, slice):
            self.seen.update(range(*i.indices(len(self))))
        else:
            self.seen.add(i if i >= 0 else len(self) + i)
        return super().__getitem__(i)

    def __iter__(self):
        self.seen.update(range(len(self)))
        return super().__iter__()

    def __add__(self, o):
        self.seen.update(range(len(self)))
        return super().__add__(o)

    __radd__ = None


class Kw(dict):
    def __init__(self, d):
        super().__init__(d)
        self.seen = set()

    def __getitem__(self, k):
        self.seen.add(k)
        return super().__getitem__(k)

    def get(self, k, d=None):
        self.seen.add(k)
        return super().get(k, d)

    def pop(self, k, *d):
        self.seen.add(k)
        return super().pop(k, *d)

    def __iter__(self):
        self.seen.update(super().keys())
        return super().__iter__()

    def items(self):
        self.seen.update(super().keys())
        return super().items()

    def values(self):
        self.seen.update(super().keys())
        return super().values()

    def keys(self):
        self.seen.update(super().keys())
        return super().keys()


def element_type(it, x):
    """'float' | 'bool' | None (the default) ; anything else is outside the subset"""
    x = it.D(x)
    if x is None:
        return None
    n = getattr(x, "name", None) or (getattr(x, "s", None) if type(x).__name__ in ("Str", "StrV") else None) or (x if isinstance(x, str) else None)
    n = str(n).split(".")[-1]
    if n in ("float", "float64", "double", "f8"):
        return "float"
    if n in ("bool", "bool_"):
        return "bool"
    if n in ("object",):
        return None
    raise Unsupported(f"element type {n}")


POS = {"np.zeros": 1, "np.ones": 1, "np.empty": 1, "np.array": 1, "np.asarray": 1, "np.full": 2, "np.zeros_like": 1, "np.ones_like": 1, "np.full_like": 2,
       "np.empty_like": 1, "astype": 0}
BOOL = {"np.zeros", "np.ones", "np.full", "astype"}


def guarded(c, call, it, args, kw):
    a, k = Args(args), Kw(kw)
    ty = None
    if "dtype" in k:
        ty = element_type(it, dict.__getitem__(k, "dtype"))
        if c != "astype":
            dict.pop(k, "dtype")
    p = POS.get(c)
    if p is not None and len(args) > p:
        ty = element_type(it, args[p])
        if c != "astype":
            a = Args(args[:p])
    if ty == "bool" and c not in BOOL:
        raise Unsupported(f"{c} with truth values")
    it.element_type = ty
    r = call(a, k)
    it.element_type = None
    left = [x for x in dict.keys(k) if x not in k.seen and x not in IGNORED]
    if c == "astype":
        a.seen.add(0)
        left = [x for x in left if x != "dtype"]
    if c in EFFECT_FREE:
        return r
    if left or len(a.seen) < len(a):
        raise Unsupported(f"{c}: argument " + ", ".join(map(str, left + [i for i in range(len(a)) if i not in a.seen])) + " is not part of its contract")
    return r
