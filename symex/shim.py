"""Stand-ins for numpy, math, functools.cache, tqdm inside the transformed modules."""
import builtins
import contextlib
import functools
import heapq
import itertools
import math
import operator
import statistics
import sys

import numpy as np

from . import core
from . import rt
from . import sarr as A
from . import sym as S
from . import transc  # noqa: F401 (registers models)
from . import gexp  # noqa: F401 (registers models)
from .sarr import SArr
from .sym import Sym, is_sym


class tqdm:
    def __class_getitem__(cls, k):
        return cls

    def __init__(self, it=None, *a, **kw):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def __len__(self):
        return len(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def update(self, *a):
        pass

    def close(self):
        pass

    set_description = set_postfix = refresh = update


def symargs(args, kwargs):
    return any(isinstance(x, (SArr, Sym)) or A.has_sym(x) or _deep_sarr(x) for x in args) or any(
        isinstance(x, (SArr, Sym)) or A.has_sym(x) or _deep_sarr(x) for x in kwargs.values())


def _deep_sarr(x):
    if isinstance(x, (list, tuple)):
        return any(isinstance(e, SArr) or _deep_sarr(e) for e in x)
    return False


def lz(x):
    if isinstance(x, A.LazyNZ):
        return x.force()
    if isinstance(x, (map, filter, itertools.chain)) or type(x).__name__ == "generator":
        return x
    return x


class UF:
    """Wrapper of a ufunc."""

    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__

    def _call(self, method, args, kw):
        args = tuple(lz(a) for a in args)
        if rt.on() and (symargs(args, kw) or self.uf in (np.log, np.exp) and gexp.exact()):
            args = tuple(A.asarr(a) if isinstance(a, (list, tuple)) else a for a in args)
            return A.ufunc_dispatch(self.uf, method, args, dict(kw))
        return getattr(self.uf, method)(*args, **kw)

    def __call__(self, *args, **kw):
        return self._call("__call__", args, kw)

    def reduce(self, *args, **kw):
        if len(args) > 1:
            kw["axis"] = args[1]
            args = args[:1]
        return self._call("reduce", args, kw)

    def accumulate(self, *args, **kw):
        if len(args) > 1:
            kw["axis"] = args[1]
            args = args[:1]
        return self._call("accumulate", args, kw)

    def outer(self, *args, **kw):
        return self._call("outer", args, kw)

    def at(self, a, idx, b=None):
        if isinstance(a, SArr):
            f = self.uf
            for j, i in enumerate(np.ravel(idx)):
                A.setitem(a, i, f(A.getitem(a, i), b if np.ndim(b) == 0 else b[j]))
            return
        return self.uf.at(a, idx, b)

    def __getattr__(self, n):
        return getattr(self.uf, n)


def wrap_func(f):
    @functools.wraps(f)
    def g(*args, **kw):
        args = tuple(lz(a) for a in args)
        if rt.on() and symargs(args, kw):
            args = tuple(A.deep(a, _lst) if isinstance(a, (list, tuple)) else a for a in args)
            return A.func_dispatch(f, args, kw)
        return f(*args, **kw)
    return g


def _lst(x):
    return x


def as_array(x, dtype=None, copy=False, ndmin=0, **kw):
    if isinstance(x, A.LazyNZ):
        x = x.force()
    if not rt.on():
        return np.array(x, dtype=dtype, ndmin=ndmin) if copy else np.asarray(x, dtype=dtype)
    if isinstance(x, (set, frozenset)) or type(x).__name__ in ("dict_keys", "dict_values", "generator", "map"):
        return np.array(x, dtype=dtype)
    k = A.kind_of_dtype(dtype)
    if isinstance(x, SArr):
        if k is None or k == x.k:
            return x.copy() if copy else x
        return A.cast(x, k)
    if isinstance(x, A.Sym) or isinstance(x, rt.SymBytes):
        x = list(x) if isinstance(x, rt.SymBytes) else x
        r = A.asarr(x)
        return A.cast(r, k) if k is not None else r
    if isinstance(x, np.ndarray):
        if x.dtype == object and A.has_sym(x):
            r = A.asarr(x)
            r.k = A.promote(*[A.kind_of_elem(e) for e in x.ravel()])
            return A.cast(r, k) if k is not None else r
        return np.array(x, dtype=dtype, ndmin=ndmin) if copy else np.asarray(x, dtype=dtype)
    if isinstance(x, (list, tuple, range)):
        if _any_special(x):
            x = _unlz(x)
            r = A.from_nested(x)
            return A.cast(r, k) if k is not None and k != r.k else r
        if k in ("i", "f", "u", "b") and _any_komm(x):
            r = A.from_nested(x)
            return A.cast(r, k)
    elif k in ("i", "f") and _komm(x):
        r = A.asarr(np.array(None, dtype=object))
        np.ndarray.__setitem__(r, (), x)
        return A.cast(A.wrap(r.raw(), "O"), k)
    return np.array(x, dtype=dtype, ndmin=ndmin) if copy else np.asarray(x, dtype=dtype)


def _komm(x):
    return getattr(type(x), "__module__", "").startswith("komm")


def _any_komm(x):
    return any(_any_komm(e) if isinstance(e, (list, tuple)) else _komm(e) for e in x) if isinstance(x, (list, tuple)) else False


def _any_special(x):
    if isinstance(x, (list, tuple)):
        return any(_any_special(e) for e in x)
    return isinstance(x, (Sym, SArr, A.LazyNZ, rt.SymBytes)) or (isinstance(x, np.ndarray) and x.dtype == object and A.has_sym(x))


def _unlz(x):
    if isinstance(x, (list, tuple)):
        return [_unlz(e) for e in x]
    if isinstance(x, A.LazyNZ):
        return x.force()
    if isinstance(x, rt.SymBytes):
        return list(x)
    return x


def np_array(x, dtype=None, copy=True, ndmin=0, **kw):
    r = as_array(x, dtype, True)
    while r.ndim < ndmin:
        r = r[None]
    return r


def np_asarray(x, dtype=None, **kw):
    return as_array(x, dtype, False)


def shp(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(S.concretise(x)) if is_sym(x) else int(x) for x in s)
    return int(S.concretise(s)) if is_sym(s) else int(s)


def mk_new(name, default_kind):
    real = getattr(np, name)

    def f(shape, *args, **kw):
        if not rt.on():
            return real(shape, *args, **kw)
        if name == "full":
            fill = args[0] if args else kw["fill_value"]
            dtype = args[1] if len(args) > 1 else kw.get("dtype")
            if isinstance(fill, (list, np.ndarray)):
                r = A.new(shp(shape), A.kind_of_dtype(dtype) or A.kind_of(A.asarr(fill)), None)
                r[...] = fill
                return r
            k = A.kind_of_dtype(dtype) or A.kind_of_elem(fill)
            return A.new(shp(shape), k, A.pyelem(fill))
        dtype = args[0] if args else kw.get("dtype", float)
        k = A.kind_of_dtype(dtype)
        fill = {"zeros": 0, "ones": 1, "empty": None}[name]
        if k == "O" and name != "empty":
            return A.wrap(real(shp(shape), dtype=object), "O")
        return A.new(shp(shape), k, fill)
    return f


def mk_like(name):
    real = getattr(np, name)
    impl = A.FUNCS[real]

    def f(a, *args, **kw):
        if not rt.on():
            return real(a, *args, **kw)
        if name == "full_like":
            return impl(a, *args, **kw)
        return impl(a, *args, **kw)
    return f


def np_arange(*a, **kw):
    if rt.on():
        a = tuple(rt.conc(x) for x in a)
    return np.arange(*a, **kw)


def np_fromiter(it, dtype=None, count=-1, **k):
    xs = list(it)
    return as_array(xs, dtype)


def np_apply_along_axis(func1d, axis, arr, *args, **kw):
    f = func1d
    if not rt.on():
        return np.apply_along_axis(f, axis, arr, *args, **kw)
    arr = as_array(arr)
    return A.f_apply_along_axis(f, axis, arr, *args, **kw)


class vectorize:
    def __init__(self, f, otypes=None, **kw):
        self.f = f
        self.otypes = otypes
        self.real = np.vectorize(f, otypes=otypes, **kw)
        self.kw = kw

    def __call__(self, *args, **kw):
        if not rt.on() or self.kw.get("signature"):
            return self.real(*args, **kw)
        arrs = [as_array(a) for a in args]
        bs = np.broadcast_shapes(*[a.shape for a in arrs])
        bc = [np.broadcast_to(a.raw() if isinstance(a, SArr) else a, bs) for a in arrs]
        o = np.empty(bs, dtype=object)
        for p in np.ndindex(bs):
            r = self.f(*[A.scalar(b[p], A.kind_of(a)) if not isinstance(b[p], np.generic) else b[p]
                         for a, b in zip(arrs, bc)], **kw)
            o[p] = A.pyelem(r)
        k = A.promote(*[A.kind_of_elem(x) for x in o.ravel()]) if o.size else "f"
        if self.otypes:
            ot = self.otypes[0] if not isinstance(self.otypes, str) else self.otypes
            kk = A.kind_of_dtype(ot)
            r = A.cast(A.wrap(o, k), kk)
        else:
            # numpy takes the type of the first result
            k = A.kind_of_elem(o.ravel()[0]) if o.size else "f"
            r = A.cast(A.wrap(o, k if k == "O" else "O"), k)
        if not A.has_sym(r):
            return A.to_real_array(r) if r.ndim else A.scalar(r.raw()[()], r.k)
        return r if r.ndim else r.raw()[()]


def np_ndenumerate(a):
    if isinstance(a, SArr):
        return ((i, A.scalar(x, a.k)) for i, x in np.ndenumerate(a.raw()))
    return np.ndenumerate(a)


def np_atleast(n):
    real = {1: np.atleast_1d, 2: np.atleast_2d}[n]

    def f(*xs):
        xs = [as_array(x) for x in xs]
        rs = []
        for x in xs:
            while x.ndim < n:
                x = x[None]
            rs.append(x)
        return rs[0] if len(rs) == 1 else rs
    return f


def np_isscalar(x):
    return True if is_sym(x) else np.isscalar(x)


def np_setdiff1d(a, b, assume_unique=False):
    return np.setdiff1d(rt.conc(as_array(list(a) if isinstance(a, range) else a)), rt.conc(as_array(b)),
                        assume_unique=assume_unique)


class Sub:
    def __init__(self, mod):
        self._m = mod
        self._c = {}

    def __getattr__(self, n):
        c = self._c
        if n in c:
            return c[n]
        v = c[n] = wrap_any(getattr(self._m, n))
        return v


def wrap_any(v):
    if isinstance(v, np.ufunc):
        return UF(v)
    if isinstance(v, type) or not callable(v):
        return v
    if type(v).__name__ in ("_ArrayFunctionDispatcher",) or hasattr(v, "__wrapped__"):
        return wrap_func(v)
    return v


class NP(Sub):
    def __init__(self):
        super().__init__(np)
        c = self._c
        c["array"] = np_array
        c["asarray"] = c["asanyarray"] = c["ascontiguousarray"] = np_asarray
        for n in ("zeros", "ones", "empty", "full"):
            c[n] = mk_new(n, "f")
        for n in ("zeros_like", "ones_like", "empty_like", "full_like"):
            c[n] = mk_like(n)
        c["arange"] = np_arange
        c["fromiter"] = np_fromiter
        c["apply_along_axis"] = np_apply_along_axis
        c["vectorize"] = vectorize
        c["ndenumerate"] = np_ndenumerate
        c["atleast_1d"] = np_atleast(1)
        c["atleast_2d"] = np_atleast(2)
        c["isscalar"] = np_isscalar
        c["setdiff1d"] = np_setdiff1d
        c["linalg"] = Sub(np.linalg)
        c["fft"] = Sub(np.fft)
        c["float64"] = np.float64

    def __dir__(self):
        return dir(np)


npx = NP()


# ------------------------------------------------------------------- functools
class cached_property(functools.cached_property):
    def __get__(self, instance, owner=None):
        if instance is None:
            return self
        if rt.on() and core.E.guards:
            d = instance.__dict__
            return d[self.attrname] if self.attrname in d else self.func(instance)
        return super().__get__(instance, owner)


def cache(f):
    glob = {}

    @functools.wraps(f)
    def g(*args, **kw):
        if rt.on() and (core.E.guards or any(A.has_sym(a) for a in args)):
            return f(*args, **kw)
        if args and hasattr(args[0], "__dict__") and not isinstance(args[0], type):
            d = args[0].__dict__.setdefault("_sx_cache", {})
            key = (f.__qualname__,) + tuple(args[1:]) + tuple(kw.items())
        else:
            d = glob
            key = tuple(args) + tuple(kw.items())
        try:
            return d[key]
        except KeyError:
            r = d[key] = f(*args, **kw)
            return r
    g.cache_clear = glob.clear
    g.__wrapped__ = f
    return g


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return cache(maxsize)
    return cache


_REAL = {"cache": functools.cache, "lru_cache": functools.lru_cache, "cached_property": functools.cached_property}


@contextlib.contextmanager
def patched_imports():
    old = (functools.cache, functools.lru_cache, functools.cached_property)
    functools.cache, functools.lru_cache, functools.cached_property = cache, lru_cache, cached_property
    try:
        yield
    finally:
        functools.cache, functools.lru_cache, functools.cached_property = old


# ------------------------------------------------------------------------ math
def conc_first(f):
    @functools.wraps(f)
    def g(*a, **k):
        return f(*[rt.conc(x) if isinstance(x, (Sym, SArr)) else x for x in a], **k)
    return g


def m_ceil(x):
    if isinstance(x, SArr):
        x = A.pyelem(x.raw()[()])
    if is_sym(x):
        return rt.f_int(-S.rfloor(-x))
    return math.ceil(x)


def m_floor(x):
    if isinstance(x, SArr):
        x = A.pyelem(x.raw()[()])
    if is_sym(x):
        return rt.f_int(S.rfloor(x))
    return math.floor(x)


def m_transcend(name):
    f = getattr(math, name)

    def g(*a):
        if any(isinstance(x, (Sym, SArr)) for x in a):
            m = A.MODELS.get(name)
            if m is not None:
                return m(*[A.pyelem(x) for x in a])
            if name == "sqrt":
                return A._sqrt(a[0])
            return f(*[rt.conc(x) for x in a])
        return f(*a)
    return g


MATH = {"ceil": m_ceil, "floor": m_floor, "trunc": lambda x: S.rtrunc(x) if is_sym(x) else math.trunc(x)}
for _n in ("log", "log2", "log10", "exp", "sqrt", "cos", "sin", "tan", "erfc", "erf", "gamma", "tanh", "atanh", "pow",
           "log1p", "expm1", "hypot", "atan2"):
    MATH[_n] = m_transcend(_n)
for _n in ("gcd", "lcm", "isqrt", "comb", "factorial", "perm"):
    MATH[_n] = conc_first(getattr(math, _n))


def m_prod(it, *, start=1):
    r = start
    for x in it:
        r = r * x
    return r


MATH["prod"] = m_prod
MATH["isfinite"] = lambda x: True if is_sym(x) else math.isfinite(x)
MATH["isinf"] = lambda x: False if is_sym(x) else math.isinf(x)
MATH["isnan"] = lambda x: False if is_sym(x) else math.isnan(x)
MATH["isclose"] = lambda a, b, **k: A.f_isclose(a, b, k.get("rel_tol", 1e-9), k.get("abs_tol", 0.0)) if (
    is_sym(a) or is_sym(b)) else math.isclose(a, b, **k)


class MathProxy:
    def __getattr__(self, n):
        return MATH.get(n) or getattr(math, n)


mathx = MathProxy()
REPL = {id(getattr(math, n)): f for n, f in MATH.items() if hasattr(math, n)}
REPL[id(np)] = npx
REPL[id(math)] = mathx
REPL[id(np.linalg)] = npx.linalg
for _n in ("matrix_power", "inv", "det", "solve", "lstsq"):
    REPL[id(getattr(np.linalg, _n))] = wrap_func(getattr(np.linalg, _n))


def patch_globals(module):
    g = module.__dict__
    for n, v in list(g.items()):
        r = REPL.get(id(v))
        if r is not None:
            g[n] = r
        elif type(v).__name__ == "_ArrayFunctionDispatcher" or isinstance(v, np.ufunc):
            g[n] = wrap_any(v)
