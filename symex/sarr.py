"""Object arrays of symbolic scalars that follow numpy's dtype rules.

SArr is an ndarray subclass with dtype object; `k` is the logical kind:
'b' bool, 'u' uint8, 'i' int, 'f' float, 'c' complex, 'O' object.
Functions with no model here run on concrete arrays; symbolic elements are
then concretised by forking over every feasible value (sound and complete)."""
import functools
import inspect
import itertools
import math
import operator

import numpy as np
import z3

from . import bits as B
from . import core
from . import sym as S
from .cplx import SymAngle, SymC, angle
from .bits import ONE, ZERO
from .sym import Sym, is_sym, ite, truth_bit, wrap_bool

ORDER = {"b": 0, "u": 1, "i": 2, "f": 3, "c": 4, "O": 5}
DT = {"b": np.dtype(bool), "u": np.dtype(np.uint8), "i": np.dtype(int), "f": np.dtype(float), "c": np.dtype(complex),
      "O": np.dtype(object)}


def kind_of_dtype(t):
    if t is None:
        return None
    t = np.dtype(t)
    if t == np.uint8:
        return "u"
    return {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c"}.get(t.kind, "O")


def kind_of_elem(x):
    if isinstance(x, (bool, np.bool_, S.SymBool)):
        return "b"
    if isinstance(x, (int, np.integer, S.SymInt)):
        return "i"
    if isinstance(x, (float, np.floating, S.SymReal)):
        return "f"
    if isinstance(x, (complex, np.complexfloating, SymC)):
        return "c"
    if isinstance(x, Sym):
        return "f"
    return "O"


def kind_of(x):
    if isinstance(x, SArr):
        return x.k
    if isinstance(x, np.ndarray):
        return kind_of_dtype(x.dtype)
    return kind_of_elem(x)


def promote(*ks):
    return max(ks, key=ORDER.__getitem__) if ks else "i"


def cast_elem(x, k):
    if k is None or k == "O":
        return x
    if k == "b":
        if isinstance(x, (bool, np.bool_)):
            return bool(x)
        return wrap_bool(truth_bit(x)) if is_sym(x) else bool(x)
    if k in "iu":
        if isinstance(x, (int, np.integer)):
            r = int(x)
        elif isinstance(x, S.SymBool):
            return x.toint()
        elif isinstance(x, S.SymInt):
            r = x
        elif isinstance(x, S.SymReal):
            r = S.rtrunc(x)
            if not is_sym(r):
                r = int(r)
        elif isinstance(x, SymC):
            return cast_elem(x.re, k)
        elif isinstance(x, SymAngle):
            r = int(x.trunc())
        else:
            r = int(x)
        if k == "u":
            if not (isinstance(r, S.SymInt) and 0 <= r.lo and r.hi < 256):
                r = r & 0xFF
        return r
    if k == "f":
        if isinstance(x, (bool, np.bool_)):
            return int(x)
        if isinstance(x, S.SymBool):
            return x.toint()
        if isinstance(x, (int, np.integer)):
            return int(x)
        if isinstance(x, (float, np.floating)):
            return float(x)
        if isinstance(x, SymC):
            return x.re
        if isinstance(x, (complex, np.complexfloating)):
            return x.real
        return x
    return x


def uninit():
    return None


class SArr(np.ndarray):
    k = "O"
    depth = 0

    def __array_finalize__(self, obj):
        if obj is not None:
            self.k = getattr(obj, "k", "O")
            self.depth = getattr(obj, "depth", 0)

    @property
    def dtype(self):
        return DT[self.k]

    def raw(self):
        return self.view(np.ndarray)

    # ---------------------------------------------------------- conversions
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return func_dispatch(func, args, kwargs)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(self.raw().ravel()[0])

    def __index__(self):
        if self.ndim != 0:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return operator.index(S.concretise(self.raw()[()]))

    def __int__(self):
        return int(S.concretise(self.raw().reshape(())[()]))

    def __float__(self):
        return float(S.concretise(self.raw().reshape(())[()]))

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __deepcopy__(self, memo):
        return self.copy()

    def item(self, *a):
        r = self.raw()
        return r.item(*a)

    def tolist(self):
        return self.raw().tolist()

    def astype(self, t, copy=True, **k):
        return cast(self, kind_of_dtype(t))

    def copy(self, order="C"):
        return wrap(self.raw().copy(), self.k)

    def __copy__(self):
        return self.copy()

    def view(self, *a):
        if a and a[0] not in (np.ndarray, SArr) and not (isinstance(a[0], type) and issubclass(a[0], np.ndarray)):
            return to_concrete(self).view(*a)
        return np.ndarray.view(self, *a)

    def tobytes(self, *a):
        return to_concrete(self).tobytes(*a)

    # -------------------------------------------------------------- indexing
    def __getitem__(self, idx):
        return getitem(self, idx)

    def __setitem__(self, idx, val):
        setitem(self, idx, val)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        if self.ndim == 1:
            k = self.k
            return (scalar(x, k) for x in self.raw())
        return (self[i] for i in range(self.shape[0]))

    def __contains__(self, x):
        return bool(contains_arr(self, x))

    # ------------------------------------------------------------- operators
    # comparison operators go through the ufunc machinery
    def __eq__(self, o):
        return np.equal(self, o)

    def __ne__(self, o):
        return np.not_equal(self, o)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    # --------------------------------------------------------------- methods
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return a_sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_axis(self, axis, keepdims, lambda xs: functools.reduce(operator.mul, xs, 1))

    def any(self, axis=None, out=None, keepdims=False, **k):
        return a_any(self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return a_all(self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return a_min(self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return a_max(self, axis, keepdims)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return a_sum(self, axis=axis) / n

    def argmin(self, axis=None, **k):
        return a_argmin(self, axis)

    def argmax(self, axis=None, **k):
        return a_argmax(self, axis)

    def dot(self, o):
        return dot(self, o)

    def cumsum(self, axis=None, **k):
        return a_cumsum(self, axis)

    def nonzero(self):
        return f_nonzero(self)

    def clip(self, lo=None, hi=None, **k):
        return f_clip(self, lo, hi)

    def round(self, decimals=0, **k):
        return f_round(self, decimals)

    def conj(self):
        return elementwise(self, lambda x: x.conjugate(), self.k)

    conjugate = conj

    @property
    def real(self):
        return elementwise(self, lambda x: x.real, "f" if self.k == "c" else self.k)

    @property
    def imag(self):
        return elementwise(self, lambda x: x.imag, "f" if self.k == "c" else self.k)

    def take(self, indices, axis=None, **k):
        return f_take(self, indices, axis)

    def fill(self, v):
        self[...] = v

    def argsort(self, *a, **k):
        return np.argsort(to_concrete(self), *a, **k)

    def sort(self, *a, **k):
        r = np.sort(to_concrete(self), *a, **k)
        self[...] = r

    def searchsorted(self, v, side="left", **k):
        return f_searchsorted(self, v, side)

    def __repr__(self):
        return f"SArr{self.raw()!r}"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sarr>"


for _op, _uf in (("lt", np.less), ("le", np.less_equal), ("gt", np.greater), ("ge", np.greater_equal)):
    def _mk(uf):
        return lambda self, o: uf(self, o)
    setattr(SArr, f"__{_op}__", _mk(_uf))


def wrap(a, k):
    r = np.ndarray.view(a, SArr) if isinstance(a, np.ndarray) else from_list(a)
    r.k = k
    r.depth = len(core.E.guards) if core.E is not None else 0
    return r


def from_list(xs, k=None):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return wrap(a, k or promote(*[kind_of_elem(x) for x in xs]) if len(xs) else (k or "f"))


def scalar(x, k):
    """An element leaving an array."""
    if is_sym(x):
        return x
    if k == "i" and isinstance(x, int):
        return np.int64(x) if -2 ** 63 <= x < 2 ** 63 else x
    if k == "u" and isinstance(x, int):
        return np.uint8(x)
    if k == "f" and isinstance(x, (int, float)):
        return np.float64(x)
    if k == "b" and isinstance(x, bool):
        return np.bool_(x)
    if k == "c" and isinstance(x, (int, float, complex)):
        return np.complex128(x)
    return x


def has_sym(a):
    if is_sym(a):
        return True
    if isinstance(a, SArr):
        return any(is_sym(x) for x in a.raw().ravel())
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    if isinstance(a, np.ndarray) and np.ndarray.dtype.__get__(a) == object:
        return any(is_sym(x) for x in a.ravel())
    return False


def to_real_array(a):
    """Plain ndarray of an SArr without symbolic elements."""
    r = a.raw()
    if any(x is None for x in r.ravel()):
        r = r.copy()
        for i, x in np.ndenumerate(r):
            if x is None:
                r[i] = 0
    if a.k == "O":
        return r
    try:
        return r.astype(DT[a.k])
    except OverflowError:
        return r


def to_concrete(a):
    """Plain ndarray; forks on symbolic elements."""
    if isinstance(a, SArr):
        if has_sym(a):
            r = np.empty(a.shape, dtype=object)
            for i, x in np.ndenumerate(a.raw()):
                r[i] = S.concretise(x) if is_sym(x) else x
            return to_real_array(wrap(r, a.k))
        return to_real_array(a)
    if is_sym(a):
        return S.concretise(a)
    if isinstance(a, (list, tuple)):
        return type(a)(to_concrete(x) for x in a) if type(a) in (list, tuple) else a
    return a


def asarr(x, k=None):
    """SArr of an array-like (may be concrete)."""
    if isinstance(x, SArr):
        return x if k is None or x.k == k else cast(x, k)
    if isinstance(x, np.ndarray):
        kk = kind_of(x)
        o = np.empty(x.shape, dtype=object)
        o[...] = x.tolist() if x.ndim == 0 else x.astype(object)
        r = wrap(o, kk)
    elif isinstance(x, (Sym,)) or np.isscalar(x):
        o = np.empty((), dtype=object)
        o[()] = x
        r = wrap(o, kind_of_elem(x))
    else:
        r = from_nested(x)
    return r if k is None or r.k == k else cast(r, k)


def from_nested(x):
    """np.array semantics for nested sequences holding symbols."""
    def shape(v):
        if isinstance(v, np.ndarray):
            return v.shape
        if isinstance(v, (list, tuple)):
            if not v:
                return (0,)
            ss = [shape(e) for e in v]
            if any(s != ss[0] for s in ss):
                raise ValueError("setting an array element with a sequence. The requested array has an "
                                 "inhomogeneous shape")
            return (len(v),) + ss[0]
        return ()
    if isinstance(x, (range, map, filter)) or hasattr(x, "__next__") or type(x).__name__ in ("dict_keys", "dict_values"):
        x = list(x) if isinstance(x, range) else x
    sh = shape(x)
    o = np.empty(sh, dtype=object)
    kinds = set()

    def fill(v, idx):
        if isinstance(v, np.ndarray):
            kinds.add(kind_of(v))
            flat = v.raw() if isinstance(v, SArr) else v
            for i, e in np.ndenumerate(flat):
                o[idx + i] = e.item() if isinstance(e, np.generic) else e
        elif isinstance(v, (list, tuple)):
            for i, e in enumerate(v):
                fill(e, idx + (i,))
        else:
            kinds.add(kind_of_elem(v))
            o[idx] = v.item() if isinstance(v, np.generic) else v
    fill(x, ())
    return wrap(o, promote(*kinds) if kinds else "f")


def cast(a, k):
    if k is None or a.k == k:
        return a.copy()
    o = np.empty(a.shape, dtype=object)
    r = a.raw()
    for i in np.ndindex(a.shape):
        o[i] = cast_elem(r[i], k)
    return wrap(o, k)


def elementwise(a, f, k):
    r = a.raw()
    o = np.empty(r.shape, dtype=object)
    for i in np.ndindex(r.shape):
        o[i] = f(r[i])
    return wrap(o, k) if o.ndim else scalar(o[()], k)


def unwrap(x):
    return x.raw() if isinstance(x, SArr) else x


# ----------------------------------------------------------------- indexing
def _sym_index(i):
    return is_sym(i) or (isinstance(i, SArr) and has_sym(i)) or (
        isinstance(i, (list, tuple)) and has_sym(i))


def clean_index(i):
    if isinstance(i, tuple):
        return tuple(clean_index(x) for x in i)
    if isinstance(i, SArr):
        return to_real_array(i)
    if isinstance(i, list):
        return [clean_index(x) for x in i]
    return i


def bound_index(i, n):
    """Symbolic index into length n: forks on sign and on being out of range."""
    if isinstance(i, S.SymBool):
        i = i.toint()
    if isinstance(i, S.SymReal):
        return S.concretise(i)
    if i.lo < -n or i.hi >= n:
        bad = B.or_(S.cmp_lt(i, -n), S.not_(S.cmp_lt(i, n)))
        if core.E.decide(bad):
            raise IndexError(f"index is out of bounds for axis with size {n}")
        i = S.clampi(i, -n, n - 1)
    if is_sym(i) and i.lo < 0:
        if core.E.decide(i.sign):
            i = i + n
        i = S.clampi(i, 0, n - 1) if is_sym(i) else i
    return i


def mux_rows(i, rows):
    """rows[i] for a SymInt 0 <= i < len(rows); rows are ndarrays or scalars."""
    bits = i.bits

    def rec(lo, nb):
        if lo >= len(rows):
            return None
        if nb == 0:
            return rows[lo]
        a = rec(lo, nb - 1)
        b = rec(lo + (1 << (nb - 1)), nb - 1)
        if b is None:
            return a
        return ite_any(bits[nb - 1], b, a)
    nb = len(bits)
    return rec(0, nb)


def ite_any(c, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.broadcast_arrays(unwrap(a) if isinstance(a, np.ndarray) else np.array(a, dtype=object),
                                   unwrap(b) if isinstance(b, np.ndarray) else np.array(b, dtype=object))
        o = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            x, y = a[i], b[i]
            o[i] = x if x is y else (y if x is None else x if y is None else ite(c, x, y))
        return o
    if a is None:
        return b
    if b is None:
        return a
    return ite(c, a, b)


def getitem(a, idx):
    if not isinstance(a, SArr):
        if not _sym_index(idx):
            return a[clean_index(idx)]
        k = kind_of(a)
        a = asarr(a)
        a.k = k
    if not _sym_index(idx):
        r = np.ndarray.__getitem__(a, clean_index(idx))
        if isinstance(r, SArr):
            return r
        return scalar(r, a.k)
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = tuple(asarr(list(i)) if isinstance(i, (list, tuple)) else i for i in idx)
    # boolean mask with symbolic entries: data-dependent shape
    if any(isinstance(i, SArr) and i.k == "b" for i in idx) or any(isinstance(i, S.SymBool) for i in idx):
        return getitem(a, tuple(to_concrete(i) if isinstance(i, (SArr, S.SymBool)) else i for i in idx))
    if Ellipsis in [i if i is Ellipsis else None for i in idx]:
        p = next(j for j, i in enumerate(idx) if i is Ellipsis)
        nreal = sum(1 for i in idx if i is not Ellipsis and i is not None)
        idx = idx[:p] + (slice(None),) * (a.ndim - nreal) + idx[p + 1:]
    if None in [i if i is None else 0 for i in idx]:
        return getitem(a, tuple(to_concrete(i) for i in idx))
    raw = a.raw()
    arrs = [j for j, i in enumerate(idx) if isinstance(i, np.ndarray)]
    if not arrs:
        # scalars and slices: resolve symbolic scalars one at a time
        j = max(j for j, i in enumerate(idx) if is_sym(i))
        i = bound_index(idx[j], a.shape[j])
        if not is_sym(i):
            return getitem(a, idx[:j] + (i,) + idx[j + 1:])
        rows = [getitem(a, idx[:j] + (v,) + idx[j + 1:]) for v in range(a.shape[j])]
        rows = [unwrap(r) for r in rows]
        r = mux_rows(i, rows)
        return wrap(r, a.k) if isinstance(r, np.ndarray) else r
    # integer index arrays: broadcast them together (all scalars take part)
    adv = [j for j, i in enumerate(idx) if not isinstance(i, slice)]
    if adv != list(range(adv[0], adv[0] + len(adv))):
        return getitem(a, tuple(to_concrete(i) if isinstance(i, SArr) or is_sym(i) else i for i in idx))
    bc = np.broadcast_arrays(*[unwrap(idx[j]) if isinstance(idx[j], np.ndarray) else np.array(idx[j], dtype=object)
                               for j in adv])
    res = {}
    pre, post = idx[:adv[0]], idx[adv[-1] + 1:]
    out = None
    for pos in np.ndindex(bc[0].shape):
        vals = tuple(b[pos] for b in bc)
        v = getitem(a, pre + tuple(int(x) if not is_sym(x) else x for x in vals) + post)
        res[pos] = v
    shp = bc[0].shape
    sub = np.empty((), dtype=object) if not res else None
    if not res:
        first = np.ndarray.__getitem__(a, pre + (0,) * len(adv) + post)
        ss = first.shape if isinstance(first, np.ndarray) else ()
        return wrap(np.empty(shp + ss, dtype=object), a.k)
    first = next(iter(res.values()))
    ss = first.shape if isinstance(first, np.ndarray) else ()
    o = np.empty(shp + ss, dtype=object)
    for pos, v in res.items():
        if isinstance(v, np.ndarray):
            for q in np.ndindex(ss):
                o[pos + q] = unwrap(v)[q]
        else:
            o[pos] = v.item() if isinstance(v, np.generic) else v
    npre = len(pre)
    pre_nd = npre  # slices keep one axis each
    if pre_nd:
        nb = len(shp)
        # axes: shp + pre slices + post slices -> pre + shp + post
        order = list(range(nb, nb + pre_nd)) + list(range(nb)) + list(range(nb + pre_nd, o.ndim))
        o = o.transpose(order)
    return wrap(o, a.k)


def rel_guard(a):
    """Guard under which a write to a happens, relative to a's creation."""
    g = core.E.guards if core.E is not None else ()
    if len(g) <= a.depth:
        return None
    return B.and_all(g[a.depth:])


def setitem(a, idx, val):
    if not isinstance(a, SArr):
        if has_sym(val) or _sym_index(idx) or (core.E is not None and core.E.guards):
            if isinstance(a, np.ndarray) and np.ndarray.dtype.__get__(a) != object and core.E is not None:
                if core.E.guards:
                    raise core.Restart_site(core.E)
                a[to_concrete(clean(idx))] = to_concrete(val)
                return
        a[clean_index(idx)] = unwrap(val)
        return
    g = rel_guard(a)
    if isinstance(val, (list, tuple)):
        val = asarr(val)
    if isinstance(val, np.ndarray):
        kv = kind_of(val)
        val = asarr(val)
        if kv != a.k:
            val = cast(val, a.k)
        val = val.raw()
        if val.ndim == 0:
            val = val[()]
    else:
        val = cast_elem(val.item() if isinstance(val, np.generic) else val, a.k)
    if not _sym_index(idx):
        ci = clean_index(idx)
        if g is not None:
            old = np.ndarray.__getitem__(a, ci)
            old = unwrap(old) if isinstance(old, np.ndarray) else old
            val = ite_any(g, val, old)
        raw = a.raw()
        if isinstance(val, np.ndarray):
            raw[ci] = val
        else:
            if isinstance(raw[ci], np.ndarray):
                tgt = np.empty(raw[ci].shape, dtype=object)
                tgt.fill(val)
                raw[ci] = tgt
            else:
                raw[ci] = val
        return
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = tuple(asarr(list(i)) if isinstance(i, (list, tuple)) else i for i in idx)
    if len(idx) == 1 and isinstance(idx[0], SArr) and idx[0].k == "b" and idx[0].shape == a.shape \
            and not isinstance(val, np.ndarray):
        m = idx[0].raw()
        raw = a.raw()
        for i in np.ndindex(a.shape):
            c = truth_bit(m[i])
            if g is not None:
                c = B.and_(c, g)
            try:
                raw[i] = ite_any(c, val, raw[i])
            except S.NoMerge:
                if g is not None:
                    raise
                if core.E.decide(c):
                    raw[i] = val
        return
    if any(isinstance(i, SArr) for i in idx) or any(isinstance(i, S.SymBool) for i in idx):
        idx = tuple(to_concrete(i) if isinstance(i, (SArr, S.SymBool)) else i for i in idx)
        return setitem(a, idx, wrap(val, a.k) if isinstance(val, np.ndarray) else val)
    if any(i is None or i is Ellipsis for i in idx):
        if any(i is None for i in idx):
            return setitem(a, tuple(to_concrete(i) for i in idx), val)
        p = next(j for j, i in enumerate(idx) if i is Ellipsis)
        idx = idx[:p] + (slice(None),) * (a.ndim - len(idx) + 1) + idx[p + 1:]
    j = max(j for j, i in enumerate(idx) if is_sym(i))
    i = bound_index(idx[j], a.shape[j])
    if not is_sym(i):
        return setitem(a, idx[:j] + (i,) + idx[j + 1:], wrap(val, a.k) if isinstance(val, np.ndarray) else val)
    rest_sym = any(is_sym(x) for x in idx[:j])
    for v in range(a.shape[j]):
        c = S.cmp_eq(i, v)
        if not c:
            continue
        sub = idx[:j] + (v,) + idx[j + 1:]
        old = getitem(a, sub)
        old = unwrap(old) if isinstance(old, np.ndarray) else old
        new = ite_any(c, val, old)
        setitem(a, sub, wrap(new, a.k) if isinstance(new, np.ndarray) else new)


def clean(i):
    return to_concrete(i) if not isinstance(i, tuple) else tuple(to_concrete(x) for x in i)


def contains_arr(a, x):
    return wrap_bool(B.or_all([truth_bit(e == x) for e in asarr(a).raw().ravel()]))


# ------------------------------------------------------------------- ufuncs
CMP = {np.equal: operator.eq, np.not_equal: operator.ne, np.less: operator.lt, np.less_equal: operator.le,
       np.greater: operator.gt, np.greater_equal: operator.ge}
ARITH = {np.add: operator.add, np.subtract: operator.sub, np.multiply: operator.mul, np.floor_divide: operator.floordiv,
         np.remainder: operator.mod, np.bitwise_and: operator.and_, np.bitwise_or: operator.or_,
         np.bitwise_xor: operator.xor, np.left_shift: operator.lshift, np.right_shift: operator.rshift,
         np.true_divide: None, np.power: operator.pow, np.float_power: operator.pow}


def _truediv(a, b):
    if hasattr(a, "quotient") or hasattr(b, "quotient"):
        return a / b
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            r = np.true_divide(a, b)
        return r.item()
    if not hasattr(b, "im") and not hasattr(a, "im") and (core.E.decide(S.truth_bit(b == 0)) if is_sym(b) else b == 0):
        # numpy gives an infinity or nan
        if core.E.decide(S.truth_bit(a == 0)):
            return math.nan
        return math.inf if core.E.decide(S.truth_bit(a > 0)) else -math.inf
    return a / b


def _min2(a, b):
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    if _products(a, b):
        return b if core.E.decide(truth_bit(b < a)) else a
    return ite(truth_bit(b < a), b, a)


def _products(a, b):
    """Their comparison is worth a fork: a conditional would hide that products cancel."""
    return isinstance(a, S.SymReal) and isinstance(b, S.SymReal) and (B.U.product(a.e) | B.U.product(b.e)) == 1


def _max2(a, b):
    if core.E is not None and core.E.exact_logs:
        from .gexp import peak
        return peak(a, b)
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    if _products(a, b):
        return b if core.E.decide(truth_bit(b > a)) else a
    return ite(truth_bit(b > a), b, a)


def _sign(x):
    if not is_sym(x):
        return (x > 0) - (x < 0)
    if core.E.settle_signs and isinstance(x, S.SymReal):
        for c, v in ((x > 0, 1), (x < 0, -1)):
            if core.E.forced(truth_bit(c)):
                return v
    return ite(truth_bit(x > 0), 1, ite(truth_bit(x < 0), -1, 0))


def _lnot(x):
    return wrap_bool(B.not_(truth_bit(x)))


def _floor(x):
    return S.rfloor(x) if is_sym(x) else float(np.floor(x))


def _ceil(x):
    return -S.rfloor(-x) if is_sym(x) else float(np.ceil(x))


def _pow(a, b):
    if isinstance(a, float) and isinstance(b, int) and b < 0 and a == 0:
        return math.inf
    return a ** b


def _isfin(x):
    return True if is_sym(x) else bool(np.isfinite(x))


UNARY = {np.negative: (operator.neg, None), np.positive: (lambda x: x, None), np.absolute: (abs, "abs"),
         np.logical_not: (_lnot, "b"), np.sign: (_sign, None), np.square: (lambda x: x * x, None),
         np.conjugate: (lambda x: x.conjugate(), None), np.floor: (_floor, None), np.ceil: (_ceil, None),
         np.rint: (lambda x: S.rrint(x), None), np.trunc: (lambda x: S.rtrunc(x), None),
         np.isfinite: (_isfin, "b"), np.isinf: (lambda x: False if is_sym(x) else bool(np.isinf(x)), "b"),
         np.isnan: (lambda x: False if is_sym(x) else bool(np.isnan(x)), "b"),
         np.bitwise_count: (lambda x: x.bit_count(), None),
         np.fabs: (abs, "f")}
BIN2 = {np.minimum: _min2, np.maximum: _max2, np.fmin: _min2, np.fmax: _max2,
        np.logical_and: lambda a, b: wrap_bool(B.and_(truth_bit(a), truth_bit(b))),
        np.logical_or: lambda a, b: wrap_bool(B.or_(truth_bit(a), truth_bit(b))),
        np.logical_xor: lambda a, b: wrap_bool(B.xor(truth_bit(a), truth_bit(b)))}
# transcendental functions: models may be installed by a harness (name -> f)
MODELS = {}
CMODELS = {}  # the same on complex numbers


def pyelem(x):
    return x.item() if isinstance(x, np.generic) else x


def ufunc_dispatch(ufunc, method, inputs, kw):
    out = kw.pop("out", None)
    if method == "__call__":
        r = ufunc_call(ufunc, inputs, kw)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, SArr):
                if o.k in "bui" and kind_of(r) in "fc":
                    raise np._core._exceptions._UFuncOutputCastingError(
                        ufunc, "same_kind", DT[kind_of(r)], DT[o.k], 0)
                setitem(o, Ellipsis, r)
            else:
                o[...] = to_concrete(asarr(r))
            return o
        return r
    if method == "reduce":
        a = asarr(inputs[0])
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        if ufunc is np.add:
            return a_sum(a, axis, keep)
        if ufunc is np.logical_and:
            return a_all(a, axis, keep)
        if ufunc is np.logical_or:
            return a_any(a, axis, keep)
        if ufunc in (np.maximum, np.fmax):
            return a_max(a, axis, keep)
        if ufunc in (np.minimum, np.fmin):
            return a_min(a, axis, keep)
        f = ARITH.get(ufunc) or BIN2.get(ufunc)
        if f is not None:
            ident = {np.multiply: 1, np.bitwise_xor: 0, np.bitwise_or: 0, np.bitwise_and: -1}.get(ufunc)
            if ufunc in (np.bitwise_xor,) and a.k == "b":
                ident = False

            def red(xs):
                xs = list(xs)
                if not xs:
                    return ident
                return functools.reduce(f, xs)
            return reduce_axis(a, axis, keep, red, a.k)
        if ufunc is np.logaddexp and has_sym(a):
            return reduce_axis(a, axis, keep, lambda xs: functools.reduce(MODELS["logaddexp"], xs, -math.inf), "f")
    if method == "outer":
        a, b = asarr(inputs[0]), asarr(inputs[1])
        return ufunc_call(ufunc, (a.reshape(a.shape + (1,) * b.ndim), b), kw)
    if method == "accumulate" and ufunc in ARITH or ufunc in BIN2:
        a = asarr(inputs[0])
        f = ARITH.get(ufunc) or BIN2[ufunc]
        axis = kw.get("axis", 0)
        return along(a, axis, lambda xs: list(itertools.accumulate(xs, f)), a.k)
    # fall back: concretise
    ins = [to_concrete(x) for x in inputs]
    r = getattr(ufunc, method)(*ins, **kw)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        o[...] = r
        return o
    return r


def ufunc_call(ufunc, inputs, kw):
    where = kw.get("where", True)
    if where is not True:
        raise NotImplementedError("ufunc where=")
    dt = kw.get("dtype")
    anysym = any(has_sym(x) for x in inputs)
    if core.E is not None and core.E.exact_logs and ufunc in (np.log, np.exp):
        anysym = True
    if not anysym:
        ins = [to_real_array(x) if isinstance(x, SArr) else x for x in inputs]
        r = getattr(ufunc, "__call__")(*ins, **kw)
        # keep the array symbolic-capable: results of SArr stay SArr
        if isinstance(r, tuple):
            return tuple(asarr(x) if isinstance(x, np.ndarray) and x.ndim else x for x in r)
        if isinstance(r, np.ndarray) and r.ndim:
            k = kind_of(r)
            s = asarr(r)
            s.k = k
            return s
        return r
    if ufunc in UNARY:
        f, k = UNARY[ufunc]
        a = asarr(inputs[0])
        if k == "abs":
            k = "f" if a.k == "c" else a.k
        if ufunc in (np.floor, np.ceil, np.rint, np.trunc) and a.k in "biu":
            k = "f" if ufunc is np.rint else a.k
        return elementwise(a, f, k or a.k)
    if ufunc is np.invert:
        a = asarr(inputs[0])
        if a.k == "b":
            return elementwise(a, _lnot, "b")
        return elementwise(a, operator.invert, a.k)
    ks = [kind_of(x) for x in inputs]
    if ufunc in CMP:
        return binary(CMP[ufunc], inputs, "b")
    if ufunc in BIN2:
        return binary(BIN2[ufunc], inputs, "b" if ufunc.__name__.startswith("logical") else promote(*ks))
    if ufunc is np.divmod:
        return (ufunc_call(np.floor_divide, inputs, {}), ufunc_call(np.remainder, inputs, {}))
    if ufunc in ARITH:
        k = promote(*ks)
        # weak python scalars do not promote uint8 arrays
        if "u" in ks and k == "i":
            nonarr = [i for i, x in enumerate(inputs) if not isinstance(x, np.ndarray) and isinstance(x, int)]
            if nonarr:
                k = "u"
        if ufunc is np.true_divide:
            return binary(_truediv, inputs, promote(k, "f"))
        if ufunc is np.float_power:
            return binary(_pow, inputs, promote(k, "f"))
        f = ARITH[ufunc]
        if k == "b":
            if ufunc is np.add:
                return binary(BIN2[np.logical_or], inputs, "b")
            if ufunc is np.multiply:
                return binary(BIN2[np.logical_and], inputs, "b")
            if ufunc is np.subtract:
                raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
            if ufunc in (np.floor_divide, np.remainder, np.power, np.left_shift, np.right_shift):
                k = "i"
        if ufunc in (np.bitwise_and, np.bitwise_or, np.bitwise_xor, np.left_shift, np.right_shift) and k in "fc":
            raise TypeError(f"ufunc '{ufunc.__name__}' not supported for the input types")
        if ufunc is np.power:
            f = _pow
            if k == "i" and ks[1] in "i":
                f = _ipow
        r = binary(f, inputs, k)
        if k == "u":
            r = cast(asarr(r, "i"), "u") if isinstance(r, np.ndarray) else cast_elem(r, "u")
        return r
    m = MODELS.get(ufunc.__name__)
    if m is not None:
        if len(inputs) == 1 and ufunc.__name__ in CMODELS and asarr(inputs[0]).k == "c":
            return elementwise(asarr(inputs[0]), CMODELS[ufunc.__name__], "c")
        if len(inputs) == 1:
            return elementwise(asarr(inputs[0]), m, "f")
        return binary(m, inputs, "f")
    if ufunc is np.sqrt:
        a = asarr(inputs[0])
        return elementwise(a, _sqrt, "f")
    if ufunc is np.matmul:
        return matmul(*inputs)
    ins = [to_concrete(x) for x in inputs]
    return ufunc(*ins, **kw)


def _sqrt(x):
    if not is_sym(x):
        return math.sqrt(x)
    import z3
    if isinstance(x, S.SymReal) and decided(x < 0):
        return math.nan
    e = S.realval(x)
    r = z3.Real(f"sqrt!{e.get_id()}")
    core.E.add_axiom(z3.Implies(e >= 0, z3.And(r >= 0, r * r == e)))
    return S.SymReal(r)


def _ipow(a, b):
    if not is_sym(a) and not is_sym(b):
        if b < 0:
            raise ValueError("Integers to negative integer powers are not allowed.")
        return a ** b
    return a ** b


def binary(f, inputs, k):
    a, b = inputs
    if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray) \
            and not isinstance(a, (list, tuple)) and not isinstance(b, (list, tuple)):
        return f(pyelem(a), pyelem(b))
    a, b = asarr(a), asarr(b)
    x, y = np.broadcast_arrays(a.raw(), b.raw())
    o = np.empty(x.shape, dtype=object)
    if o.ndim == 1:
        for i in range(o.shape[0]):
            o[i] = f(x[i], y[i])
    else:
        for i in np.ndindex(o.shape):
            o[i] = f(x[i], y[i])
    if o.ndim == 0:
        return scalar(o[()], k)
    return wrap(o, k)


# --------------------------------------------------------------- reductions
def reduce_axis(a, axis, keep, f, k=None):
    raw = a.raw()
    k = k or a.k
    if axis is None:
        r = f(list(raw.ravel()))
        if keep:
            o = np.empty((1,) * raw.ndim, dtype=object)
            o[...] = r
            return wrap(o, k)
        return scalar(r, k)
    axes = axis if isinstance(axis, tuple) else (axis,)
    axes = tuple(x % raw.ndim for x in axes)
    rest = [i for i in range(raw.ndim) if i not in axes]
    t = raw.transpose(rest + list(axes))
    shp = tuple(raw.shape[i] for i in rest)
    o = np.empty(shp, dtype=object)
    for i in np.ndindex(shp):
        o[i] = f(list(t[i].ravel()))
    if keep:
        o = o.reshape(tuple(1 if i in axes else raw.shape[i] for i in range(raw.ndim)))
    return wrap(o, k) if o.ndim else scalar(o[()], k)


def esum(xs):
    if all(S.intlike(x) and not isinstance(x, (float, np.floating)) for x in xs):
        return S.sum_(xs)
    r = 0
    for x in xs:
        r = r + x
    return r


def a_sum(a, axis=None, keepdims=False):
    k = "i" if a.k in "bu" else a.k
    return reduce_axis(a, axis, keepdims, esum, k)


def a_any(a, axis=None, keepdims=False):
    return reduce_axis(a, axis, keepdims, lambda xs: wrap_bool(B.or_all([truth_bit(x) for x in xs])), "b")


def a_all(a, axis=None, keepdims=False):
    return reduce_axis(a, axis, keepdims, lambda xs: wrap_bool(B.and_all([truth_bit(x) for x in xs])), "b")


def _red1(f):
    def g(xs):
        if not xs:
            raise ValueError("zero-size array to reduction operation which has no identity")
        # balanced tree
        while len(xs) > 1:
            xs = [f(xs[i], xs[i + 1]) if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
        return xs[0]
    return g


def a_min(a, axis=None, keepdims=False):
    return reduce_axis(a, axis, keepdims, _red1(_min2))


def a_max(a, axis=None, keepdims=False):
    return reduce_axis(a, axis, keepdims, _red1(_max2))


def _arg(better):
    def g(xs):
        if not xs:
            raise ValueError("attempt to get argmin of an empty sequence")
        items = [(x, i) for i, x in enumerate(xs)]
        while len(items) > 1:
            nxt = []
            for j in range(0, len(items), 2):
                if j + 1 == len(items):
                    nxt.append(items[j])
                    continue
                (x, i), (y, l) = items[j], items[j + 1]
                c = truth_bit(better(y, x))
                if c == ONE:
                    nxt.append((y, l))
                elif not c:
                    nxt.append((x, i))
                elif _products(x, y):
                    nxt.append((y, l) if core.E.decide(c) else (x, i))
                else:
                    try:
                        nxt.append((ite(c, y, x), ite(c, l, i)))
                    except S.NoMerge:
                        nxt.append((y, l) if core.E.decide(c) else (x, i))
            items = nxt
        return items[0][1]
    return g


def _lt(a, b):
    return a < b


def _gt(a, b):
    return a > b


def a_argmin(a, axis=None, keepdims=False):
    return reduce_axis(a, axis, keepdims, _arg(_lt), "i")


def a_argmax(a, axis=None, keepdims=False):
    return reduce_axis(a, axis, keepdims, _arg(_gt), "i")


def along(a, axis, f, k):
    raw = a.raw()
    if axis is None:
        raw = raw.ravel()
        axis = 0
    t = np.moveaxis(raw, axis, -1)
    res = None
    for i in np.ndindex(t.shape[:-1]):
        v = f(list(t[i]))
        if res is None:
            res = np.empty(t.shape[:-1] + (len(v),), dtype=object)
        for j, e in enumerate(v):
            res[i + (j,)] = e
    return wrap(np.moveaxis(res, -1, axis), k)


def a_cumsum(a, axis=None):
    return along(a, axis, lambda xs: list(itertools.accumulate(xs)), "i" if a.k in "bu" else a.k)


# -------------------------------------------------------- linear algebra ops
def edot(xs, ys):
    terms = []
    for x, y in zip(xs, ys):
        if not is_sym(x):
            if x is False or (not isinstance(x, Sym) and x == 0):
                continue
            if x is True or x == 1:
                terms.append(y)
                continue
        if not is_sym(y):
            if y is False or y == 0:
                continue
            if y is True or y == 1:
                terms.append(x)
                continue
        terms.append(x * y)
    return esum(terms) if terms else 0


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    k = promote(a.k, b.k)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    x, y = a.raw(), b.raw()
    if x.shape[-1] != (y.shape[-2] if y.ndim > 1 else y.shape[0]):
        raise ValueError(f"matmul: Input operand 1 has a mismatch in its core dimension 0 ({x.shape} @ {y.shape})")
    sa, sb = a.ndim == 1, b.ndim == 1
    if sa:
        x = x[None, :]
    if sb:
        y = y[:, None]
    bs = np.broadcast_shapes(x.shape[:-2], y.shape[:-2])
    x = np.broadcast_to(x, bs + x.shape[-2:])
    y = np.broadcast_to(y, bs + y.shape[-2:])
    o = np.empty(bs + (x.shape[-2], y.shape[-1]), dtype=object)
    boolean = k == "b"
    for p in np.ndindex(bs):
        for i in range(x.shape[-2]):
            for j in range(y.shape[-1]):
                if boolean:
                    o[p + (i, j)] = wrap_bool(B.or_all([B.and_(truth_bit(u), truth_bit(v))
                                                        for u, v in zip(x[p][i], y[p][:, j])]))
                else:
                    o[p + (i, j)] = edot(x[p][i], y[p][:, j])
    if sa:
        o = o[..., 0, :]
    if sb:
        o = o[..., 0]
    return wrap(o, k) if isinstance(o, np.ndarray) and o.ndim else scalar(o if not isinstance(o, np.ndarray) else o[()], k)


def dot(a, b):
    if not isinstance(a, (np.ndarray, list, tuple)) or not isinstance(b, (np.ndarray, list, tuple)):
        return a * b
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return np.multiply(a, b)
    if b.ndim <= 2:
        if a.ndim <= 2 or b.ndim == 1:
            return matmul(a, b)
        return matmul(a, b)
    return func_fallback(np.dot, (a, b), {})


# ------------------------------------------------------------ array functions
FUNCS = {}


def impl(*fs):
    def d(g):
        for f in fs:
            FUNCS[f] = g
        return g
    return d


STRUCT = {np.reshape, np.ravel, np.transpose, np.moveaxis, np.swapaxes, np.rollaxis, np.expand_dims, np.squeeze,
          np.flip, np.fliplr, np.flipud, np.roll, np.rot90, np.tile, np.repeat, np.broadcast_to, np.concatenate,
          np.stack, np.vstack, np.hstack, np.dstack, np.column_stack, np.split, np.array_split, np.hsplit,
          np.vsplit, np.delete, np.atleast_1d, np.atleast_2d, np.atleast_3d, np.diag, np.diagonal, np.append,
          np.insert, np.block, np.resize, np.tril, np.triu, np.unstack}


def has_none_kind(a):
    return isinstance(a, SArr)


def collect_kinds(args):
    ks = []
    for x in args:
        if isinstance(x, np.ndarray):
            ks.append(kind_of(x))
        elif isinstance(x, (list, tuple)):
            if x and all(not isinstance(e, (np.ndarray, list, tuple)) for e in x):
                ks += [kind_of_elem(e) for e in x]
            else:
                ks += collect_kinds(x)
    return ks


def objarr(x):
    if isinstance(x, SArr):
        return x.raw()
    if isinstance(x, np.ndarray):
        return asarr(x).raw() if np.ndarray.dtype.__get__(x) != object else x
    return x


def deep(x, f):
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(deep(e, f) for e in x)
    return f(x)


def wrap_result(r, k):
    if isinstance(r, np.ndarray):
        if np.ndarray.dtype.__get__(r) == object:
            return wrap(r, k)
        return r
    if isinstance(r, (list, tuple)):
        return type(r)(wrap_result(x, k) for x in r)
    return r


def func_dispatch(func, args, kwargs):
    if not any_symbolic(args) and not any_symbolic(tuple(kwargs.values())):
        # nothing symbolic after all: numpy itself (elements that are komm objects stay objects)
        if not any(isinstance(a, SArr) and a.k == "O" for a in flat_args(args)):
            if kwargs.get("out") is None or not isinstance(kwargs["out"], SArr):
                if func not in (np.copyto, np.put, np.fill_diagonal):
                    return func(*deep(args, real_of), **{k: real_of(v) for k, v in kwargs.items()})
    f = FUNCS.get(func)
    if f is not None:
        if unsupported(f, args, kwargs):
            return func_fallback(func, args, kwargs)
        return f(*args, **kwargs)
    if func in STRUCT:
        if func in (np.delete, np.insert, np.repeat):
            args = (args[0],) + tuple(to_concrete(a) if isinstance(a, SArr) or is_sym(a) else a for a in args[1:2]) + tuple(args[2:])
            ks = [kind_of(args[0])]
        else:
            ks = collect_kinds(args[:1] if func not in (np.append,) else args)
        r = func(*deep(args, objarr_seq), **{k: v for k, v in kwargs.items() if k != "dtype"})
        k = kwargs.get("dtype")
        r = wrap_result(r, promote(*ks) if ks else "O")
        if k is not None:
            r = cast(r, kind_of_dtype(k))
        return r
    return func_fallback(func, args, kwargs)


def flat_args(args):
    for a in args:
        if isinstance(a, (list, tuple)):
            yield from flat_args(a)
        else:
            yield a


def any_symbolic(args):
    return any(is_sym(a) or has_sym(a) or (not isinstance(a, (np.ndarray, int, float, str, bool, type(None), np.generic))
                                           and isinstance(a, LazyNZ)) for a in flat_args(args))


def real_of(x):
    return to_real_array(x) if isinstance(x, SArr) else x


_SIGS = {}


def unsupported(f, args, kwargs):
    """The call does not fit the model's signature (an option that is not modelled)."""
    s = _SIGS.get(f)
    if s is None:
        s = _SIGS[f] = inspect.signature(f)
    try:
        s.bind(*args, **kwargs)
    except TypeError:
        return True
    names = [p.name for p in s.parameters.values() if p.kind == p.VAR_KEYWORD]
    if names:
        known = set(s.parameters)
        return any(k not in known and k not in ("dtype", "casting", "order", "copy", "optimize", "subok") for k in kwargs)
    return False


def objarr_seq(x):
    if isinstance(x, SArr):
        return x.raw()
    if isinstance(x, np.ndarray) and np.ndarray.dtype.__get__(x) != object:
        return asarr(x).raw()
    return x


def func_fallback(func, args, kwargs):
    args = deep(args, to_concrete)
    kwargs = {k: to_concrete(v) if isinstance(v, (SArr, Sym)) else v for k, v in kwargs.items()}
    return func(*args, **kwargs)


@impl(np.sum)
def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if not isinstance(a, np.ndarray) and not isinstance(a, (list, tuple)):
        return a
    return a_sum(asarr(a), axis, keepdims)


@impl(np.prod)
def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return asarr(a).prod(axis, keepdims=keepdims)


@impl(np.any)
def f_any(a, axis=None, out=None, keepdims=False, **kw):
    return a_any(asarr(a), axis, keepdims)


@impl(np.all)
def f_all(a, axis=None, out=None, keepdims=False, **kw):
    return a_all(asarr(a), axis, keepdims)


@impl(np.min, np.amin)
def f_min(a, axis=None, out=None, keepdims=False, **kw):
    return a_min(asarr(a), axis, keepdims)


@impl(np.max, np.amax)
def f_max(a, axis=None, out=None, keepdims=False, **kw):
    return a_max(asarr(a), axis, keepdims)


@impl(np.mean)
def f_mean(a, axis=None, **kw):
    return asarr(a).mean(axis)


@impl(np.argmin)
def f_argmin(a, axis=None, out=None, keepdims=False):
    return a_argmin(asarr(a), axis, keepdims)


@impl(np.argmax)
def f_argmax(a, axis=None, out=None, keepdims=False):
    return a_argmax(asarr(a), axis, keepdims)


@impl(np.cumsum)
def f_cumsum(a, axis=None, **kw):
    return a_cumsum(asarr(a), axis)


@impl(np.count_nonzero)
def f_count_nonzero(a, axis=None, keepdims=False):
    a = asarr(a)
    return reduce_axis(a, axis, keepdims, lambda xs: S.sum_([wrap_bool(truth_bit(x)) for x in xs]), "i")


@impl(np.dot, np.matmul)
def f_dot(a, b, **kw):
    return dot(a, b)


@impl(np.inner)
def f_inner(a, b):
    return dot(a, asarr(b).T) if asarr(b).ndim > 1 else dot(a, b)


@impl(np.vdot)
def f_vdot(a, b):
    return dot(asarr(a).ravel().conj(), asarr(b).ravel())


@impl(np.outer)
def f_outer(a, b, out=None):
    return np.multiply(asarr(a).ravel()[:, None], asarr(b).ravel()[None, :])


@impl(np.kron)
def f_kron(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != 2 or b.ndim != 2:
        return func_fallback(np.kron, (a, b), {})
    r = np.multiply(a[:, None, :, None], b[None, :, None, :])
    return r.reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


@impl(np.tensordot, np.einsum)
def f_einsum(*a, **k):
    return func_fallback(np.einsum if isinstance(a[0], str) else np.tensordot, a, k)


@impl(np.convolve)
def f_convolve(a, v, mode="full"):
    a, v = asarr(a), asarr(v)
    if a.ndim != 1 or v.ndim != 1:
        raise ValueError("object too deep for desired array")
    n, m = a.size, v.size
    if n == 0 or m == 0:
        raise ValueError("a cannot be empty")
    x, y = a.raw(), v.raw()
    if m > n:
        x, y, n, m = y, x, m, n
    full = []
    for k in range(n + m - 1):
        lo, hi = max(0, k - m + 1), min(n, k + 1)
        full.append(edot([x[i] for i in range(lo, hi)], [y[k - i] for i in range(lo, hi)]))
    if mode == "full":
        r = full
    elif mode == "valid":
        r = full[m - 1:n]
    elif mode == "same":
        s = (m - 1) // 2
        r = full[s:s + n]
    else:
        raise ValueError("mode")
    return from_list(r, promote(a.k, v.k))


@impl(np.flatnonzero)
def f_flatnonzero(a):
    a = asarr(a)
    return LazyNZ(list(a.raw().ravel())) if has_sym(a) else np.flatnonzero(to_real_array(a))


class LazyNZ:
    """np.flatnonzero of a symbolic vector: size and first element stay
    symbolic, any other use forks on the entries."""

    def __init__(self, xs):
        self.xs = xs
        self.arr = None

    def force(self):
        if self.arr is None:
            self.arr = np.array([i for i, x in enumerate(self.xs) if bool(x)], dtype=int)
        return self.arr

    @property
    def size(self):
        return S.sum_([wrap_bool(truth_bit(x)) for x in self.xs])

    @property
    def shape(self):
        return self.force().shape

    def __len__(self):
        return len(self.force())

    def __getitem__(self, i):
        if isinstance(i, int) and i == 0 and self.arr is None:
            nz = [truth_bit(x) for x in self.xs]
            if core.E.decide(B.or_all(nz) ^ ONE):
                raise IndexError("index 0 is out of bounds for axis 0 with size 0")
            r = len(nz) - 1
            for j in reversed(range(len(nz) - 1)):
                r = ite(nz[j], j, r)
            return r
        return getitem(self.force(), i)

    def __iter__(self):
        return iter(self.force())

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self.force(), dtype=dtype)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.force(), n)


def f_nonzero(a):
    return np.nonzero(to_concrete(elementwise(asarr(a), lambda x: wrap_bool(truth_bit(x)), "b")))


FUNCS[np.nonzero] = f_nonzero


@impl(np.argwhere)
def f_argwhere(a):
    return np.argwhere(to_concrete(elementwise(asarr(a), lambda x: wrap_bool(truth_bit(x)), "b")))


@impl(np.where)
def f_where(c, *xy):
    if not xy:
        return f_nonzero(c)
    x, y = xy
    ks = promote(kind_of(asarr(x)), kind_of(asarr(y)))
    c, x, y = np.broadcast_arrays(asarr(c).raw(), asarr(x).raw(), asarr(y).raw())
    o = np.empty(c.shape, dtype=object)
    for i in np.ndindex(c.shape):
        b = truth_bit(c[i])
        try:
            o[i] = ite(b, x[i], y[i])
        except S.NoMerge:
            o[i] = x[i] if core.E.decide(b) else y[i]
    return wrap(o, ks)


@impl(np.isin)
def f_isin(a, test, assume_unique=False, invert=False, **kw):
    t = [x for x in asarr(test).raw().ravel()]
    r = elementwise(asarr(a), lambda x: wrap_bool(B.or_all([truth_bit(x == y) for y in t])), "b")
    return np.logical_not(r) if invert else r


@impl(np.array_equal)
def f_array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return a_all(asarr(np.equal(a, b)))


@impl(np.allclose)
def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return a_all(asarr(f_isclose(a, b, rtol, atol)))


@impl(np.isclose)
def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if not is_sym(x) and not is_sym(y):
            return bool(np.isclose(x, y, rtol, atol))
        if S.intlike(x) and S.intlike(y):
            if all(max(abs(p[2]), abs(p[3])) < 1000 for p in (S.parts(x), S.parts(y))):
                return x == y
        return abs(x - y) <= atol + rtol * abs(y)
    return binary(f, (asarr(a), asarr(b)), "b")


@impl(np.clip)
def f_clip(a, a_min=None, a_max=None, out=None, **kw):
    r = a
    if a_min is not None:
        r = np.maximum(r, a_min) if isinstance(r, (np.ndarray, Sym)) else _max2(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max) if isinstance(r, (np.ndarray, Sym)) else _min2(r, a_max)
    return r


@impl(np.round, np.around)
def f_round(a, decimals=0, out=None):
    if decimals != 0:
        return func_fallback(np.round, (a, decimals), {})
    a = asarr(a)
    return elementwise(a, S.rrint, a.k)


@impl(np.angle)
def f_angle(z, deg=False):
    z = asarr(z)
    r = elementwise(z, lambda v: angle(v.imag, v.real) if not isinstance(v, (S.SymReal, S.SymInt)) else angle(0.0, v), "f")
    return r * (180 / math.pi) if deg else r


MODELS["arctan2"] = angle


@impl(np.real)
def f_real(a):
    return asarr(a).real


@impl(np.imag)
def f_imag(a):
    return asarr(a).imag


@impl(np.iscomplexobj)
def f_iscomplexobj(a):
    return kind_of(asarr(a)) == "c"


@impl(np.isrealobj)
def f_isrealobj(a):
    return kind_of(asarr(a)) != "c"


@impl(np.ndim)
def f_ndim(a):
    return asarr(a).ndim


@impl(np.size)
def f_size(a, axis=None):
    a = asarr(a)
    return a.size if axis is None else a.shape[axis]


@impl(np.shape)
def f_shape(a):
    return asarr(a).shape


@impl(np.copy)
def f_copy(a, order="K", subok=False):
    return asarr(a).copy()


@impl(np.take)
def f_take(a, indices, axis=None, **kw):
    a = asarr(a)
    if axis is None:
        return getitem(a.ravel(), indices)
    return getitem(a, (slice(None),) * (axis % a.ndim) + (indices,))


@impl(np.take_along_axis)
def f_take_along_axis(arr, indices, axis=-1):
    arr, indices = asarr(arr), asarr(indices)
    axis %= arr.ndim
    o = np.empty(indices.shape, dtype=object)
    for p in np.ndindex(indices.shape):
        q = tuple(min(x, arr.shape[d] - 1) if d != axis else indices.raw()[p] for d, x in enumerate(p))
        o[p] = pyelem(getitem(arr, q))
    return wrap(o, arr.k)


@impl(np.diff)
def f_diff(a, n=1, axis=-1, **kw):
    a = asarr(a)
    return along(a, axis, lambda xs: [y - x for x, y in zip(xs, xs[1:])], a.k)


@impl(np.bincount)
def f_bincount(x, weights=None, minlength=0):
    a = asarr(x)
    if weights is not None or not has_sym(a):
        return func_fallback(np.bincount, (a,), {"weights": weights, "minlength": minlength})
    xs = [pyelem(e) for e in a.raw()]
    for e in xs:
        if truth_bit(e < 0) and core.E.decide(truth_bit(e < 0)):
            raise ValueError("'list' argument must have no negative elements")
    top = _red1(_max2)(list(xs))
    n = minlength
    if S.parts(top)[3] >= minlength:
        top = S.concretise(_max2(top, minlength - 1)) if is_sym(top) else top
        n = max(minlength, top + 1)
    return from_list([S.sum_([wrap_bool(S.cmp_eq(e, j)) if is_sym(e) else int(e == j) for e in xs])
                      for j in range(n)], "i")


@impl(np.packbits)
def f_packbits(a, axis=None, bitorder="big"):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0

    def f(xs):
        out = []
        for i in range(0, len(xs), 8):
            ch = [truth_bit(x) for x in xs[i:i + 8]]
            ch += [ZERO] * (8 - len(ch))
            if bitorder == "big":
                ch = ch[::-1]
            out.append(S.mkint(ch, ZERO, 0, 255))
        return out
    return along(a, axis, f, "u")


@impl(np.unpackbits)
def f_unpackbits(a, axis=None, count=None, bitorder="big"):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0

    def f(xs):
        out = []
        for x in xs:
            b = S.parts(x)[0]
            b = list(S.ext(b, ZERO, 8))
            if bitorder == "big":
                b = b[::-1]
            out += [S.mkint([q], ZERO, 0, 1) for q in b]
        if count is not None:
            out = out[:count] + [0] * max(0, count - len(out)) if count >= 0 else out[:count]
        return out
    return along(a, axis, f, "u")


@impl(np.searchsorted)
def f_searchsorted(a, v, side="left", sorter=None):
    xs = list(asarr(a).raw())
    op = (lambda t, x: t < x) if side == "left" else (lambda t, x: t <= x)
    return elementwise(asarr(v), lambda x: S.sum_([wrap_bool(truth_bit(op(t, x))) for t in xs]), "i")


@impl(np.digitize)
def f_digitize(x, bins, right=False):
    xs = list(asarr(bins).raw())
    if has_sym(bins):
        inc = B.and_all([truth_bit(p <= q) for p, q in zip(xs, xs[1:])])
        if not core.E.decide(inc):
            dec = B.and_all([truth_bit(p >= q) for p, q in zip(xs, xs[1:])])
            if not core.E.decide(dec):
                raise ValueError("bins must be monotonically increasing or decreasing")
            raise NotImplementedError("decreasing bins")
    elif any(p > q for p, q in zip(xs, xs[1:])):
        return func_fallback(np.digitize, (x, bins, right), {})
    op = (lambda t, e: t < e) if right else (lambda t, e: t <= e)
    return elementwise(asarr(x), lambda e: S.sum_([wrap_bool(truth_bit(op(t, e))) for t in xs]), "i")


@impl(np.empty_like)
def f_empty_like(a, dtype=None, **kw):
    a = asarr(a)
    k = kind_of_dtype(dtype) or a.k
    return new(kw.get("shape") or a.shape, k, None)


@impl(np.zeros_like)
def f_zeros_like(a, dtype=None, **kw):
    a = asarr(a)
    k = kind_of_dtype(dtype) or a.k
    return new(kw.get("shape") or a.shape, k, 0)


@impl(np.ones_like)
def f_ones_like(a, dtype=None, **kw):
    a = asarr(a)
    return new(kw.get("shape") or a.shape, kind_of_dtype(dtype) or a.k, 1)


@impl(np.full_like)
def f_full_like(a, fill_value, dtype=None, **kw):
    a = asarr(a)
    return new(kw.get("shape") or a.shape, kind_of_dtype(dtype) or a.k, fill_value)


def new(shape, k, fill):
    o = np.empty(shape, dtype=object)
    if fill is not None:
        o.fill(cast_elem(fill, k))
    return wrap(o, k)


@impl(np.apply_along_axis)
def f_apply_along_axis(func1d, axis, arr, *args, **kwargs):
    arr = asarr(arr) if not isinstance(arr, np.ndarray) else arr
    axis = axis % arr.ndim
    t = np.moveaxis(arr, axis, -1)
    inds = list(np.ndindex(t.shape[:-1]))
    if not inds:
        raise ValueError("Cannot apply_along_axis when any iteration dimensions are 0")
    rs = [func1d(t[i].copy() if isinstance(t, SArr) else t[i], *args, **kwargs) for i in inds]
    rs0 = rs[0]
    if isinstance(rs0, LazyNZ):
        rs = [r.force() for r in rs]
    arrs = [asarr(r) for r in rs]
    k = kind_of(arrs[0])
    sh = arrs[0].shape
    o = np.empty(t.shape[:-1] + sh, dtype=object)
    for i, r in zip(inds, arrs):
        if r.shape != sh:
            raise ValueError("could not broadcast input array from shape")
        o[i] = r.raw() if sh else pyelem(r.raw()[()])
    if sh:
        n = len(sh)
        nd = o.ndim
        order = list(range(nd - n))
        order = order[:axis] + list(range(nd - n, nd)) + order[axis:]
        o = o.transpose(order)
    if not has_sym_raw(o):
        return to_real_array(wrap(o, k)) if not isinstance(arr, SArr) else wrap(o, k)
    return wrap(o, k)


def has_sym_raw(o):
    return any(is_sym(x) for x in o.ravel())


@impl(np.unique)
def f_unique(a, **kw):
    a = asarr(a)
    if kw or a.k not in ("i", "f"):
        return func_fallback(np.unique, (a,), kw)
    out = []
    for x in a.raw().ravel():
        i = len(out)
        while i and decided(x < out[i - 1]):
            i -= 1
        if not i or not decided(x == out[i - 1]):
            out.insert(i, x)
    o = np.empty(len(out), dtype=object)
    for i, x in enumerate(out):
        o[i] = x
    return wrap(o, a.k)


def decided(c):
    """Truth of a comparison on this path."""
    return core.E.decide(truth_bit(c))


@impl(np.copyto)
def f_copyto(dst, src, **kw):
    if kw.get("where", True) is not True:
        m = kw["where"]
        setitem(dst, Ellipsis, f_where(m, src, dst))
        return
    setitem(dst, Ellipsis, src)


@impl(np.put)
def f_put(a, ind, v, **kw):
    for i, j in enumerate(np.ravel(ind)):
        a.reshape(-1)[j] = v if not isinstance(v, (list, np.ndarray)) else v[i]


@impl(np.fill_diagonal)
def f_fill_diagonal(a, val, wrap=False):
    for i in range(min(a.shape)):
        a[i, i] = val


@impl(np.trace)
def f_trace(a, *r, **k):
    a = asarr(a)
    return esum([a.raw()[i, i] for i in range(min(a.shape))])


@impl(np.sort)
def f_sort(a, axis=-1, **kw):
    a = asarr(a)

    def f(xs):
        xs = list(xs)
        # odd-even transposition network with ite
        n = len(xs)
        for r in range(n):
            for i in range(r % 2, n - 1, 2):
                p, q = xs[i], xs[i + 1]
                xs[i], xs[i + 1] = _min2(p, q), _max2(p, q)
        return xs
    return along(a, axis, f, a.k)


@impl(np.linalg.matrix_power)
def f_matrix_power(a, n):
    r = asarr(np.eye(asarr(a).shape[0], dtype=int))
    for _ in range(n):
        r = matmul(r, a)
    return r


@impl(np.linspace)
def f_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if retstep or np.ndim(start) or np.ndim(stop):
        return func_fallback(np.linspace, (start, stop, num, endpoint, retstep, dtype), {})
    num = int(S.concretise(num))
    start, stop = (pyelem(v) if isinstance(v, np.ndarray) else v for v in (start, stop))
    d = num - 1 if endpoint else num
    o = np.empty(num, dtype=object)
    for i in range(num):
        o[i] = stop if endpoint and i == num - 1 and i else start + i * ((stop - start) / d) if i else start
    r = wrap(o, "f")
    return cast(r, kind_of_dtype(dtype)) if dtype is not None else r


@impl(np.trapezoid)
def f_trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    if y.ndim != 1:
        raise NotImplementedError("trapezoid of a matrix")
    d = dx if x is None else asarr(x)[1:] - asarr(x)[:-1]
    return (d * (y[1:] + y[:-1]) / 2.0).sum()


def _unknowns(tag, a, shape):
    """Fresh reals, the same ones for the same terms."""
    key = "_".join(str(S.realval(v).get_id()) for v in a.raw().ravel())
    o = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        o[i] = S.SymReal(z3.Real(f"{tag}!{key}!" + ".".join(map(str, i))))
    core.E.keep = getattr(core.E, "keep", [])
    core.E.keep += [S.realval(v) for v in a.raw().ravel()]
    return wrap(o, "f")


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    r = 0
    for j in range(n):
        if not is_sym(m[0][j]) and m[0][j] == 0:
            continue
        t = m[0][j] * _det([row[:j] + row[j + 1:] for row in m[1:]])
        r = r - t if j & 1 else r + t
    return r


@impl(np.linalg.det)
def f_det(a):
    return _det([list(r) for r in asarr(a).raw()])


@impl(np.linalg.inv)
def f_inv(a):
    a = asarr(a)
    n = a.shape[0]
    if a.ndim != 2 or a.shape != (n, n):
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    det = f_det(a) if n else 1.0
    if decided(det == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    x = _unknowns("inv", a, (n, n))
    p = matmul(a, x) if n else x
    same = z3.And([S.realval(p[i, j]) == (1 if i == j else 0) for i in range(n) for j in range(n)])
    core.E.add_axiom(z3.Implies(S.realval(det) != 0, same))
    return x


@impl(np.linalg.solve)
def f_solve(a, b):
    return matmul(f_inv(a), asarr(b))


@impl(np.linalg.lstsq)
def f_lstsq(a, b, rcond=None):
    """Any solution of the normal equations (there is always one)."""
    a, b = asarr(a), asarr(b)
    x = _unknowns("lstsq", a, (a.shape[1],))
    t = wrap(a.raw().T.copy(), a.k)
    p, q = matmul(matmul(t, a), x), matmul(t, b)
    for i in range(a.shape[1]):
        core.E.add_axiom(S.realval(p[i]) == S.realval(q[i]))
    return x, None, None, None
