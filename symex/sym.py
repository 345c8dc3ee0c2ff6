"""Symbolic scalars: SymBool (a Bit), SymInt (two's-complement Bits of unbounded
width, so Python int semantics exactly), SymReal (a z3 real term)."""
import math
import operator
from fractions import Fraction

import numpy as np
import z3

from . import bits as B
from . import core
from .bits import ONE, ZERO, and_, mux, not_, or_, xor


class Sym:
    __slots__ = ()

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import sarr
        return sarr.ufunc_dispatch(ufunc, method, inputs, kw)

    # 0-d array flavour
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, t, copy=True):
        from . import sarr
        return sarr.cast_elem(self, sarr.kind_of_dtype(t))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    conj = conjugate

    def __repr__(self):
        return "<sym>"

    def __format__(self, spec):
        if core.E is None or getattr(core.E, "in_message", False) or not core.E.active:
            return "<sym>"
        return format(concretise(self), spec)

    def __reduce__(self):
        raise TypeError("symbolic value cannot be pickled")

    def __bool__(self):
        return core.E.decide(truth_bit(self))

    def __hash__(self):
        return hash(concretise(self))

    def sum(self, *a, **k):
        return self

    def any(self, *a, **k):
        return wrap_bool(truth_bit(self))

    all = any

    def ravel(self):
        from . import sarr
        return sarr.from_list([self])

    flatten = ravel

    def reshape(self, *s):
        from . import sarr
        return sarr.from_list([self]).reshape(*s)

    def tolist(self):
        return self


def is_sym(x):
    return isinstance(x, Sym)


def wrap_bool(b):
    if not b:
        return False
    if b == ONE:
        return True
    return SymBool(b)


def truth_bit(x):
    """Bit of bool(x) for a scalar."""
    if x is True or x is False:
        return ONE if x else ZERO
    if isinstance(x, SymBool):
        return x.b
    if isinstance(x, SymInt):
        r = x.sign
        for b in x.bits:
            r = or_(r, b)
        return r
    if isinstance(x, SymReal):
        return B.U.from_z3(x.e != 0)
    return ONE if x else ZERO


class SymBool(Sym):
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    @property
    def dtype(self):
        return np.dtype(bool)

    def toint(self):
        return SymInt((self.b,), ZERO, 0, 1)

    def __and__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return wrap_bool(and_(self.b, truth_bit(o)))
        return NotImplemented if _arr(o) else self.toint() & o

    def __or__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return wrap_bool(or_(self.b, truth_bit(o)))
        return NotImplemented if _arr(o) else self.toint() | o

    def __xor__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return wrap_bool(xor(self.b, truth_bit(o)))
        return NotImplemented if _arr(o) else self.toint() ^ o

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return wrap_bool(not_(self.b))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return wrap_bool(not_(xor(self.b, truth_bit(o))))
        return self.toint() == o

    def __ne__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return wrap_bool(xor(self.b, truth_bit(o)))
        return self.toint() != o

    __hash__ = Sym.__hash__

    def __index__(self):
        return int(core.E.decide(self.b))

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())


def _arr(o):
    return isinstance(o, np.ndarray)


def _via_int(name):
    def f(self, o):
        return getattr(self.toint(), name)(o)
    return f


def _via_int1(name):
    def f(self):
        return getattr(self.toint(), name)()
    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "floordiv", "rfloordiv", "mod", "rmod", "truediv",
           "rtruediv", "pow", "rpow", "lshift", "rlshift", "rshift", "rrshift", "lt", "le", "gt", "ge",
           "divmod", "rdivmod"):
    setattr(SymBool, f"__{_n}__", _via_int(f"__{_n}__"))
for _n in ("neg", "pos", "abs"):
    setattr(SymBool, f"__{_n}__", _via_int1(f"__{_n}__"))


# ------------------------------------------------------------------ integers
def const_bits(n):
    if n >= 0:
        w = n.bit_length()
        return tuple(ONE if (n >> i) & 1 else ZERO for i in range(w)), ZERO
    w = (~n).bit_length()
    return tuple(ONE if (n >> i) & 1 else ZERO for i in range(w)), ONE


def is_int(x):
    return isinstance(x, (int, np.integer, np.bool_))


def mkint(bits_, sign, lo=None, hi=None):
    """Normalised SymInt, or a Python int when constant."""
    bits_ = list(bits_)
    if lo is not None and lo >= 0:
        sign = ZERO
    if hi is not None and hi < 0:
        sign = ONE
    if lo is not None and hi is not None:
        w = max(hi.bit_length() if hi >= 0 else 0, (~hi).bit_length() if hi < 0 else 0,
                (~lo).bit_length() if lo < 0 else 0)
        del bits_[w:]
    while bits_ and bits_[-1] == sign:
        bits_.pop()
    if not bits_ or all(not b or b == ONE for b in bits_):
        if not sign or sign == ONE:
            v = sum(1 << i for i, b in enumerate(bits_) if b)
            return v - (1 << len(bits_)) if sign else v
    w = len(bits_)
    l2 = 0 if not sign else -(1 << w)
    h2 = (1 << w) - 1 if sign != ONE else -1
    lo = l2 if lo is None else max(lo, l2)
    hi = h2 if hi is None else min(hi, h2)
    return SymInt(tuple(bits_), sign, lo, hi)


def parts(x):
    """(bits, sign, lo, hi) of an int-like."""
    if isinstance(x, SymInt):
        return x.bits, x.sign, x.lo, x.hi
    if isinstance(x, SymBool):
        return (x.b,), ZERO, 0, 1
    if isinstance(x, (float, np.floating)):
        x = int(x)
    x = int(x)
    b, s = const_bits(x)
    return b, s, x, x


def intlike(o):
    return isinstance(o, (int, np.integer, np.bool_, SymInt, SymBool)) or (
        isinstance(o, (float, np.floating)) and math.isfinite(o) and float(o).is_integer())


def ext(b, s, w):
    return b + (s,) * (w - len(b)) if len(b) < w else b


def bit_length(bits_, off=0):
    """Bit length of the word bits_, plus off."""
    r = 0
    for i, b in enumerate(bits_):
        r = ite_int(b, i + 1, r)
    if off:
        r = add_(r, off)
    if isinstance(r, SymInt):
        r.bl = (bits_, off)
    return r


def has_bl(x, y):
    return type(x) is SymInt and x.bl is not None and type(y) in (int, np.int64)


def keep_bl(r, x, y):
    """r is max(x, y): the bit length of a word with one more bit set."""
    if has_bl(y, x):
        x, y = y, x
    if type(r) is SymInt and has_bl(x, y):
        src, off = x.bl
        k = int(y) - off
        if 1 <= k <= len(src):
            r.bl = (src[:k - 1] + (ONE,) + src[k:], off)


def bl_lt(x, k):
    """x < k for a known bit length."""
    src, off = x.bl
    core.E.last_bl = src
    k -= off
    if k <= 0:
        return ZERO
    r = ZERO
    for b in src[int(k) - 1:]:
        r = or_(b, r)
    return not_(r)


def add_(x, y, neg=False):
    r = add0_(x, y, neg)
    if type(r) is SymInt:
        if has_bl(x, y):
            r.bl = (x.bl[0], x.bl[1] + (-int(y) if neg else int(y)))
        elif not neg and has_bl(y, x):
            r.bl = (y.bl[0], y.bl[1] + int(x))
    return r


def add0_(x, y, neg=False):
    xb, xs, xl, xh = parts(x)
    yb, ys, yl, yh = parts(y)
    if neg:
        yb = tuple(not_(b) for b in yb)
        ys = not_(ys)
        lo, hi = xl - yh, xh - yl
        c = ONE
    else:
        lo, hi = xl + yl, xh + yh
        c = ZERO
    w = max(hi.bit_length() if hi >= 0 else (~hi).bit_length(), (~lo).bit_length() if lo < 0 else 0) + 1
    out = []
    xb, yb = ext(xb, xs, w), ext(yb, ys, w)
    for i in range(w):
        a, b = xb[i], yb[i]
        ab = xor(a, b)
        out.append(xor(ab, c))
        if i < w - 1:
            if not c:
                c = and_(a, b)
            elif c == ONE:
                c = or_(a, b)
            else:
                c = mux(ab, c, a)
    return mkint(out[:-1], out[-1], lo, hi)


def neg_(x):
    return add_(0, x, True)


def mul_(x, y):
    if not isinstance(x, (SymInt, SymBool)):
        x, y = y, x
    if not isinstance(y, (SymInt, SymBool)):
        y = int(y)
        if y == 0:
            return 0
        if y == 1:
            return x.toint() if isinstance(x, SymBool) else x
        if y < 0:
            return neg_(mul_(x, -y))
        acc = None
        i = 0
        while y:
            if y & 1:
                t = shl_const(x, i)
                acc = t if acc is None else add_(acc, t)
            y >>= 1
            i += 1
        return acc
    xb, xs, xl, xh = parts(x)
    yb, ys, yl, yh = parts(y)
    if len(yb) > len(xb):
        return mul_(y, x) if len(xb) < len(yb) else None
    terms = []
    for i, b in enumerate(yb):
        t = mkint([ZERO] * i + [and_(b, c) for c in xb], and_(b, xs))
        terms.append(t)
    if ys:
        i = len(yb)
        t = mkint([ZERO] * i + [and_(ys, c) for c in xb], and_(ys, xs))
        terms.append(neg_(t))
    acc = sum_(terms)
    cs = [xl * yl, xl * yh, xh * yl, xh * yh]
    return clampi(acc, min(cs), max(cs))


def clampi(x, lo, hi):
    if isinstance(x, SymInt):
        return mkint(x.bits, x.sign, max(lo, x.lo), min(hi, x.hi))
    return x


def shl_const(x, k):
    b, s, lo, hi = parts(x)
    return mkint((ZERO,) * k + b, s, lo << k, hi << k)


def shr_const(x, k):
    b, s, lo, hi = parts(x)
    return mkint(b[k:], s, lo >> k, hi >> k)


def sum_(xs):
    """Sum of int-likes; one-bit terms go through a carry-save tree."""
    const = 0
    ones = []
    rest = []
    for x in xs:
        if isinstance(x, SymBool):
            ones.append(x.b)
        elif isinstance(x, SymInt):
            if x.lo >= 0 and len(x.bits) == 1:
                ones.append(x.bits[0])
            else:
                rest.append(x)
        else:
            const += int(x)
    if ones:
        rest.append(popcount_bits(ones))
    # balanced
    while len(rest) > 1:
        rest = [add_(rest[i], rest[i + 1]) if i + 1 < len(rest) else rest[i] for i in range(0, len(rest), 2)]
    if not rest:
        return const
    return add_(rest[0], const) if const else rest[0]


def popcount_bits(ones):
    n = len(ones)
    cols = [list(ones)]
    out = []
    i = 0
    while i < len(cols):
        col = cols[i]
        if i + 1 == len(cols) and len(col) > 1:
            cols.append([])
        while len(col) > 1:
            if len(col) >= 3:
                a, b, c = col.pop(0), col.pop(0), col.pop(0)
                ab = xor(a, b)
                col.append(xor(ab, c))
                cols[i + 1].append(mux(ab, c, a))
            else:
                a, b = col.pop(0), col.pop(0)
                col.append(xor(a, b))
                cols[i + 1].append(and_(a, b))
        out.append(col[0])
        i += 1
    return mkint(out, ZERO, 0, n)


def cmp_lt(x, y):
    """Bit of x < y."""
    xb, xs, xl, xh = parts(x)
    yb, ys, yl, yh = parts(y)
    if xh < yl:
        return ONE
    if xl >= yh:
        return ZERO
    if has_bl(x, y):
        return bl_lt(x, y)
    if has_bl(y, x):
        return not_(bl_lt(y, x + 1))
    w = max(len(xb), len(yb))
    xb, yb = ext(xb, xs, w), ext(yb, ys, w)
    lt = ZERO
    for a, b in zip(xb, yb):
        lt = mux(xor(a, b), b, lt)
    # sign: x<0<=y
    return mux(xor(xs, ys), xs, lt)


def cmp_eq(x, y):
    xb, xs, xl, xh = parts(x)
    yb, ys, yl, yh = parts(y)
    if xh < yl or yh < xl:
        return ZERO
    if has_bl(y, x):
        x, y = y, x
    if has_bl(x, y):
        src, off = x.bl
        k = int(y) - off
        if k < 0 or k > len(src):
            return ZERO
        r = src[k - 1] if k else ONE
        for b in src[k:]:
            r = B.and_(not_(b), r)
        return r
    w = max(len(xb), len(yb))
    xb, yb = ext(xb, xs, w), ext(yb, ys, w)
    return B.and_all([not_(xor(a, b)) for a, b in zip(xb, yb)] + [not_(xor(xs, ys))])


def ite_int(c, x, y):
    xb, xs, xl, xh = parts(x)
    yb, ys, yl, yh = parts(y)
    w = max(len(xb), len(yb))
    xb, yb = ext(xb, xs, w), ext(yb, ys, w)
    return mkint([mux(c, a, b) for a, b in zip(xb, yb)], mux(c, xs, ys), min(xl, yl), max(xh, yh))


def udivmod(x, y):
    """x >= 0, y > 0 (both known from ranges): restoring division."""
    xb, _, xl, xh = parts(x)
    yb, _, yl, yh = parts(y)
    if not isinstance(y, (SymInt, SymBool)):
        y = int(y)
        if y & (y - 1) == 0:
            k = y.bit_length() - 1
            return shr_const(x, k), mkint(xb[:k], ZERO, 0, y - 1)
    if xh < yl:
        return 0, x
    q = []
    r = 0
    for b in reversed(xb):
        r = mkint((b,) + parts(r)[0], ZERO, 0, min(xh, 2 * yh))
        ge = not_(cmp_lt(r, y))
        q.append(ge)
        r = ite_int(ge, add_(r, y, True), r)
        r = clampi(r, 0, yh - 1)
    q.reverse()
    return mkint(q, ZERO, 0, xh // max(yl, 1)), clampi(r, 0, yh - 1)


def divmod_(x, y):
    yb, ys, yl, yh = parts(y)
    if yl <= 0 <= yh:
        if core.E.decide(cmp_eq(y, 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
    if ys:
        if core.E.decide(ys):
            q, r = divmod_(neg_(x), clampi(neg_(y), 1, -yl))
            return q, neg_(r)
        y = clampi(y, 1, yh)
    else:
        y = clampi(y, 1, yh) if isinstance(y, SymInt) else y
    xb, xs, xl, xh = parts(x)
    if xs:
        # floor division of a possibly negative x: x = ~z with z >= 0 when negative
        if not isinstance(y, (SymInt, SymBool)) and int(y) & (int(y) - 1) == 0:
            k = int(y).bit_length() - 1
            return shr_const(x, k), mkint(ext(xb, xs, k)[:k], ZERO, 0, int(y) - 1)
        nx = mkint([xor(b, xs) for b in xb], ZERO, 0, max(xh, ~xl, 0))
        q, r = udivmod(nx, y)
        # x<0: q' = ~q, r' = y-1-r
        qb = parts(q)[0]
        q2 = mkint([xor(b, xs) for b in qb], xs)
        r2 = ite_int(xs, add_(add_(y, 1, True), r, True), r)
        return q2, clampi(r2, 0, yh - 1)
    return udivmod(x, y)


def shift_amount(k):
    """A nonnegative shift amount as Bits; ValueError path if it can be negative."""
    kb, ks, kl, kh = parts(k)
    if ks:
        if core.E.decide(ks):
            raise ValueError("negative shift count")
        return mkint(kb, ZERO, 0, kh)
    return k


def shl_(x, k):
    if not isinstance(k, (SymInt, SymBool)):
        if k < 0:
            raise ValueError("negative shift count")
        return shl_const(x, int(k))
    k = shift_amount(k)
    if not is_sym(k):
        return shl_const(x, k)
    kb, _, kl, kh = parts(k)
    r = x
    for i, b in enumerate(kb):
        if (1 << i) <= kh:
            r = ite_int(b, shl_const(r, 1 << i), r)
    xl, xh = parts(x)[2:]
    return clampi(r, min(xl << kl, xl << kh), max(xh << kh, xh << kl))


def shr_(x, k):
    if not isinstance(k, (SymInt, SymBool)):
        if k < 0:
            raise ValueError("negative shift count")
        return shr_const(x, int(k))
    k = shift_amount(k)
    if not is_sym(k):
        return shr_const(x, k)
    r = x
    kb, _, kl, kh = parts(k)
    for i, b in enumerate(kb):
        if (1 << i) <= kh:
            r = ite_int(b, shr_const(r, 1 << i), r)
    return r


def bitop(f, x, y):
    xb, xs, xl, xh = parts(x)
    yb, ys, yl, yh = parts(y)
    w = max(len(xb), len(yb))
    xb, yb = ext(xb, xs, w), ext(yb, ys, w)
    return mkint([f(a, b) for a, b in zip(xb, yb)], f(xs, ys))


class SymInt(Sym):
    # bl: (bits, c) when the value is known to be the bit length of bits, plus c
    __slots__ = ("bits", "sign", "lo", "hi", "bl")

    def __init__(self, bits_, sign, lo, hi):
        self.bl = None
        self.bits = bits_
        self.sign = sign
        self.lo = lo
        self.hi = hi

    @property
    def dtype(self):
        return np.dtype(int)

    def toint(self):
        return self

    def _bin(f):
        def op(self, o):
            if intlike(o):
                return f(self, o)
            if isinstance(o, (float, np.floating)):
                return NotImplemented if False else _float_op(f.__name__, self, o)
            if isinstance(o, (complex, np.complexfloating)):
                from .cplx import SymC
                return _OPN[f.__name__](SymC(self, 0), o)
            return NotImplemented
        return op

    def _add(self, o):
        return add_(self, o)

    def _sub(self, o):
        return add_(self, o, True)

    def _rsub(self, o):
        return add_(o, self, True)

    def _mul(self, o):
        return mul_(self, o)

    __add__ = __radd__ = _bin(_add)
    __sub__ = _bin(_sub)
    __rsub__ = _bin(_rsub)
    __mul__ = __rmul__ = _bin(_mul)

    def _floordiv(self, o):
        return divmod_(self, o)[0]

    def _mod(self, o):
        return divmod_(self, o)[1]

    def _rfloordiv(self, o):
        return divmod_(o, self)[0]

    def _rmod(self, o):
        return divmod_(o, self)[1]

    __floordiv__ = _bin(_floordiv)
    __mod__ = _bin(_mod)
    __rfloordiv__ = _bin(_rfloordiv)
    __rmod__ = _bin(_rmod)

    def __divmod__(self, o):
        return divmod_(self, o) if intlike(o) else NotImplemented

    def __rdivmod__(self, o):
        return divmod_(o, self) if intlike(o) else NotImplemented

    def __truediv__(self, o):
        if intlike(o) and not is_sym(o) and o in (1, -1):
            return self * int(o)
        return to_real(self) / o if not _arr(o) else NotImplemented

    def __rtruediv__(self, o):
        return o / to_real(self) if not _arr(o) else NotImplemented

    def _and(self, o):
        return bitop(and_, self, o)

    def _or(self, o):
        return bitop(or_, self, o)

    def _xor(self, o):
        return bitop(xor, self, o)

    __and__ = __rand__ = _bin(_and)
    __or__ = __ror__ = _bin(_or)
    __xor__ = __rxor__ = _bin(_xor)

    def _lsh(self, o):
        return shl_(self, o)

    def _rlsh(self, o):
        return shl_(o, self)

    def _rsh(self, o):
        return shr_(self, o)

    def _rrsh(self, o):
        return shr_(o, self)

    __lshift__ = _bin(_lsh)
    __rlshift__ = _bin(_rlsh)
    __rshift__ = _bin(_rsh)
    __rrshift__ = _bin(_rrsh)

    def __invert__(self):
        return mkint([not_(b) for b in self.bits], not_(self.sign), ~self.hi, ~self.lo)

    def __neg__(self):
        return neg_(self)

    def __pos__(self):
        return self

    def __abs__(self):
        if not self.sign:
            return self
        return clampi(ite_int(self.sign, neg_(self), self), 0, max(abs(self.lo), abs(self.hi)))

    def __pow__(self, e, m=None):
        if m is not None:
            return pow(concretise(self), concretise(e), m)
        if isinstance(e, (float, np.floating)):
            if not float(e).is_integer():
                return to_real(self) ** e
            e = int(e)
        if _arr(e):
            return NotImplemented
        if is_sym(e):
            e = concretise(e)
        e = int(e)
        if e < 0:
            return to_real(self) ** e
        r = 1
        b = self
        while e:
            if e & 1:
                r = r * b
            e >>= 1
            if e:
                b = b * b
        return r

    def __rpow__(self, base):
        if _arr(base):
            return NotImplemented
        if intlike(base) and not is_sym(base):
            base = int(base)
            if base == -1:
                lsb = ext(self.bits, self.sign, 1)[0]
                return mkint([ONE], lsb, -1, 1)
            if base == 1:
                return 1
            if self.lo >= 0:
                if base == 2:
                    return shl_(1, self)
                r = 1
                for i, b in enumerate(self.bits):
                    r = r * ite_int(b, base ** (1 << i), 1)
                return r
        return base ** concretise(self)

    def _cmp(f):
        def op(self, o):
            if intlike(o):
                return wrap_bool(f(self, o))
            if isinstance(o, (float, np.floating)):
                return _float_op(f.__name__, self, o)
            return NotImplemented
        return op

    def _lt(self, o):
        return cmp_lt(self, o)

    def _gt(self, o):
        return cmp_lt(o, self)

    def _le(self, o):
        return not_(cmp_lt(o, self))

    def _ge(self, o):
        return not_(cmp_lt(self, o))

    __lt__ = _cmp(_lt)
    __gt__ = _cmp(_gt)
    __le__ = _cmp(_le)
    __ge__ = _cmp(_ge)

    def __eq__(self, o):
        if intlike(o):
            return wrap_bool(cmp_eq(self, o))
        if isinstance(o, (float, np.floating)):
            return False
        if isinstance(o, (complex, np.complexfloating)):
            return (self == o.real) if o.imag == 0 else False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return ~r if isinstance(r, SymBool) else not r

    __hash__ = Sym.__hash__

    def __index__(self):
        return concretise(self)

    __int__ = __index__

    def __float__(self):
        return float(concretise(self))

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    __ceil__ = __floor__

    def __round__(self, n=None):
        return self

    def is_integer(self):
        return True

    # int methods
    def bit_length(self):
        x = abs(self)
        if not is_sym(x):
            return x.bit_length()
        return bit_length(x.bits)

    def bit_count(self):
        x = abs(self)
        if not is_sym(x):
            return x.bit_count()
        return popcount_bits(list(x.bits))

    def to_bytes(self, *a, **k):
        return concretise(self).to_bytes(*a, **k)

    def view(self, *a):
        return self


_OPN = {"_add": operator.add, "_sub": operator.sub, "_mul": operator.mul, "_rsub": lambda a, b: b - a}


def _float_op(name, x, o):
    """SymInt against a non-integral or infinite/nan float."""
    o = float(o)
    if math.isinf(o) or math.isnan(o):
        if name in ("_lt", "_le"):
            return o > 0
        if name in ("_gt", "_ge"):
            return o < 0
        if name == "_add":
            return o
        if name == "_sub":
            return -o
        if name == "_rsub":
            return o
        if name == "_mul":
            if x.lo > 0:
                return o
            if x.hi < 0:
                return -o
            if core.E.decide(truth_bit(x)):
                return o if not core.E.decide(x.sign) else -o
            return float("nan")
        return NotImplemented
    r = to_real(x)
    return {"_add": r.__add__, "_sub": r.__sub__, "_rsub": r.__rsub__, "_mul": r.__mul__, "_lt": r.__lt__,
            "_le": r.__le__, "_gt": r.__gt__, "_ge": r.__ge__, "_mod": r.__mod__,
            "_floordiv": r.__floordiv__}.get(name, lambda o: NotImplemented)(o)


def concretise(x):
    """Concrete value of x on this path; forks over all feasible values."""
    if isinstance(x, SymInt):
        e = core.E
        if x.bl is not None:
            src, off = x.bl
            for i in reversed(range(len(src))):
                if e.decide(src[i]):
                    return i + 1 + off
            return off
        s = 1 if e.decide(x.sign) else 0
        v = 0
        for i in reversed(range(len(x.bits))):
            if e.decide(x.bits[i]):
                v |= 1 << i
        return v - (1 << len(x.bits)) if s else v
    if isinstance(x, SymBool):
        return bool(core.E.decide(x.b))
    if isinstance(x, SymReal):
        return concretise_real(x)
    return x


# --------------------------------------------------------------------- reals
def realval(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, (SymInt, SymBool)):
        return to_real(x).e
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    f = Fraction(float(x))
    return z3.RealVal(str(f))


def bit_z3(b):
    """z3 Bool of a Bit (used inside real terms)."""
    if not b:
        return z3.BoolVal(False)
    if b == ONE:
        return z3.BoolVal(True)
    if len(b) == 1:
        (n,) = b
        k = B.U.kind[n]
        if k[0] == "z3":
            return k[1]
    if len(b) == 2 and 0 in b:
        return z3.Not(bit_z3(b ^ ONE))
    B.U.has_real = True
    l = core.E.cnf.bit(b)
    v = core._boolvar(abs(l))
    return v if l > 0 else z3.Not(v)


def to_real(x):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymBool):
        return SymReal(z3.If(bit_z3(x.b), z3.RealVal(1), z3.RealVal(0)))
    if isinstance(x, SymInt):
        e = z3.Sum([z3.If(bit_z3(b), z3.RealVal(1 << i), z3.RealVal(0)) for i, b in enumerate(x.bits)]
                   + ([z3.If(bit_z3(x.sign), z3.RealVal(-(1 << len(x.bits))), z3.RealVal(0))] if x.sign else []))
        return SymReal(e)
    return SymReal(realval(x))


def num(e):
    """A z3 numeral as Fraction, else None."""
    if z3.is_rational_value(e):
        return e.as_fraction()
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


def mkreal(e):
    e = z3.simplify(e)
    n = num(e)
    if n is not None:
        f = float(n)
        if Fraction(f) == n:
            return f
    return SymReal(e)


# Intervals of real terms, from the declared ranges of the inputs.
RANGES = {}      # name of a real input -> (lo, hi), None: unbounded
_IV = {}


def reset_ranges():
    RANGES.clear()
    _IV.clear()


def interval(e):
    k = e.get_id()
    r = _IV.get(k)
    if r is None:
        todo = [e]
        while todo:
            t = todo[-1]
            if t.get_id() in _IV:
                todo.pop()
                continue
            cs = t.children()
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                cs = cs[1:]
            elif not any(z3.is_app_of(t, o) for o in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_TO_REAL)):
                cs = []
            more = [c for c in cs if c.get_id() not in _IV]
            if more:
                todo.extend(more)
                continue
            _IV[t.get_id()] = (t,) + _interval1(t, [_IV[c.get_id()][1:] for c in cs])
            todo.pop()
        r = _IV[k]
    return r[1:]


def _interval1(t, cs):
    n = num(t)
    if n is not None:
        return n, n
    if z3.is_const(t):
        return RANGES.get(str(t), (None, None))
    if not cs:
        return None, None
    kd = t.decl().kind()
    los, his = [c[0] for c in cs], [c[1] for c in cs]
    if kd == z3.Z3_OP_ITE:
        return (None if None in los else min(los)), (None if None in his else max(his))
    if kd == z3.Z3_OP_ADD:
        return (None if None in los else sum(los)), (None if None in his else sum(his))
    if kd == z3.Z3_OP_SUB:
        lo, hi = cs[0]
        for a, b in cs[1:]:
            lo = None if lo is None or b is None else lo - b
            hi = None if hi is None or a is None else hi - a
        return lo, hi
    if kd == z3.Z3_OP_UMINUS:
        lo, hi = cs[0]
        return (None if hi is None else -hi), (None if lo is None else -lo)
    if kd == z3.Z3_OP_MUL:
        lo, hi = cs[0]
        for a, b in cs[1:]:
            if None in (lo, hi, a, b):
                if lo == hi and lo is not None:
                    lo, hi, a, b = a, b, lo, hi
                if a == b and a is not None:
                    x = None if lo is None else lo * a
                    y = None if hi is None else hi * a
                    lo, hi = (x, y) if a > 0 else (y, x) if a < 0 else (Fraction(0), Fraction(0))
                    continue
                return None, None
            ps = [lo * a, lo * b, hi * a, hi * b]
            lo, hi = min(ps), max(ps)
        return lo, hi
    if kd == z3.Z3_OP_TO_REAL:
        return cs[0]
    return None, None


def by_interval(name, a, b):
    """Truth of a <op> b where the intervals settle it, else None."""
    la, ha = interval(a)
    lb, hb = interval(b)
    lt = ha is not None and lb is not None and ha < lb
    le = ha is not None and lb is not None and ha <= lb
    gt = la is not None and hb is not None and la > hb
    ge = la is not None and hb is not None and la >= hb
    if name == "_lt":
        return True if lt else False if ge else None
    if name == "_le":
        return True if le else False if gt else None
    if name == "_gt":
        return True if gt else False if le else None
    if name == "_ge":
        return True if ge else False if lt else None
    if name == "_eq":
        return False if lt or gt else None
    if name == "_ne":
        return True if lt or gt else None
    return None


def reallike(o):
    return isinstance(o, (int, float, np.integer, np.floating, np.bool_, Sym, Fraction)) and not (
        getattr(o, "iscplx", 0) or getattr(o, "quotient", 0))


class SymReal(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def dtype(self):
        return np.dtype(float)

    def _bin(f):
        def op(self, o):
            if isinstance(o, (float, np.floating)) and not math.isfinite(o):
                return _inf_op(f.__name__, self, float(o))
            if reallike(o):
                return f(self, o)
            if isinstance(o, (complex, np.complexfloating)):
                from .cplx import SymC
                return _OPN[f.__name__](SymC(self, 0), o)
            return NotImplemented
        return op

    def _add(self, o):
        return mkreal(self.e + realval(o))

    def _sub(self, o):
        return mkreal(self.e - realval(o))

    def _rsub(self, o):
        return mkreal(realval(o) - self.e)

    def _mul(self, o):
        if o is self and self.e.get_id() in B.U.absof:
            self = o = B.U.absof[self.e.get_id()][1]
        return mkreal(self.e * realval(o))

    def _truediv(self, o):
        v = realval(o)
        n = num(v)
        if n == 0:
            raise ZeroDivisionError("symbolic real divided by zero")
        if n is None and core.E.decide(B.U.from_z3(v == 0)):
            raise ZeroDivisionError("symbolic real division by zero")
        return mkreal(self.e / v)

    def _rtruediv(self, o):
        if core.E.decide(B.U.from_z3(self.e == 0)):
            raise ZeroDivisionError("symbolic real division by zero")
        return mkreal(realval(o) / self.e)

    __add__ = __radd__ = _bin(_add)
    __sub__ = _bin(_sub)
    __rsub__ = _bin(_rsub)
    __mul__ = __rmul__ = _bin(_mul)
    __truediv__ = _bin(_truediv)
    __rtruediv__ = _bin(_rtruediv)

    def _floordiv(self, o):
        return rfloor(self / o)

    def _mod(self, o):
        return self - o * rfloor(self / o)

    __floordiv__ = _bin(_floordiv)
    __mod__ = _bin(_mod)

    def __neg__(self):
        return mkreal(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        if core.E.normal_forms:
            # differences of equal polynomials vanish
            t = z3.simplify(self.e, som=True)
            if num(t) is not None:
                return abs(mkreal(t))
        lo, hi = interval(self.e)
        if lo is not None and lo >= 0:
            return self
        if hi is not None and hi <= 0:
            return -self
        if core.E.settle_signs:
            v = core.E.forced(B.U.from_z3(self.e >= 0))
            if v is not None:
                return self if v else -self
        r = mkreal(z3.If(self.e < 0, -self.e, self.e))
        B.U.absof[r.e.get_id()] = (r.e, self)
        return r

    def __pow__(self, k):
        if _arr(k):
            return NotImplemented
        k = concretise(k)
        if float(k).is_integer():
            k = int(k)
            r = 1.0
            if not k & 1 and self.e.get_id() in B.U.absof:
                self = B.U.absof[self.e.get_id()][1]
            for _ in range(abs(k)):
                r = self * r
            return r if k >= 0 else 1.0 / r
        raise NotImplementedError("symbolic real to a fractional power")

    def __rpow__(self, o):
        if not whole(self.e):
            raise NotImplementedError("symbolic real exponent")
        return o ** int(concretise_real(self))

    def _cmp(f):
        def op(self, o):
            if isinstance(o, (float, np.floating)) and not math.isfinite(o):
                return _inf_op(f.__name__, self, float(o))
            if reallike(o):
                o = realval(o)
                r = by_interval(f.__name__, self.e, o)
                if r is not None:
                    return r
                s = _undivide(self.e, o)
                return wrap_bool(B.U.from_z3(f(self, o) if s is None else f(SymReal(s[0]), s[1])))
            return NotImplemented
        return op

    def _lt(self, o):
        return self.e < o

    def _le(self, o):
        return self.e <= o

    def _gt(self, o):
        return self.e > o

    def _ge(self, o):
        return self.e >= o

    def _eq(self, o):
        return self.e == o

    def _ne(self, o):
        return self.e != o

    __lt__ = _cmp(_lt)
    __le__ = _cmp(_le)
    __gt__ = _cmp(_gt)
    __ge__ = _cmp(_ge)
    __eq__ = _cmp(_eq)
    __ne__ = _cmp(_ne)
    __hash__ = Sym.__hash__

    def __float__(self):
        return float(concretise_real(self))

    def __int__(self):
        return int(concretise_real(rtrunc(self)))

    def __index__(self):
        if not whole(self.e):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(concretise_real(self))

    def __floor__(self):
        return rfloor(self)

    def __ceil__(self):
        return -rfloor(-self)

    def __trunc__(self):
        return rtrunc(self)

    def __round__(self, n=None):
        return rrint(self)

    def is_integer(self):
        return wrap_bool(B.U.from_z3(z3.IsInt(self.e)))


def whole(e):
    """Is the term an integer by the way it is made?"""
    n = num(e)
    if n is not None:
        return n.denominator == 1
    if z3.is_to_real(e):
        return True
    if z3.is_add(e) or z3.is_mul(e) or z3.is_sub(e) or z3.is_app_of(e, z3.Z3_OP_UMINUS):
        return all(whole(c) for c in e.children())
    return z3.is_app_of(e, z3.Z3_OP_ITE) and whole(e.arg(1)) and whole(e.arg(2))


def _undivide(a, b):
    """Two quotients by the same positive or negative number, without the division."""
    d = a.arg(1) if z3.is_div(a) else b.arg(1) if z3.is_div(b) else None
    if d is None or num(d) is not None:
        return None
    out = []
    for x in (a, b):
        if z3.is_div(x) and x.arg(1).eq(d):
            out.append(x.arg(0))
        elif num(x) is not None:
            out.append(x * d)
        else:
            return None
    pos = core.E.forced(B.U.from_z3(d > 0))
    return None if pos is None else tuple(out) if pos else tuple(out[::-1])


def _inf_op(name, x, o):
    if math.isnan(o):
        return {"_lt": False, "_le": False, "_gt": False, "_ge": False, "_eq": False, "_ne": True}.get(name, o)
    if name in ("_lt", "_le"):
        return o > 0
    if name in ("_gt", "_ge"):
        return o < 0
    if name == "_eq":
        return False
    if name == "_ne":
        return True
    if name in ("_add", "_rsub"):
        return o
    if name == "_sub":
        return -o
    if name == "_truediv":
        return 0.0
    if name == "_mul":
        if core.E.decide(truth_bit(x == 0)):
            return math.nan
        return o if core.E.decide(truth_bit(x > 0)) else -o
    return NotImplemented


def rfloor(x):
    if not is_sym(x):
        return math.floor(x)
    if isinstance(x, (SymInt, SymBool)):
        return x
    if not isinstance(x, SymReal):
        return x.floor()
    return mkreal(z3.ToReal(z3.ToInt(x.e)))


def rtrunc(x):
    if not isinstance(x, SymReal):
        if hasattr(x, "rint") and is_sym(x):
            return x.trunc()
        return x if is_sym(x) else math.trunc(x)
    return mkreal(z3.If(x.e >= 0, z3.ToReal(z3.ToInt(x.e)), -z3.ToReal(z3.ToInt(-x.e))))


def rrint(x):
    """Round half to even."""
    if not isinstance(x, SymReal):
        if is_sym(x) and not isinstance(x, (SymInt, SymBool)):
            return x.rint()
        return x if is_sym(x) else float(np.rint(x))
    h = x.e + z3.Q(1, 2)
    n = z3.ToInt(h)
    return mkreal(z3.If(z3.And(z3.ToReal(n) == h, n % 2 == 1), z3.ToReal(n) - 1, z3.ToReal(n)))


def concretise_real(x):
    """Forks over the values of a real term until none is left."""
    e = core.E
    if isinstance(x, (SymInt, SymBool)):
        return concretise(x)
    if not is_sym(x):
        return x
    for _ in range(4096):
        n = e.decide_value(x.e)
        if n is not None:
            return float(n) if n.denominator != 1 else int(n)
    raise core.Budget("too many values in concretise_real")


# ----------------------------------------------------------------------- ite
def ite(c, a, b):
    """c: Bit or bool-like scalar."""
    if not isinstance(c, frozenset):
        c = truth_bit(c)
    if c == ONE or a is b:
        return a
    if not c:
        return b
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return wrap_bool(mux(c, truth_bit(a), truth_bit(b)))
    if intlike(a) and intlike(b):
        r = ite_int(c, a, b)
        return r
    if reallike(a) and reallike(b):
        for v in (a, b):
            if isinstance(v, (float, np.floating)) and not math.isfinite(v):
                raise NoMerge
        return mkreal(z3.If(bit_z3(c), realval(a), realval(b)))
    from .cplx import SymC
    if isinstance(a, (SymC, complex, np.complexfloating)) or isinstance(b, (SymC, complex, np.complexfloating)):
        return SymC(ite(c, a.real, b.real), ite(c, a.imag, b.imag))
    raise NoMerge


class NoMerge(Exception):
    pass
