"""Complex numbers with symbolic parts."""
import numpy as np
import z3
from .sym import Sym, is_sym, wrap_bool, truth_bit, SymReal, to_real
from . import bits as B


def mkc(re, im):
    if is_sym(re) or is_sym(im):
        return SymC(re, im)
    return complex(re, im)


def cancel(v):
    """0.0 where a sum of products is identically zero (z times its conjugate)."""
    if isinstance(v, SymReal):
        t = z3.simplify(v.e, som=True)
        if z3.is_rational_value(t) and t.numerator_as_long() == 0:
            return 0.0
    return v


class SymC(Sym):
    __slots__ = ("re", "im")
    iscplx = 1

    def __init__(self, re, im):
        self.re, self.im = re, im

    @property
    def dtype(self):
        return np.dtype(complex)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return mkc(self.re, -self.im)

    conj = conjugate

    def _o(o):
        if isinstance(o, (complex, np.complexfloating, SymC)):
            return o.real, o.imag
        return o, 0

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        r, i = SymC._o(o)
        return mkc(self.re + r, self.im + i)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        r, i = SymC._o(o)
        return mkc(self.re - r, self.im - i)

    def __rsub__(self, o):
        return -(self - o)

    def __neg__(self):
        return mkc(-self.re, -self.im)

    def __pos__(self):
        return self

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        r, i = SymC._o(o)
        return mkc(self.re * r - self.im * i, cancel(self.re * i + self.im * r))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        r, i = SymC._o(o)
        if not is_sym(i) and i == 0:
            return mkc(self.re / r, self.im / r)
        d = r * r + i * i
        return mkc((self.re * r + self.im * i) / d, (self.im * r - self.re * i) / d)

    def __rtruediv__(self, o):
        r, i = SymC._o(o)
        return mkc(r, i) / self if is_sym(r) or is_sym(i) else SymC(r, i) / self

    def __pow__(self, k):
        k = int(k)
        r = 1
        for _ in range(k):
            r = self * r
        return r

    def __abs__(self):
        return SymAbs(self.re * self.re + self.im * self.im)

    def __eq__(self, o):
        r, i = SymC._o(o)
        return wrap_bool(B.and_(truth_bit(self.re == r), truth_bit(self.im == i)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if is_sym(r) else not r

    __hash__ = Sym.__hash__


class SymAbs(Sym):
    """|z| as the square root of a real; supports squaring and comparisons."""
    __slots__ = ("sq",)

    def __init__(self, sq):
        self.sq = sq

    @property
    def dtype(self):
        return np.dtype(float)

    def __pow__(self, k):
        if k == 2:
            return self.sq
        return NotImplemented

    def __mul__(self, o):
        if o is self:
            return self.sq
        if isinstance(o, SymAbs):
            return SymAbs(self.sq * o.sq)
        return NotImplemented

    def _c(name):
        def f(self, o):
            if isinstance(o, SymAbs):
                return getattr(to_real(self.sq), name)(o.sq)
            if isinstance(o, (int, float, np.number)) and o >= 0:
                return getattr(to_real(self.sq), name)(float(o) ** 2)
            return NotImplemented
        return f

    __lt__, __le__, __gt__, __ge__ = _c("__lt__"), _c("__le__"), _c("__gt__"), _c("__ge__")
    __eq__, __ne__ = _c("__eq__"), _c("__ne__")
    __hash__ = Sym.__hash__


class SymAngle(Sym):
    """scale * (angle of x + iy, in (-pi, pi]) + off, compared with constants by the side of
    the line through the origin on which (x, y) lies; anything that needs its integer part
    forks over the sectors.  The sine and cosine of a bound are rounded (1e-16)."""
    __slots__ = ("x", "y", "scale", "off")

    def __init__(self, x, y, scale=1.0, off=0.0):
        self.x, self.y, self.scale, self.off = x, y, scale, off

    @property
    def dtype(self):
        return np.dtype(float)

    @staticmethod
    def _num(o):
        return isinstance(o, (int, float, np.number)) and not isinstance(o, Sym)

    def __mul__(self, o):
        if not self._num(o):
            return NotImplemented
        return SymAngle(self.x, self.y, self.scale * float(o), self.off * float(o)) if o else 0.0

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not self._num(o):
            return NotImplemented
        return SymAngle(self.x, self.y, self.scale / float(o), self.off / float(o))

    def __add__(self, o):
        if not self._num(o):
            return NotImplemented
        return SymAngle(self.x, self.y, self.scale, self.off + float(o))

    __radd__ = __add__

    def __sub__(self, o):
        return self + -o if self._num(o) else NotImplemented

    def __rsub__(self, o):
        return -self + o if self._num(o) else NotImplemented

    def __neg__(self):
        return SymAngle(self.x, self.y, -self.scale, -self.off)

    def __pos__(self):
        return self

    def _at_least(self, c):
        """Bit: angle >= c."""
        import math
        x, y = self.x, self.y
        if c > math.pi:
            return B.ZERO
        if c <= -math.pi:
            return B.ONE
        cross = to_real(y * math.cos(c) - x * math.sin(c))
        if c > 0:
            upper = B.or_(truth_bit(y > 0), B.and_(truth_bit(y == 0), truth_bit(x < 0)))
            return B.and_(upper, truth_bit(cross >= 0))
        return B.not_(B.and_(truth_bit(y < 0), truth_bit(cross < 0)))

    def _above(self, c):
        """Bit: angle > c."""
        import math
        x, y = self.x, self.y
        if c >= math.pi:
            return B.ZERO
        if c < -math.pi:
            return B.ONE
        cross = to_real(y * math.cos(c) - x * math.sin(c))
        if c >= 0:
            upper = B.or_(truth_bit(y > 0), B.and_(truth_bit(y == 0), truth_bit(x < 0)))
            return B.and_(upper, truth_bit(cross > 0))
        return B.not_(B.and_(truth_bit(y < 0), truth_bit(cross <= 0)))

    def _bound(self, o):
        return (float(o) - self.off) / self.scale

    def __ge__(self, o):
        if not self._num(o):
            return NotImplemented
        c = self._bound(o)
        return wrap_bool(self._at_least(c) if self.scale > 0 else B.not_(self._above(c)))

    def __gt__(self, o):
        if not self._num(o):
            return NotImplemented
        c = self._bound(o)
        return wrap_bool(self._above(c) if self.scale > 0 else B.not_(self._at_least(c)))

    def __lt__(self, o):
        r = self.__ge__(o)
        return r if r is NotImplemented else (~r if is_sym(r) else not r)

    def __le__(self, o):
        r = self.__gt__(o)
        return r if r is NotImplemented else (~r if is_sym(r) else not r)

    def __eq__(self, o):
        if not self._num(o):
            return NotImplemented
        return wrap_bool(B.and_(truth_bit(self >= o), truth_bit(self <= o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (~r if is_sym(r) else not r)

    __hash__ = Sym.__hash__

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def floor(self):
        import math
        lo, hi = sorted((self.off - math.pi * self.scale, self.off + math.pi * self.scale))
        a, b = math.floor(lo - 1e-9), math.floor(hi + 1e-9)
        while a < b:
            m = (a + b + 1) // 2
            if bool(self >= m):
                a = m
            else:
                b = m - 1
        return float(a)

    def rint(self):
        r = (self + 0.5).floor()
        if r % 2 and bool(self + 0.5 == r):
            return r - 1
        return r

    def trunc(self):
        return self.floor() if bool(self >= 0) else -((-self).floor())

    def __floor__(self):
        return int(self.floor())

    def __ceil__(self):
        return -int((-self).floor())

    def __round__(self, n=None):
        return int(self.rint())

    def __mod__(self, p):
        if not self._num(p):
            return NotImplemented
        return self - (self / p).floor() * float(p)

    def __floordiv__(self, p):
        return (self / p).floor() if self._num(p) else NotImplemented


def angle(y, x):
    if not is_sym(x) and not is_sym(y):
        return float(np.arctan2(y, x))
    return SymAngle(x, y)
