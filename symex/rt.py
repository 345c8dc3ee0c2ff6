"""Run-time helpers called by the transformed komm sources (name `_sx_`)."""
import builtins
import functools
import math
import operator

import numpy as np

from . import bits as B
from . import core
from . import sarr as A
from . import sym as S
from .bits import ONE, and_ as band
from .core import PathEnd, Restart, Restart_site
from .cplx import SymC
from .sarr import SArr
from .sym import Sym, is_sym, truth_bit, wrap_bool


def on():
    e = core.E
    return e is not None and e.active


# -------------------------------------------------------------------- merging
class _Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = _Unbound()
ATOMIC = (str, bytes, type(None), type, builtins.range, type(len), type(lambda: 0))


class NoMerge(S.NoMerge):
    pass


def merge_value(c, a, b):
    """Value that is a where Bit c holds and b elsewhere."""
    if a is b:
        return a
    if a is UNBOUND or b is UNBOUND:
        raise NoMerge
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            raise NoMerge
        if not isinstance(a, SArr) and not isinstance(b, SArr):
            if a.dtype == b.dtype and np.array_equal(a, b):
                pass
            if a.dtype == object:
                raise NoMerge
        ka, kb = A.kind_of(a), A.kind_of(b)
        if ka != kb:
            raise NoMerge
        x, y = A.asarr(a).raw(), A.asarr(b).raw()
        o = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            o[i] = A.ite_any(c, x[i], y[i]) if not (ka == "O") else merge_value(c, x[i], y[i])
        r = A.wrap(o, ka)
        r.merged = cur_site()
        return r
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        raise NoMerge
    if isinstance(a, Sym) or isinstance(b, Sym) or isinstance(a, (int, float, complex, np.generic)):
        if isinstance(b, (Sym, int, float, complex, np.generic)):
            ba, bb = isinstance(a, (bool, np.bool_, S.SymBool)), isinstance(b, (bool, np.bool_, S.SymBool))
            fa, fb = (isinstance(v, (float, np.floating, S.SymReal)) for v in (a, b))
            if ba != bb or fa != fb:
                if not is_sym(a) and not is_sym(b) and a == b and ba == bb:
                    pass
                elif ba != bb:
                    raise NoMerge
            if not is_sym(a) and not is_sym(b) and type(a) is type(b) and a == b:
                return a
            return S.ite(c, A.pyelem(a), A.pyelem(b))
        raise NoMerge
    if type(a) is not type(b):
        raise NoMerge
    if isinstance(a, (str, bytes)):
        if a == b:
            return a
        raise NoMerge
    if isinstance(a, ATOMIC):
        raise NoMerge
    if type(a) is tuple:
        if len(a) != len(b):
            raise NoMerge
        return tuple(merge_value(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (list, dict, set, frozenset)):
        raise NoMerge
    if getattr(type(a), "__module__", "").startswith("komm"):
        da, db = getattr(a, "__dict__", None), getattr(b, "__dict__", None)
        if da is None or db is None or da.keys() != db.keys():
            raise NoMerge
        if a.__class__.__name__ not in VALUE_CLASSES:
            raise NoMerge
        new = object.__new__(type(a))
        for k in da:
            new.__dict__[k] = merge_value(c, da[k], db[k])
        return new
    raise NoMerge


# immutable value objects: attributes are never reassigned after construction
VALUE_CLASSES = {"BinaryPolynomial", "FiniteBifieldElement", "BinaryPolynomialFraction", "Integer",
                 "BinaryPolynomials", "FiniteBifield", "Integers", "BinaryPolynomialFractions"}


def cur_site():
    st = core.E.site_stack
    return st[-1] if st else None


class Merge:
    """A two-way region whose condition stays symbolic."""
    __slots__ = ("c", "site")

    def __init__(self, c, site):
        self.c = c
        self.site = site


def cond(v, site, feas=False):
    """Truth of v for a mergeable region: True, False or a Merge."""
    if not on():
        return True if v else False
    if not is_sym(v):
        if isinstance(v, SArr):
            if v.size != 1:
                raise ValueError("The truth value of an array with more than one element is ambiguous.")
            v = v.raw().ravel()[0]
            if not is_sym(v):
                return bool(v)
        elif isinstance(v, A.LazyNZ):
            return bool(v.force())
        else:
            v = obj_truth(v)
            if not is_sym(v):
                return True if v else False
    b = truth_bit(v)
    e = core.E
    if not b:
        return False
    if b == ONE or b in e.pcset:
        return True
    nb = b ^ ONE
    if nb in e.pcset:
        return False
    for g in e.guards:
        if g == b:
            return True
        if g == nb:
            return False
    if site in e.nomerge or (feas == 1 and e.fork_returns and not e.guards):
        return e.decide(b)
    if feas:
        f1 = e.feasible(b)
        if not f1:
            return False
        if not e.feasible(nb):
            return True
    e.stats.merges += 1
    return Merge(b, site)


def obj_truth(v):
    """bool(v) for an object that may define a Python-level __len__/__bool__."""
    return v


def push(m, neg=False):
    e = core.E
    e.guards.append(m.c ^ ONE if neg else m.c)
    e.site_stack.append(m.site)


def pop():
    e = core.E
    e.guards.pop()
    e.site_stack.pop()


def fail(m, exc=None):
    """Give up merging at this site."""
    core.E.nomerge.add(m.site)
    raise Restart(m.site)


def dead(m, neg=False):
    """True when the branch is unreachable (its exception does not count)."""
    b = m.c ^ ONE if neg else m.c
    return not core.E.feasible(b)


def merge_names(c, site, new, old, names, outside):
    """new where c, old elsewhere; a name used only inside the region keeps the
    side on which it is bound."""
    out = []
    for n, a, b in zip(names, new, old):
        if a is UNBOUND or b is UNBOUND:
            if n in outside and a is not b:
                core.E.nomerge.add(site)
                raise Restart(site)
            out.append(a if b is UNBOUND else b)
            continue
        try:
            out.append(merge_value(c, a, b))
        except (S.NoMerge, TypeError, NotImplementedError):
            core.E.nomerge.add(site)
            raise Restart(site) from None
    return tuple(out)


class Region:
    """`if` statement: then/els say which branches run; sym: both, merged."""
    __slots__ = ("then", "els", "sym", "m", "names", "outside", "old", "a", "b", "dead")

    def __init__(self, v, site, feas, names, outside):
        t = cond(v, site, feas)
        self.m = None
        if t is True:
            self.then, self.els, self.sym = True, False, False
        elif t is False:
            self.then, self.els, self.sym = False, True, False
        else:
            self.then = self.els = self.sym = True
            self.m = t
            self.names = names
            self.outside = outside
            self.dead = 0

    def enter(self, loc, neg):
        if not neg:
            self.old = tuple(loc.get(n, UNBOUND) for n in self.names)
        push(self.m, neg)
        return True

    def exc(self, neg):
        """An exception in a branch; returns if the branch cannot be reached."""
        if not self.sym:
            return False
        e = core.E
        while e.site_stack and e.site_stack[-1] != self.m.site:
            e.site_stack.pop()
            e.guards.pop()
        e.site_stack.pop()
        e.guards.pop()
        if not dead(self.m, neg):
            fail(self.m)
        self.dead = 2 if neg else 1
        push(self.m, neg)
        return True

    def leave(self, loc, neg):
        pop()
        v = tuple(loc.get(n, UNBOUND) for n in self.names)
        if not neg:
            self.a = v
            return self.old
        self.b = v
        if self.dead == 1:
            return v
        if self.dead == 2:
            return self.a
        return merge_names(self.m.c, self.m.site, self.a, v, self.names, self.outside)


class Loop:
    """`while` statement; once its test is symbolic the remaining iterations are
    unrolled under nested guards and merged at the end."""
    __slots__ = ("site", "names", "outside", "stack", "pend", "peel", "width", "held")
    LIMIT = 400

    def __init__(self, site, names, outside):
        self.site = site
        self.names = names
        self.outside = outside
        self.stack = []
        self.pend = None
        self.peel = None
        self.width = None
        self.held = []

    def test(self, v):
        t = cond(v, self.site, 2)
        if t is True or t is False:
            self.pend = None
            return t
        if len(self.stack) > self.LIMIT:
            fail(t)
        self.pend = t
        return True

    def save(self, loc):
        if self.pend is not None:
            m = self.pend
            self.pend = None
            old = tuple(loc.get(n, UNBOUND) for n in self.names)
            if not self.stack and self.top_bit(m, old):
                return True
            self.stack.append((m, old))
            push(m)
        return True

    # A loop driven by the bit length of one of its variables: the iteration is
    # run only where the variable's leading bit is set, and joined with the rest
    # right away; where it is not set the test is simply evaluated again.
    def top_bit(self, m, old):
        src = core.E.last_bl
        if src is None:
            return False
        for i, x in enumerate(old):
            x0 = poly_value(x)
            if type(x0) is S.SymInt and not x0.sign and x0.bits is src or (
                    type(x0) is S.SymInt and not x0.sign and x0.bits == src):
                break
        else:
            return False
        w = len(src)
        if self.width is not None and w >= self.width:
            return False
        g = B.and_(m.c, src[-1])
        if not g:
            return False
        self.width = w
        m2 = Merge(g, m.site)
        one = poly_like(x, S.mkint(src[:-1] + (B.ONE,), B.ZERO))
        new = []
        for j, v in enumerate(old):
            if j == i:
                v = one
            elif type(v) is S.SymInt and v.bl is not None and v.bl[0] == src:
                v = w + v.bl[1]
            new.append(v)
        self.peel = (m2, old, i, src, tuple(new))
        push(m2)
        return True

    def enter(self):
        return self.peel[4]

    def join(self, loc):
        m, old, i, src, _ = self.peel
        self.peel = None
        v = tuple(loc.get(n, UNBOUND) for n in self.names)
        pop()
        z = m.c == src[-1]
        x0 = poly_like(old[i], S.mkint(src[:-1], B.ZERO)) if z else old[i]
        old0 = tuple(x0 if j == i else o for j, o in enumerate(old))
        out = list(merge_names(m.c, m.site, v, old0, self.names, self.outside))
        x, xn = poly_value(out[i]), poly_value(v[i])
        for j, o in enumerate(old):
            if j != i and type(o) is S.SymInt and o.bl is not None and o.bl[0] == src and z:
                n = v[j]
                off = o.bl[1]
                nb = xn.bits if type(xn) is S.SymInt else None
                if type(n) is S.SymInt and n.bl is not None and n.bl == (nb, off) or (
                        not is_sym(xn) and not is_sym(n) and n == int(xn).bit_length() + off):
                    out[j] = S.bit_length(x.bits, off) if type(x) is S.SymInt else x.bit_length() + off
        return tuple(out)

    def exc(self):
        if self.peel is not None:
            fail(self.peel[0])
        if self.stack:
            fail(self.stack[-1][0])

    def finish(self, loc):
        v = tuple(loc.get(n, UNBOUND) for n in self.names)
        while self.stack:
            m, old = self.stack.pop()
            pop()
            v = merge_names(m.c, m.site, v, old, self.names, self.outside)
        return tuple(narrow_deep(x) for x in v)


def poly_value(x):
    """The integer of a binary polynomial (or the integer itself)."""
    return x.__dict__.get("value") if getattr(type(x), "__name__", "") == "BinaryPolynomial" else x


def poly_like(x, v):
    if getattr(type(x), "__name__", "") == "BinaryPolynomial":
        r = object.__new__(type(x))
        r.__dict__["value"] = v
        return r
    return v


def narrow_deep(x):
    if isinstance(x, S.SymInt):
        return narrow(x)
    if getattr(type(x), "__name__", "") == "BinaryPolynomial" and isinstance(x.__dict__.get("value"), S.SymInt):
        v = narrow(x.value)
        if v is not x.value:
            x = object.__new__(type(x))
            x.__dict__["value"] = v
    return x


def narrow(x):
    """Drops leading bits that the solver shows to equal the sign on this path."""
    e = core.E
    if len(x.bits) < 3:
        return x
    bits_, n = list(x.bits), len(x.bits)
    while bits_:
        d = B.xor(bits_[-1], x.sign)
        if d and e.feasible(d):
            break
        bits_.pop()
    if len(bits_) == n:
        return x
    if not bits_ and x.sign:
        return S.mkint((), x.sign)
    return S.mkint(bits_, x.sign, max(x.lo, -(1 << len(bits_))) if x.lo < 0 else None,
                   min(x.hi, (1 << len(bits_)) - 1))


def region(m, then, orelse):
    """Expression-level merge of two thunks."""
    e = core.E
    depth = len(e.guards)
    res = []
    for neg, f in ((False, then), (True, orelse)):
        push(m, neg)
        try:
            res.append(f())
        except Exception as exc:
            del e.guards[depth:]
            del e.site_stack[depth:]
            if dead(m, neg):
                res.append(UNBOUND)
                continue
            fail(m, exc)
        pop()
    a, b = res
    if a is UNBOUND:
        return b
    if b is UNBOUND:
        return a
    try:
        return merge_value(m.c, a, b)
    except (S.NoMerge, TypeError, NotImplementedError):
        fail(m, None)


def ifexp(site, t, a, b):
    if t is True:
        return a()
    if t is False:
        return b()
    m = cond(t, site)
    if m is True:
        return a()
    if m is False:
        return b()
    return region(m, a, b)


def symtruth(v):
    """v as bool or SymBool, without forking where possible; None if it is neither."""
    if isinstance(v, (bool, S.SymBool)):
        return v
    if isinstance(v, Sym):
        return wrap_bool(truth_bit(v))
    if isinstance(v, SArr) and v.size == 1:
        return symtruth(A.pyelem(v.raw().ravel()[0]))
    return None


def and2(site, a, f):
    if not on() or not (is_sym(a) or isinstance(a, SArr)):
        return a and f()
    t = symtruth(a)
    if t is None:
        return a and f()
    if not is_sym(t):
        return f() if t else a
    m = cond(t, site)
    if m is True:
        return f()
    if m is False:
        return a
    return region(m, f, lambda: a)


def or2(site, a, f):
    if not on() or not (is_sym(a) or isinstance(a, SArr)):
        return a or f()
    t = symtruth(a)
    if t is None:
        return a or f()
    if not is_sym(t):
        return a if t else f()
    m = cond(t, site)
    if m is True:
        return a
    if m is False:
        return f()
    return region(m, lambda: a, f)


def not1(a):
    if is_sym(a) or isinstance(a, SArr):
        t = symtruth(a)
        if t is None:
            return not a
        return ~t if is_sym(t) else not t
    return not a


def ne(a, b):
    if not on():
        return a != b
    ta = type(a)
    if ta.__ne__ is object.__ne__ and not isinstance(a, (int, float, str)):
        r = a == b
        return not1(r)
    if type(a) in (tuple, list) and type(a) is type(b):
        return not1(eq(a, b))
    return a != b


def eq(a, b):
    if type(a) is SymTuple:
        a = tuple(a)
    if type(b) is SymTuple:
        b = tuple(b)
    if type(a) in (tuple, list) and type(a) is type(b):
        if len(a) != len(b):
            return False
        if A.has_sym(a) or A.has_sym(b) or any(hasattr(x, "__dict__") for x in a):
            r = []
            for x, y in zip(a, b):
                if x is y:
                    continue
                t = eq(x, y)
                s = symtruth(t)
                if s is None:
                    s = bool(t)
                if s is False:
                    return False
                r.append(truth_bit(s))
            return wrap_bool(B.and_all(r))
    return a == b


class SymTuple(tuple):
    """A tuple with symbolic parts stored as a key: found again by comparing it with
    every key, never by its hash."""
    __slots__ = ()

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


def sym_keys(c):
    return any(type(k) is SymTuple for k in c)


def find_key(c, key):
    """The key of c equal to key (asking the solver, forking if it is open), or UNBOUND."""
    for k in c:
        if isinstance(k, tuple) and len(k) == len(key):
            t = symtruth(eq(tuple(k), tuple(key)))
            if t is True or (t is not False and core.E.decide(truth_bit(t))):
                return k
    return UNBOUND


def as_key(c, key):
    """key, in the form under which the dict or set c is to hold it."""
    if isinstance(key, tuple) and (A.has_sym(key) or sym_keys(c)):
        k = find_key(c, key)
        if k is not UNBOUND:
            return k
        return SymTuple(key) if A.has_sym(key) else key
    return key


class KSet(set):
    """A set that may hold tuples with symbolic parts, told apart by comparison.  Until it
    does, an ordinary set; from then on, in order of insertion."""
    def __init__(self, it=()):
        super().__init__()
        self.d = None
        for x in it:
            self.add(x)

    def add(self, x):
        if self.d is None:
            if not (isinstance(x, tuple) and A.has_sym(x)):
                return super().add(conc(x) if is_sym(x) else x)
            self.d = dict.fromkeys(super().__iter__())
            super().clear()
        self.d[as_key(self.d, tuple(x) if type(x) is SymTuple else x)] = None

    def __iter__(self):
        if self.d is None:
            return super().__iter__()
        return iter([tuple(k) if type(k) is SymTuple else k for k in self.d])

    def __len__(self):
        return super().__len__() if self.d is None else len(self.d)

    def __contains__(self, x):
        if self.d is None and not A.has_sym(x):
            return super().__contains__(x)
        if isinstance(x, tuple):
            return find_key(super().__iter__() if self.d is None else self.d, x) is not UNBOUND
        return conc(x) in (self.d if self.d is not None else set(self))

    def _drop(self, x):
        if self.d is None:
            if not A.has_sym(x):
                if not super().__contains__(x):
                    return False
                super().discard(x)
                return True
            self.d = dict.fromkeys(super().__iter__())
            super().clear()
        k = find_key(self.d, x) if isinstance(x, tuple) else conc(x)
        if k is UNBOUND or k not in self.d:
            return False
        del self.d[k]
        return True

    def discard(self, x):
        self._drop(x)

    def remove(self, x):
        if not self._drop(x):
            raise KeyError(x)

    def pop(self):
        if self.d is None:
            return super().pop()
        if not self.d:
            raise KeyError("pop from an empty set")
        k = next(iter(self.d))
        del self.d[k]
        return tuple(k) if type(k) is SymTuple else k

    def clear(self):
        super().clear()
        self.d = None

    def copy(self):
        return KSet(self)

    def update(self, *os):
        for o in os:
            for x in list(o):
                self.add(x)

    def __or__(self, o):
        r = KSet(self)
        r.update(o)
        return r

    def __ror__(self, o):
        return KSet(o) | self

    def __ior__(self, o):
        self.update(o)
        return self

    def __and__(self, o):
        o = o if isinstance(o, KSet) else KSet(o)
        return KSet([x for x in self if x in o])

    __rand__ = __iand__ = __and__

    def __sub__(self, o):
        o = o if isinstance(o, KSet) else KSet(o)
        return KSet([x for x in self if x not in o])

    __isub__ = __sub__

    def __rsub__(self, o):
        return KSet(o) - self

    def __xor__(self, o):
        return (self - o) | (KSet(o) - self)

    def __le__(self, o):
        o = o if isinstance(o, KSet) else KSet(o)
        return len(self) <= len(o) and builtins.all(x in o for x in self)

    def __ge__(self, o):
        return KSet(o) <= self

    def __lt__(self, o):
        return len(self) < len(o) and self <= o

    def __gt__(self, o):
        return len(self) > len(o) and self >= o

    def __eq__(self, o):
        return isinstance(o, (set, frozenset)) and len(self) == len(o) and self <= o

    def __ne__(self, o):
        return not self == o

    __hash__ = None
    issubset, issuperset, union, intersection, difference = __le__, __ge__, __or__, __and__, __sub__

    def isdisjoint(self, o):
        return not len(self & o)


def f_set(it=()):
    return KSet(it) if on() else builtins.set(it)


def f_dictcomp(it):
    d = {}
    for k, v in it:
        if on():
            k = as_key(d, k)
        d[k] = v
    return d


def f_dict(*a, **k):
    if on() and len(a) == 1 and not isinstance(a[0], dict) and not hasattr(a[0], "keys"):
        d = f_dictcomp(a[0])
        d.update(k)
        return d
    return builtins.dict(*a, **k)


def contains(x, c):
    if not on():
        return x in c
    if isinstance(c, SArr):
        return A.contains_arr(c, x)
    if isinstance(c, np.ndarray) and (is_sym(x) or A.has_sym(x)):
        return A.contains_arr(A.asarr(c), x)
    if isinstance(c, range) and is_sym(x):
        if c.step == 1:
            if isinstance(x, S.SymReal):
                return wrap_bool(B.or_all([truth_bit(x == v) for v in c]))
            return wrap_bool(band(truth_bit(x >= c.start), truth_bit(x < c.stop)))
        return wrap_bool(B.or_all([truth_bit(x == v) for v in c]))
    if isinstance(c, KSet):
        return x in c
    if isinstance(c, (list, tuple, dict, set, frozenset, type({}.keys()), type({}.values()))):
        if isinstance(c, (dict, set, frozenset, type({}.keys()))) and not A.has_sym(x) and not sym_keys(c):
            return x in c
        r = []
        for y in c:
            if x is y:
                return True
            t = eq(tuple(y) if type(y) is SymTuple else y, x) if isinstance(y, (list, tuple)) else (x == y)
            s = symtruth(t)
            if s is None:
                s = bool(t)
            if s is True:
                return True
            if s is not False:
                r.append(truth_bit(s))
        return wrap_bool(B.or_all(r))
    return x in c


def notcontains(x, c):
    return not1(contains(x, c))


def chain(site, a, ops):
    """a op0 b0 op1 b1 ... ; ops = [(fn, thunk)]."""
    res = True
    for i, (fn, th) in enumerate(ops):
        b = th()
        r = fn(a, b)
        if i + 1 == len(ops):
            rest = r
            return rest if res is True else and_vals(res, rest)
        a = b
        if res is True:
            res = r
        else:
            res = and_vals(res, r)
        t = symtruth(res)
        if t is False or (t is None and not res):
            return res
        if t is True:
            res = True
    return res


def and_vals(a, b):
    ta, tb = symtruth(a), symtruth(b)
    if ta is None or tb is None:
        return a and b
    return wrap_bool(band(truth_bit(ta), truth_bit(tb)))


# ------------------------------------------------------------------- indexing
def getitem(o, i):
    if not on():
        return o[i]
    if isinstance(o, SArr):
        return A.getitem(o, i)
    if isinstance(o, np.ndarray):
        if isinstance(i, (SArr, Sym, tuple, list)):
            if A._sym_index(i) or (isinstance(i, tuple) and any(A._sym_index(x) for x in i)):
                return A.getitem(o, i)
            return o[A.clean_index(i)]
        return o[i]
    if isinstance(o, A.LazyNZ):
        return o[i]
    if isinstance(i, SArr):
        if i.ndim == 0:
            i = A.pyelem(i.raw()[()])
        else:
            i = A.to_concrete(i)
    if isinstance(o, dict):
        return dict_get(o, i)
    if isinstance(i, (S.SymInt, S.SymBool)) and isinstance(o, (list, tuple, range)):
        return seq_get(o, i)
    if isinstance(i, slice) and any(is_sym(x) for x in (i.start, i.stop, i.step)):
        i = slice(*[S.concretise(x) for x in (i.start, i.stop, i.step)])
    return o[i]


def seq_get(o, i):
    j = A.bound_index(i, len(o))
    if not is_sym(j):
        return o[j]
    if isinstance(o, range):
        return o.start + o.step * j
    try:
        rows = [o[k] for k in range(len(o))]
        return mux_vals(j, rows)
    except (S.NoMerge, TypeError):
        return o[S.concretise(j)]


def mux_vals(i, rows):
    def rec(lo, nb):
        if lo >= len(rows):
            return UNBOUND
        if nb == 0:
            return rows[lo]
        a = rec(lo, nb - 1)
        b = rec(lo + (1 << (nb - 1)), nb - 1)
        if b is UNBOUND:
            return a
        return merge_value(i.bits[nb - 1], b, a)
    return rec(0, len(i.bits))


def dict_get(d, key):
    if not A.has_sym(key) and not sym_keys(d):
        return d[key]
    res = UNBOUND
    hits = []
    try:
        for k, v in d.items():
            t = eq(tuple(k), key) if isinstance(k, tuple) else key == k
            st = symtruth(t)
            b = truth_bit(bool(t) if st is None else st)
            if not b:
                continue
            hits.append(b)
            res = v if res is UNBOUND else merge_value(b, v, res)
    except (S.NoMerge, TypeError):
        return d[conc(key)]
    miss = B.or_all(hits) ^ ONE
    if miss and core.E.decide(miss):
        if hasattr(d, "__missing__") and not isinstance(key, tuple):
            return d[conc(key)]
        raise KeyError(key)
    return res


def conc(x):
    if isinstance(x, (tuple, list)):
        return type(x)(conc(e) for e in x)
    if isinstance(x, SArr):
        return A.to_concrete(x)
    return S.concretise(x) if is_sym(x) else x


def setitem(o, i, v):
    if not on():
        o[i] = v
        return
    if isinstance(o, SArr):
        chk_merged(o)
        A.setitem(o, i, v)
        return
    if isinstance(o, np.ndarray):
        if core.E.guards:
            raise Restart_site(core.E)
        if o.dtype == object and not isinstance(i, (SArr, Sym)):
            o[i] = v
            return
        o[conc_index(i)] = conc(v) if isinstance(v, (SArr, Sym, list, tuple)) else v
        return
    if core.E.guards:
        try:
            if isinstance(o, list) and not is_sym(i) and not isinstance(i, (slice, SArr)):
                v = merge_value(B.and_all(core.E.guards), v, o[i])
            elif isinstance(o, dict) and not A.has_sym(i) and i in o:
                v = merge_value(B.and_all(core.E.guards), v, o[i])
            else:
                raise Restart_site(core.E)
        except (S.NoMerge, TypeError):
            raise Restart_site(core.E) from None
    if isinstance(i, SArr):
        i = A.pyelem(i.raw()[()]) if i.ndim == 0 else A.to_concrete(i)
    if isinstance(o, list) and isinstance(i, (S.SymInt, S.SymBool)):
        j = A.bound_index(i, len(o))
        if not is_sym(j):
            o[j] = v
            return
        try:
            new = [merge_value(S.cmp_eq(j, k), v, o[k]) for k in range(len(o))]
        except (S.NoMerge, TypeError):
            o[S.concretise(j)] = v
            return
        o[:] = new
        return
    if isinstance(i, slice):
        i = slice(*[S.concretise(x) if is_sym(x) else x for x in (i.start, i.stop, i.step)])
    if isinstance(o, dict):
        i = as_key(o, i)
    o[i] = v


def conc_index(i):
    if isinstance(i, tuple):
        return tuple(conc_index(x) for x in i)
    if isinstance(i, slice):
        return slice(*[S.concretise(x) if is_sym(x) else x for x in (i.start, i.stop, i.step)])
    return conc(i) if isinstance(i, (SArr, Sym, list)) else i


def chk_merged(o):
    s = getattr(o, "merged", None)
    if s is not None:
        core.E.nomerge.add(s)
        raise Restart(s)


def delitem(o, i):
    if on() and core.E.guards:
        raise Restart_site(core.E)
    del o[conc_index(i)]


def setattr_(o, n, v, init=False):
    if on() and core.E.guards:
        if n in getattr(o, "__dict__", ()):
            try:
                v = merge_value(B.and_all(core.E.guards), v, o.__dict__[n])
            except (S.NoMerge, TypeError):
                raise Restart_site(core.E) from None
        elif not init:
            raise Restart_site(core.E)
    setattr(o, n, v)


def augattr(op, o, n, v, init=False):
    setattr_(o, n, iop(op, getattr(o, n), v), init)


def augitem(op, o, i, v):
    setitem(o, i, iop(op, getitem(o, i), v))


IOPS = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv,
        "FloorDiv": operator.ifloordiv, "Mod": operator.imod, "Pow": operator.ipow, "LShift": operator.ilshift,
        "RShift": operator.irshift, "BitAnd": operator.iand, "BitOr": operator.ior, "BitXor": operator.ixor,
        "MatMult": operator.imatmul}


def iop(name, a, b):
    """a op= b for a Name target."""
    f = IOPS[name]
    if not on():
        return f(a, b)
    if isinstance(a, SArr):
        chk_merged(a)
        if core.E.guards:
            A.rel_guard(a)
    elif isinstance(a, np.ndarray) and isinstance(b, (SArr, Sym)) and A.has_sym(b):
        # in place on a concrete buffer
        pass
    elif isinstance(a, (list, dict, set)) and core.E.guards:
        raise Restart_site(core.E)
    return f(a, b)


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "add", "discard", "setdefault", "sort",
            "reverse", "popleft", "appendleft", "popitem", "rotate", "extendleft", "fill"}
ARRMETH = {"dot", "take", "searchsorted", "clip", "repeat", "choose", "put", "get", "index", "count", "dot", "reshape"}


def mut(o, name):
    if on() and core.E.guards and isinstance(o, (list, dict, set)) or type(o).__name__ in ("deque", "Counter"):
        if on() and core.E.guards:
            raise Restart_site(core.E)
    if isinstance(o, KSet):
        return getattr(o, name)
    if on() and name in ("add", "setdefault") and isinstance(o, (dict, set)):
        return lambda x, *a: getattr(o, name)(as_key(o, x) if isinstance(x, tuple) else conc(x), *a)
    if on() and name in ("update", "add", "setdefault", "pop", "discard", "remove") and isinstance(o, (dict, set)):
        return lambda *a, **k: getattr(o, name)(*[conc(x) if A.has_sym(x) and j == 0 and not isinstance(x, dict) else x
                                                  for j, x in enumerate(a)], **k)
    return getattr(o, name)


def meth(o, name):
    if not on():
        return getattr(o, name)
    if isinstance(o, np.ndarray) and not isinstance(o, SArr):
        def call(*a, **k):
            if any(A.has_sym(x) or isinstance(x, SArr) for x in list(a) + list(k.values())):
                return getattr(A.asarr(o), name)(*a, **k)
            return getattr(o, name)(*a, **k)
        return call
    if isinstance(o, dict) and name == "get":
        def get(key, default=None):
            if not A.has_sym(key) and not sym_keys(o):
                return o.get(key, default)
            res = default
            try:
                for kk, v in o.items():
                    t = eq(tuple(kk), key) if isinstance(kk, tuple) else key == kk
                    st = symtruth(t)
                    b = truth_bit(bool(t) if st is None else st)
                    if b:
                        res = merge_value(b, v, res)
                return res
            except (S.NoMerge, TypeError):
                return o.get(conc(key), default)
        return get
    if name == "count" and isinstance(o, (list, tuple)):
        return lambda x: S.sum_([symtruth(eq(y, x)) for y in o])
    return getattr(o, name)


# ------------------------------------------------------------------- builtins
def f_int(x=0, *a, **k):
    if a or k:
        return builtins.int(x, *a, **k)
    if isinstance(x, Sym):
        return A.cast_elem(x, "i")
    if isinstance(x, SArr):
        if x.size != 1:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return f_int(x.raw().ravel()[0])
    if hasattr(type(x), "__module__") and type(x).__module__.startswith("komm"):
        g = getattr(type(x), "__int__", None)
        if g is not None:
            return g(x)
    return builtins.int(x)


def f_float(x=0.0):
    if isinstance(x, Sym):
        return A.cast_elem(x, "f") if not isinstance(x, (S.SymInt, S.SymBool)) else x
    if isinstance(x, SArr):
        return f_float(x.raw().reshape(-1)[0])
    return builtins.float(x)


def f_bool(x=False):
    t = symtruth(x)
    return builtins.bool(x) if t is None else t


def f_str(*a, **k):
    return builtins.str(*[conc(x) for x in a], **k)


def f_isinstance(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        if isinstance(x, S.SymBool):
            return any(issubclass(bool, q) for q in ts if isinstance(q, type)) or isinstance(x, t)
        if isinstance(x, S.SymInt):
            return any(issubclass(int, q) or issubclass(np.int64, q) and q is not object and q.__module__ == "numpy"
                       for q in ts if isinstance(q, type)) or isinstance(x, t)
        if isinstance(x, S.SymReal):
            return any(issubclass(float, q) or q is np.floating or q is np.float64 for q in ts if isinstance(q, type))
        return any(issubclass(complex, q) for q in ts if isinstance(q, type))
    return builtins.isinstance(x, t)


def f_map(f, *its):
    if f is builtins.int:
        f = f_int
    elif f is builtins.float:
        f = f_float
    elif f is builtins.bool:
        f = f_bool
    elif f is builtins.str:
        f = f_str
    elif f is builtins.chr:
        f = f_chr
    elif f is builtins.ord:
        f = f_ord
    return builtins.map(f, *its)


def guarded_iter(it, site, kind):
    """Fold of any/all over an iterable, later elements under the guard that the
    earlier ones did not decide."""
    e = core.E
    pushed = 0
    acc = []
    it = iter(it)
    depth = len(e.guards)
    try:
        while True:
            try:
                v = next(it)
            except StopIteration:
                break
            t = symtruth(v)
            if t is None:
                t = bool(v)
            b = truth_bit(t)
            if kind == "all":
                b = b ^ ONE
            # b: this element decides the result
            if not b:
                continue
            if b == ONE:
                acc.append(ONE)
                break
            acc.append(b)
            if site in e.nomerge:
                if e.decide(b):
                    return kind == "any"
                acc.pop()
                continue
            e.guards.append(b ^ ONE)
            e.site_stack.append(site)
    except Exception:
        if len(e.guards) > depth:
            e.nomerge.add(site)
            raise Restart(site)
        raise
    finally:
        del e.guards[depth:]
        del e.site_stack[depth:]
    r = B.or_all(acc)
    return wrap_bool(r if kind == "any" else r ^ ONE)


def f_any(site, it):
    if not on():
        return builtins.any(it)
    if isinstance(it, SArr):
        return A.a_any(it)
    return guarded_iter(it, site, "any")


def f_all(site, it):
    if not on():
        return builtins.all(it)
    if isinstance(it, SArr):
        return A.a_all(it)
    return guarded_iter(it, site, "all")


def f_sum(it, start=0):
    if not on():
        return builtins.sum(it, start)
    xs = list(it)
    if any(is_sym(x) for x in xs) and all(is_sym(x) or isinstance(x, (int, float, np.generic)) for x in xs):
        return A.esum([A.pyelem(x) for x in xs] + ([start] if not (isinstance(start, int) and start == 0) else []))
    return builtins.sum(xs, start)


def _minmax(name, lt):
    real = getattr(builtins, name)

    def f(*args, key=None, **kw):
        if not on():
            return real(*args, key=key, **kw)
        xs = list(args[0]) if len(args) == 1 else list(args)
        if not xs:
            return real(xs, key=key, **kw)
        ks = [key(x) for x in xs] if key is not None else xs
        if not any(is_sym(k) or A.has_sym(k) for k in ks):
            return real(xs, key=key, **kw)
        if not all(is_sym(k) or isinstance(k, (int, float, np.generic)) for k in ks):
            return real(xs, key=key, **kw)
        bk, bx = ks[0], xs[0]
        for k, x in zip(ks[1:], xs[1:]):
            c = truth_bit(lt(k, bk))
            if c == ONE:
                bk, bx = k, x
            elif c:
                try:
                    nx = merge_value(c, x, bx)
                    if name == "max" and x is k and bx is bk:
                        S.keep_bl(nx, x, bx)
                    nk = nx if x is k and bx is bk else merge_value(c, k, bk)
                    bk, bx = nk, nx
                except (S.NoMerge, TypeError):
                    if core.E.decide(c):
                        bk, bx = k, x
        return bx
    return f


f_min = _minmax("min", lambda a, b: a < b)
f_max = _minmax("max", lambda a, b: a > b)


def f_abs(x):
    return abs(x)


def f_round(x, n=None):
    if is_sym(x):
        r = S.rrint(x)
        return f_int(r) if n is None else r
    return builtins.round(x) if n is None else builtins.round(x, n)


def f_divmod(a, b):
    return builtins.divmod(a, b)


def f_pow(*a):
    return builtins.pow(*a)


def f_range(*a):
    return builtins.range(*[S.concretise(x) if is_sym(x) else (x.__index__() if isinstance(x, SArr) else x) for x in a])


def f_bytes(x=b"", *a):
    if isinstance(x, (list, tuple, SArr)) or (hasattr(x, "__next__")):
        x = list(x)
        if any(is_sym(e) for e in x):
            return SymBytes(x)
        return builtins.bytes(int(e) for e in x)
    return builtins.bytes(x, *a)


def f_len(x):
    return builtins.len(x)


def f_hash(x):
    return builtins.hash(x)


class SymBytes:
    """bytes whose elements are symbolic; comparisons fork element-wise only as far
    as the operation asks."""

    def __init__(self, xs):
        self.xs = list(xs)

    def __len__(self):
        return len(self.xs)

    def __iter__(self):
        return iter(self.xs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[S.concretise(x) if is_sym(x) else x for x in (i.start, i.stop, i.step)])
            return SymBytes(self.xs[i])
        return getitem(self.xs, i)

    def _eqbit(self, o):
        o = list(o)
        if len(o) != len(self.xs):
            return B.ZERO
        return B.and_all([truth_bit(symtruth(a == b)) for a, b in zip(self.xs, o)])

    def __eq__(self, o):
        if not isinstance(o, (SymBytes, bytes, bytearray)):
            return NotImplemented
        return wrap_bool(self._eqbit(o))

    def __ne__(self, o):
        return not1(self == o)

    def __hash__(self):
        return hash(bytes(int(S.concretise(x)) for x in self.xs))

    def __add__(self, o):
        return SymBytes(self.xs + list(o))

    def __radd__(self, o):
        return SymBytes(list(o) + self.xs)

    def startswith(self, p):
        return wrap_bool(SymBytes(self.xs[:len(p)])._eqbit(p)) if len(p) <= len(self.xs) else False

    def _bounds(self, start, end):
        return slice(start, end).indices(len(self.xs))[:2]

    def _find(self, p, start, end, rev):
        """Index of the first/last match as a merged integer (-1 if none)."""
        start, end = self._bounds(S.concretise(start), S.concretise(end))
        n = len(p)
        pos = range(start, end - n + 1)
        r = -1
        # build from lowest priority to highest
        for i in (pos if rev else reversed(pos)):
            r = S.ite(SymBytes(self.xs[i:i + n])._eqbit(p), i, r)
        return r

    def rfind(self, p, start=None, end=None):
        return self._find(p, start, end, True)

    def find(self, p, start=None, end=None):
        return self._find(p, start, end, False)

    def __contains__(self, p):
        if isinstance(p, (SymBytes, bytes)):
            r = self.find(p)
            return bool(r >= 0)
        return bool(contains(p, self.xs))


class SymStr(SymBytes):
    """A string whose characters are symbolic."""

    @staticmethod
    def codes(o):
        return o.xs if isinstance(o, SymBytes) else [ord(c) for c in o]

    def __iter__(self):
        return iter([SymStr([x]) for x in self.xs])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr(SymBytes(self.xs)[i].xs)
        return SymStr([SymBytes(self.xs)[i]])

    def _eqbit(self, o):
        return SymBytes(self.xs)._eqbit(SymStr.codes(o))

    def __eq__(self, o):
        if not isinstance(o, (SymStr, str)):
            return NotImplemented
        return wrap_bool(self._eqbit(o))

    def __hash__(self):
        return hash("".join(chr(int(S.concretise(x))) for x in self.xs))

    def __add__(self, o):
        return SymStr(self.xs + SymStr.codes(o))

    def __radd__(self, o):
        return SymStr(SymStr.codes(o) + self.xs)

    def _find(self, p, start, end, rev):
        return SymBytes(self.xs)._find(SymStr.codes(p), start, end, rev)

    def __contains__(self, p):
        return bool(self.find(p) >= 0)


def f_chr(x):
    x = A.pyelem(x) if isinstance(x, SArr) else x
    if not is_sym(x):
        return builtins.chr(x)
    if not ((x >= 0) & (x < 0x110000)):
        raise ValueError("chr() arg not in range(0x110000)")
    return SymStr([x])


def f_ord(x):
    if isinstance(x, SymStr):
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        return x.xs[0]
    return builtins.ord(x)


def f_join(sep, *a):
    if isinstance(sep, str) and len(a) == 1:
        xs = list(a[0])
        if any(isinstance(x, SymStr) for x in xs):
            out = SymStr([])
            for i, x in enumerate(xs):
                out = (out + sep if i else out) + x
            return out
        return sep.join(xs)
    return sep.join(*a)


def f_from_bytes(x, byteorder="big", **k):
    if isinstance(x, (SArr, SymBytes)) or A.has_sym(x):
        xs = [A.pyelem(e) for e in x]
        if byteorder == "big":
            xs = xs[::-1]
        out = []
        for e in xs:
            out += list(S.ext(S.parts(e)[0], B.ZERO, 8))[:8]
        return S.mkint(out, B.ZERO)
    return builtins.int.from_bytes(x, byteorder, **k)


def msg(f):
    """Text of an exception message: symbolic values are not expanded."""
    e = core.E
    if e is None:
        return f()
    old, e.in_message = getattr(e, "in_message", False), True
    try:
        return f()
    finally:
        e.in_message = old


def f_sorted(it, key=None, reverse=False):
    return builtins.sorted(it, key=key, reverse=reverse)


class IntType:
    """Stands for the name `int` where it is only called or has attributes read."""


class _Int:
    from_bytes = staticmethod(f_from_bytes)


slice = builtins.slice
lt, le, gt, ge = operator.lt, operator.le, operator.gt, operator.ge


def is_(a, b):
    return a is b


def is_not(a, b):
    return a is not b
