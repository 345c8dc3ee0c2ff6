"""Exact exponentials: while core.E.exact_logs is set, log, exp and logaddexp build quotients
of sums of c * exp(q1 m1 + q2 m2 + ..), with rational c and q and the m pairwise different
monomials of the real inputs (or logs of them), instead of uninterpreted functions.  No
comparison is forced and nothing forks.  The exponentials of different monomials are
algebraically independent functions, so two such quotients are equal for all inputs exactly when
they are as polynomials over positive unknowns: the query the solver gets."""
import functools
import math
import time
from fractions import Fraction

import numpy as np
import z3

from . import bits as B
from . import core
from . import sarr as A
from . import sym as S
from . import transc as T

KEYS = {}      # name of a monomial -> z3 term ("log ..": its log)
UNIT = ()


def key(t, log=False):
    k = ("log " if log else "") + t.sexpr()
    KEYS[k] = t
    return k


def mulexp(a, b):
    d = dict(a)
    for k, q in b:
        q += d.pop(k, 0)
        if q:
            d[k] = q
    return tuple(sorted(d.items()))


def gmul(x, y):
    out = {}
    for a, c in x.items():
        for b, d in y.items():
            e = mulexp(a, b)
            v = out.get(e, 0) + c * d
            if v:
                out[e] = v
            else:
                out.pop(e, None)
    return out


def gadd(x, y):
    out = dict(x)
    for e, c in y.items():
        v = out.get(e, 0) + c
        if v:
            out[e] = v
        else:
            out.pop(e, None)
    return out


def gconst(c):
    c = Fraction(c)
    return {UNIT: c} if c else {}


GONE = gconst(1)


def exponent(t):
    """exp of a z3 real term that is a polynomial of inputs."""
    e = UNIT
    for c, m in T._monomials(B.U.expand(t)):
        if c:
            e = mulexp(e, ((key(z3.RealVal(1) if m is None else m), Fraction(c)),))
    return {e: Fraction(1)}


class Quot:
    """n / d."""
    __slots__ = ("n", "d")

    def __init__(self, n, d=GONE):
        if len(d) == 1 and d != GONE:
            (e, c), = d.items()
            n, d = gmul(n, {tuple((k, -q) for k, q in e): 1 / c}), GONE
        self.n, self.d = n, d

    def mul(self, o):
        if self.n == o.d:
            return Quot(o.n, self.d)
        if self.d == o.n:
            return Quot(self.n, o.d)
        return Quot(gmul(self.n, o.n), gmul(self.d, o.d))

    def div(self, o):
        if not o.n:
            raise ZeroDivisionError("division by an exact zero")
        return self.mul(Quot(o.d, GONE).over(o.n))

    def over(self, d):
        return Quot(self.n, d)

    def add(self, o):
        if self.d == o.d:
            return Quot(gadd(self.n, o.n), self.d)
        if not self.n:
            return o
        if not o.n:
            return self
        return Quot(gadd(gmul(self.n, o.d), gmul(o.n, self.d)), gmul(self.d, o.d))

    def neg(self):
        return Quot({e: -c for e, c in self.n.items()}, self.d)


def parse(t):
    """The quotient a z3 real term is, with every input as the exponential of its log."""
    v = S.num(t)
    if v is not None:
        return Quot(gconst(v))
    k, cs = t.decl().kind(), t.children()
    if k == z3.Z3_OP_ADD:
        return functools.reduce(Quot.add, map(parse, cs))
    if k == z3.Z3_OP_MUL:
        return functools.reduce(Quot.mul, map(parse, cs))
    if k == z3.Z3_OP_SUB:
        return functools.reduce(lambda x, y: x.add(y.neg()), map(parse, cs))
    if k == z3.Z3_OP_UMINUS:
        return parse(cs[0]).neg()
    if k == z3.Z3_OP_DIV:
        return parse(cs[0]).div(parse(cs[1]))
    if k == z3.Z3_OP_POWER and S.num(cs[1]) is not None and 0 <= S.num(cs[1]) <= 8:
        return functools.reduce(Quot.mul, [parse(cs[0])] * int(S.num(cs[1])), Quot(GONE))
    return Quot({((key(t, True), Fraction(1)),): Fraction(1)})


def quot(x):
    """The quotient a real-valued operand stands for."""
    if isinstance(x, SymQ):
        return x.q
    if S.is_sym(x):
        return parse(B.U.expand(S.realval(x)))
    return Quot(gconst(Fraction(float(x)) if not isinstance(x, (int, Fraction)) else x))


def lquot(x):
    """The quotient whose log a log-valued operand stands for."""
    if isinstance(x, SymL):
        return x.q
    if S.is_sym(x):
        return Quot(exponent(S.realval(x)))
    x = float(x)
    if x == -math.inf:
        return Quot({})
    if math.isinf(x) or math.isnan(x):
        raise NotImplementedError("infinite log")
    return Quot(exponent(z3.RealVal(str(Fraction(x)))) if x else GONE)


class SymL(S.Sym):
    """The log of a quotient."""
    __slots__ = ("q",)
    quotient = True

    def __init__(self, q):
        self.q = q

    dtype = np.dtype(float)

    def __add__(self, o):
        return SymL(self.q.mul(lquot(o)))

    __radd__ = __add__

    def __sub__(self, o):
        return SymL(self.q.div(lquot(o)))

    def __rsub__(self, o):
        return SymL(lquot(o).div(self.q))

    def __neg__(self):
        return SymL(Quot(GONE).div(self.q))

    def __pos__(self):
        return self

    def __mul__(self, o):
        c = Fraction(float(o))
        n, d = self.q.n, self.q.d
        if c.denominator == 1 and abs(c) <= 4:
            r = Quot(GONE)
            for _ in range(abs(int(c))):
                r = r.mul(self.q) if c > 0 else r.div(self.q)
            return SymL(r)
        if len(n) == 1 and d == GONE and list(n.values()) == [1]:
            (e, _), = n.items()
            return SymL(Quot({tuple((k, q * c) for k, q in e): Fraction(1)}))
        raise NotImplementedError("power of a sum of exponentials")

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1 / Fraction(float(o)))

    def __lt__(self, o):
        return sign(SymQ(self.q.div(lquot(o)).add(Quot(gconst(-1)))), "<")

    def __gt__(self, o):
        return sign(SymQ(self.q.div(lquot(o)).add(Quot(gconst(-1)))), ">")

    def __le__(self, o):
        return S.wrap_bool(S.not_(S.truth_bit(self > o)))

    def __ge__(self, o):
        return S.wrap_bool(S.not_(S.truth_bit(self < o)))

    def __eq__(self, o):
        raise NotImplementedError("equality of logs")

    __hash__ = None


class SymQ(S.Sym):
    """A quotient of sums of exponentials."""
    __slots__ = ("q",)
    quotient = True

    def __init__(self, q):
        self.q = q

    dtype = np.dtype(float)

    def __add__(self, o):
        return SymQ(self.q.add(quot(o)))

    __radd__ = __add__

    def __sub__(self, o):
        return SymQ(self.q.add(quot(o).neg()))

    def __rsub__(self, o):
        return SymQ(quot(o).add(self.q.neg()))

    def __neg__(self):
        return SymQ(self.q.neg())

    def __mul__(self, o):
        return SymQ(self.q.mul(quot(o)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return SymQ(self.q.div(quot(o)))

    def __rtruediv__(self, o):
        return SymQ(quot(o).div(self.q))

    def __pow__(self, k):
        r = Quot(GONE)
        for _ in range(int(k)):
            r = r.mul(self.q)
        return SymQ(r)

    def __lt__(self, o):
        return sign(self - o, "<")

    def __gt__(self, o):
        return sign(self - o, ">")

    def __eq__(self, o):
        raise NotImplementedError("equality of sums of exponentials")

    __hash__ = None


class TooLarge(NotImplementedError):
    """Powers beyond what is worth writing out."""


def unknowns(*gs):
    """Positive unknowns for the monomials: {key: (z3 real, exponents per unit, least exponent)}."""
    exps = {}
    for g in gs:
        for e in g:
            d = dict(e)
            for k in d:
                exps.setdefault(k, set())
    for k in exps:
        for g in gs:
            for e in g:
                exps[k].add(dict(e).get(k, Fraction(0)))
    out = {}
    for k, qs in exps.items():
        u = math.lcm(*[q.denominator for q in qs])
        if u * max(map(abs, qs)) > 400:
            raise TooLarge
        out[k] = (z3.Real(f"exp!{k}"), u, min(int(q * u) for q in qs))
    return out


def term(g, us):
    """A sum of exponentials as a polynomial in the unknowns (times a common monomial)."""
    ts = []
    for e, c in g.items():
        d, t = dict(e), z3.RealVal(str(c))
        for k, (v, u, lo) in us.items():
            for _ in range(int(d.get(k, 0) * u) - lo):
                t = t * v
        ts.append(t)
    return z3.Sum(ts) if ts else z3.RealVal(0)


def value(g, at):
    return sum(float(c) * math.exp(sum(float(q) * at(k) for k, q in e)) for e, c in g.items())


def sign(x, op):
    """x < 0 or x > 0, only when it has one sign for all positive unknowns."""
    try:
        us = unknowns(x.q.n, x.q.d)
        n, d = term(x.q.n, us), term(x.q.d, us)
        pos = [v > 0 for v, _, _ in us.values()]
        tries = ((n * d < 0, op == "<"), (n * d > 0, op == ">"))
    except TooLarge:
        tries = ()
    for f, r in tries:
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(*pos, z3.Not(f))
        if s.check() == z3.unsat:
            return r
    # one proposition for each quotient and direction (x < 0 and -x > 0 are the same)
    g = gmul(x.q.n, x.q.d)
    if op == ">":
        g = {e: -c for e, c in g.items()}
    c = abs(min(g.items())[1])
    return S.wrap_bool(B.U.var("sign!" + repr(sorted((e, str(v / c)) for e, v in g.items()))))


def ask(assumed, different):
    s = z3.Solver()
    s.set("timeout", 60000)
    s.add(*assumed, different)
    t = time.time()
    r = s.check()
    st = core.E.stats
    st.queries += 1
    st.solver_s += time.time() - t
    st.unsat += r == z3.unsat
    st.sat += r == z3.sat
    return r


def rounded(g):
    """Constant factors as coefficients, other exponents to 2^-30."""
    one, out, g2 = key(z3.RealVal(1)), {}, {}
    for e, c in g.items():
        d = dict(e)
        g2[e] = c, d.pop(one, Fraction(0)), tuple((k, Fraction(round(q * 2 ** 30), 2 ** 30)) for k, q in sorted(d.items()))
    for c, q, e in g2.values():
        out[e] = out.get(e, 0) + c * Fraction(math.exp(q))
    return out


def holds(got, want):
    """A bit: got == want.  Where they differ, false at points where they differ visibly."""
    g, w = quot(got), quot(want)
    try:
        us = unknowns(g.n, g.d, w.n, w.d)
        a, b, c, d = (term(x, us) for x in (g.n, w.d, w.n, g.d))
        r = ask([v > 0 for v, _, _ in us.values()], z3.simplify(a * b - c * d, som=True) != 0)
    except TooLarge:
        r = z3.sat
    if r != z3.unsat:
        # up to rounding, and with an unknown for each exponential (they are linearly independent)
        x, y = rounded(gmul(g.n, w.d)), rounded(gmul(w.n, g.d))
        ts, pos = [], []
        for j, e in enumerate(sorted(set(x) | set(y))):
            p, q = x.get(e, Fraction(0)), y.get(e, Fraction(0))
            v = z3.Real(f"mono!{j}")
            pos.append(v > 0)
            if abs(p - q) > Fraction(1, 10 ** 9) * (abs(p) + abs(q)):
                ts.append(z3.RealVal(str(p - q)) * v)
        r = ask(pos, z3.Sum(ts) != 0 if ts else z3.BoolVal(False))
    if r == z3.unsat:
        return B.ONE
    if r == z3.unknown:
        raise core.Budget("identity of exponential sums undecided")
    keys = sorted({k for x in (g.n, g.d, w.n, w.d) for e in x for k, _ in e})
    names = sorted({v for k in keys for v in inputs(KEYS[k])}, key=lambda v: v.sexpr())
    ranges = [S.RANGES.get(str(v), (None, None)) for v in names]
    ok = []
    for j in range(40):
        pt = {}
        for i, (v, (lo, hi)) in enumerate(zip(names, ranges)):
            lo, hi = Fraction(-2) if lo is None else lo, Fraction(2) if hi is None else hi
            pt[str(v)] = lo + (hi - lo) * Fraction((7 * i * i + 13 * i + 11 * j + 3 * i * j) % 31 + 1, 33)

        def at(k):
            t = z3.simplify(z3.substitute(KEYS[k], *[(v, z3.RealVal(str(pt[str(v)]))) for v in names]))
            x = float(S.num(t))
            return math.log(x) if k.startswith("log ") else x
        try:
            p, q = value(g.n, at) / value(g.d, at), value(w.n, at) / value(w.d, at)
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        if abs(p - q) > 1e-5 * (abs(p) + abs(q)):
            ok.append(z3.And(*[v == z3.RealVal(str(pt[str(v)])) for v in names]) if names else z3.BoolVal(True))
        if len(ok) == 12:
            break
    if not ok:
        raise core.Budget("exponential sums differ, but nowhere visibly")
    return B.U.from_z3(z3.Not(z3.Or(*ok)))


def inputs(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if x.num_args() == 0 and S.num(x) is None:
            out.append(x)
        todo.extend(x.children())
    return out


# ------------------------------------------------------------------- models
def exact():
    return core.E is not None and core.E.exact_logs


def _log(x):
    if isinstance(x, SymL):
        raise NotImplementedError("log of a log")
    q = quot(x)
    return SymL(q)


def _exp(x):
    return SymQ(lquot(x))


def _logaddexp(a, b):
    return SymL(lquot(a).add(lquot(b)))


def _log1p(x):
    return SymL(quot(x).add(Quot(GONE)))


def switch(name, f, g):
    def h(*xs):
        if exact() or any(isinstance(x, (SymL, SymQ)) for x in xs):
            return g(*xs)
        return f(*xs)
    A.MODELS[name] = h


for _n, _g in (("log", _log), ("exp", _exp), ("logaddexp", _logaddexp), ("log1p", _log1p)):
    switch(_n, A.MODELS[_n], _g)


def peak(a, b):
    """Of two logs, one that is not -inf: only ever used to scale, which must not matter.
    Quotients, and logs against numbers, are compared."""
    for x, y in ((a, b), (b, a)):
        if not S.is_sym(x) and x == -math.inf or isinstance(x, SymL) and not x.q.n:
            return y
    if not S.is_sym(a) and not S.is_sym(b):
        return max(a, b)
    if all(isinstance(x, SymL) or isinstance(x, S.SymReal) for x in (a, b)):
        return a
    return b if core.E.decide(S.truth_bit(b > a if isinstance(b, (SymL, SymQ)) else a < b)) else a
