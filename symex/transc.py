"""exp, log1p(exp(.)) and logaddexp on symbolic reals: uninterpreted functions with the
facts the code relies on, instantiated for the terms that occur.  All axioms hold for the
real functions, so what they prove is true; what they leave open can give a counterexample
that the replay rejects (no verdict), never a missed violation within the bounds.

  log(t) increasing, log(1) = 0, -inf at 0
  exp(t) > 0, increasing, exp(0) = 1
  sp(t) = log(1 + exp(t)):  max(0, t) < sp(t) <= max(0, t) + 0.6932, and for t < u:
        0 < sp(u) - sp(t) < u - t,   < (u - t) / 2 when u <= 0,   > (u - t) / 2 when t >= 0
"""
import math
from fractions import Fraction

import numpy as np
import z3

from . import bits as B
from . import core
from . import cplx
from . import sarr as A
from . import sym as S

EXP = z3.Function("exp!", z3.RealSort(), z3.RealSort())
LOG = z3.Function("log!", z3.RealSort(), z3.RealSort())
SP = z3.Function("softplus!", z3.RealSort(), z3.RealSort())
WINDOW = 32
LN2 = z3.RealVal("0.6932")
LN_2 = z3.RealVal(Fraction(math.log(2)))
NEAR = z3.RealVal("1/1000000000")


def _recent(name):
    d = core.E.__dict__.setdefault("transc", {})
    return d.setdefault(name, [])


def _recent_terms(name):
    return [u for u, _ in _recent(name)]


def leaves(t):
    """The variables and function values a term is made of."""
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.num_args() == 0 or x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if S.num(x) is None:
                out.add(x.get_id() if x.num_args() == 0 else -1 - x.get_id())
        else:
            todo.extend(x.children())
    return frozenset(out)


def _push(name, t, every=False):
    """Remembers t; the recent terms over the same values, which t is to be compared with."""
    r = _recent(name)
    if any(u.eq(t) for u, _ in r):
        return []
    lv = leaves(t)
    plain = all(i >= 0 for i in lv)
    out = [u for u, l in r if every or l == lv or name == "exp" and plain and all(i >= 0 for i in l)]
    r.append((t, lv))
    del r[:-WINDOW]
    return out


def exp(x):
    if not S.is_sym(x):
        return math.exp(x)
    t = B.U.expand(S.realval(x))
    e, ax = EXP(t), core.E.add_axiom
    ax(e > 0)
    ax((t == 0) == (e == 1))
    ax((t > 0) == (e > 1))
    # exp(-ln 2) = 1/2; the slope is below 1 there
    ax(z3.Implies(t > -LN_2 + NEAR, 2 * e > 1))
    ax(z3.Implies(t < -LN_2 - NEAR, 2 * e < 1))
    ax(z3.Implies(z3.And(t >= -LN_2 - NEAR, t <= -LN_2 + NEAR), z3.And(2 * e > 1 - 2 * NEAR, 2 * e < 1 + 2 * NEAR)))
    for u in _recent_terms("exp"):
        for x, y in ((t, u), (u, t)):
            if S.num(z3.simplify(x - 2 * y, som=True)) == 0 and S.num(x) is None:
                ax(EXP(x) == EXP(y) * EXP(y))
    for u in _push("exp", t):
        ax((t < u) == (e < EXP(u)))
        ax((t == u) == (e == EXP(u)))
    return S.SymReal(e)


def softplus(t):
    """log(1 + exp(t)) for a z3 real term."""
    e, ax = SP(t), core.E.add_axiom
    zero = z3.RealVal(0)
    ax(z3.And(e > 0, e > t))
    ax(e <= z3.If(t > 0, t, zero) + LN2)
    for u in _push("sp", t):
        f = SP(u)
        for a, b, fa, fb in ((t, u, e, f), (u, t, f, e)):
            ax(z3.Implies(a < b, z3.And(fb - fa > 0, fb - fa < b - a,
                                        z3.Implies(b <= 0, 2 * (fb - fa) < b - a),
                                        z3.Implies(a >= 0, 2 * (fb - fa) > b - a))))
    return S.SymReal(e)


def log1p(x):
    if not S.is_sym(x):
        return math.log1p(x)
    e = S.realval(x)
    if z3.is_app(e) and e.decl().eq(EXP):
        return softplus(e.arg(0))
    raise NotImplementedError("log1p of a symbolic real other than an exponential")


def logaddexp(a, b):
    if not S.is_sym(a) and not S.is_sym(b):
        import numpy as np
        return float(np.logaddexp(a, b))
    for x, y in ((a, b), (b, a)):
        if not S.is_sym(x) and x == -math.inf:
            return y
    a, b = S.realval(a), S.realval(b)
    d = z3.If(a <= b, a - b, b - a)
    return S.SymReal(z3.If(a <= b, b, a)) + softplus(d)


def factors(t):
    """A positive term as a quotient of products: (numerators, denominators), or None."""
    if z3.is_div(t):
        up, down = factors(t.arg(0)), factors(t.arg(1))
        up, down = up or ([t.arg(0)], []), down or ([t.arg(1)], [])
        up, down = up[0] + down[1], up[1] + down[0]
    elif z3.is_mul(t):
        up, down = [], []
        for a in t.children():
            f = factors(a) or ([a], [])
            up += f[0]
            down += f[1]
    else:
        return None
    return up, down


def split_log(t, f):
    """log of a quotient of products of positive factors, or None."""
    parts = factors(z3.simplify(t))
    if parts is None or len(parts[0]) + len(parts[1]) > 6:
        return None
    if not all(S.num(a) is not None and S.num(a) > 0 or core.E.forced(B.U.from_z3(a > 0)) for a in parts[0] + parts[1]):
        return None
    r = 0.0
    for fs, sign in zip(parts, (1, -1)):
        for a in fs:
            r = r + sign * f(float(S.num(a)) if S.num(a) is not None else S.mkreal(a))
    return r


def log(x):
    """Uninterpreted, increasing, log(1) = 0; log of quotients and products; -inf at 0."""
    if not S.is_sym(x):
        return (math.log(x) if x else -math.inf) if x != math.inf else x
    t = S.realval(x)
    r = split_log(t, log)
    if r is not None:
        return r
    if core.E.decide(S.truth_bit(x == 0)):
        return -math.inf
    e, ax = LOG(t), core.E.add_axiom
    ax((t == 1) == (e == 0))
    ax((t > 1) == (e > 0))
    for u in _push("log", t, True):
        ax((t < u) == (e < LOG(u)))
        ax((t == u) == (e == LOG(u)))
    return S.SymReal(e)


A.MODELS.update({"log": log, "exp": exp, "log1p": log1p, "logaddexp": logaddexp})


LOG2 = z3.Function("log2!", z3.RealSort(), z3.RealSort())


def value_set(t, limit=64):
    """The finitely many values of a term whose variables only choose between constants, or None."""
    v = S.num(t)
    if v is not None:
        return {Fraction(v)}
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        parts = [value_set(a, limit) for a in t.children()[1:]]
        return None if None in parts or len(parts[0] | parts[1]) > limit else parts[0] | parts[1]
    ops = {z3.Z3_OP_ADD: lambda a, b: a + b, z3.Z3_OP_MUL: lambda a, b: a * b, z3.Z3_OP_SUB: lambda a, b: a - b,
           z3.Z3_OP_DIV: lambda a, b: a / b, z3.Z3_OP_UMINUS: None}
    k = t.decl().kind()
    if k not in ops:
        return None
    out = None
    for a in t.children():
        p = value_set(a, limit)
        if p is None or k == z3.Z3_OP_DIV and out is not None and 0 in p:
            return None
        out = ({-u for u in p} if k == z3.Z3_OP_UMINUS else p) if out is None else {ops[k](u, v) for u in out for v in p}
        if len(out) > limit * 4:
            return None
    return out


def settled(t):
    """The value of such a term on this path (one path for each), or None."""
    vs = value_set(t)
    for v in sorted(vs) if vs is not None else ():
        if core.E.decide(B.U.from_z3(t == z3.RealVal(v))):
            return float(v)
    return None


def log2(x):
    """Uninterpreted, increasing, exact at the powers of two from 2^-16 to 2^16; -inf at 0."""
    if not S.is_sym(x):
        return (math.log2(x) if x else -math.inf) if x != math.inf else x
    t = S.realval(x)
    r = settled(t)
    if r is not None:
        return log2(r)
    r = split_log(t, log2) if core.E.normal_forms else None
    if r is not None:
        return r
    if z3.is_div(t) and S.num(t.arg(0)) == 1:
        d = log2(S.mkreal(t.arg(1)))
        return math.inf if not S.is_sym(d) and d == -math.inf else -d
    if core.E.decide(S.truth_bit(x == 0)):
        return -math.inf
    t = B.U.expand(t)
    e, ax = LOG2(t), core.E.add_axiom
    for k in range(-16, 17):
        v = z3.Q(1, 2 ** -k) if k < 0 else z3.RealVal(2 ** k)
        ax((t < v) == (e < k))
        ax((t == v) == (e == k))
    for u in _push("log2", t, True):
        ax((t < u) == (e < LOG2(u)))
        ax((t == u) == (e == LOG2(u)))
    return S.SymReal(e)


A.MODELS["log2"] = log2


# Trigonometry in half turns: sin(t) = SIN(t / pi), the float np.pi standing for pi.
# Arguments are brought to a normal form (leading coefficient positive, multiples of a
# quarter turn taken out); the terms that occur are related by |.| <= 1, Pythagoras, the
# values and signs in the first turn, double angles, and s + u in {0, 1}.
SIN = z3.Function("sinpi!", z3.RealSort(), z3.RealSort())
COS = z3.Function("cospi!", z3.RealSort(), z3.RealSort())
SINC = z3.Function("sinc!", z3.RealSort(), z3.RealSort())
PI = z3.RealVal(Fraction(math.pi))


def _monomials(t):
    """A polynomial term as {frozen monomial: coefficient}; None when it is not a plain sum."""
    t = z3.simplify(t, som=True)
    out = []
    for m in t.children() if z3.is_add(t) else [t]:
        v = S.num(m)
        if v is not None:
            out.append((Fraction(v), None))
        elif z3.is_mul(m) and S.num(m.arg(0)) is not None:
            rest = m.children()[1:]
            r = rest[0]
            for x in rest[1:]:
                r = r * x
            out.append((Fraction(S.num(m.arg(0))), r))
        else:
            out.append((Fraction(1), m))
    return out


def _build(ms):
    t = None
    for c, m in ms:
        x = m if c == 1 else z3.RealVal(c) * m
        t = x if t is None else t + x
    return t if t is not None else z3.RealVal(0)


def _turn(x):
    """sin and cos of a real term, as SymReals."""
    ms = [(c / Fraction(math.pi), m) for c, m in _monomials(B.U.expand(S.realval(x)))]
    k = sum((c for c, m in ms if m is None), Fraction(0))
    ms = [(c, m) for c, m in ms if m is not None]
    ms = [(c.limit_denominator(10 ** 6) if abs(c - c.limit_denominator(10 ** 6)) < Fraction(1, 10 ** 13) else c, m) for c, m in ms]
    kk = k.limit_denominator(10 ** 6)
    k = kk if abs(k - kk) < Fraction(1, 10 ** 13) else k
    sign = -1 if ms and ms[0][0] < 0 else 1
    if sign < 0:
        ms, k = [(-c, m) for c, m in ms], -k
    q = 0
    if (2 * k).denominator == 1:
        q, k = int(2 * k) % 4, Fraction(0)
    if not ms:
        s, c = (0.0, 1.0) if k == 0 else (math.sin(math.pi * k), math.cos(math.pi * k))
    else:
        t = _build(ms)
        if k:
            t = t + z3.RealVal(k)
        s, c = _sincos(t)
    for _ in range(q):
        s, c = c, -s
    return (-s if sign < 0 else s), c


def _sincos(t):
    s, c, ax = SIN(t), COS(t), core.E.add_axiom
    h = z3.RealVal("1/2")
    ax(s * s + c * c == 1)
    ax(z3.And(s <= 1, s >= -1, c <= 1, c >= -1))
    ax(z3.Implies(t == 0, z3.And(s == 0, c == 1)))
    ax(z3.Implies(z3.Or(t == 1, t == -1), z3.And(s == 0, c == -1)))
    ax(z3.Implies(t == h, z3.And(s == 1, c == 0)))
    ax(z3.Implies(t == -h, z3.And(s == -1, c == 0)))
    ax(z3.Implies(z3.And(t > 0, t < 1), s > 0))
    ax(z3.Implies(z3.And(t < 0, t > -1), s < 0))
    ax(z3.Implies(z3.And(t > -h, t < h), c > 0))
    ax(z3.Implies(z3.Or(z3.And(t > h, t < 3 * h), z3.And(t < -h, t > -3 * h)), c < 0))
    for u in _push("trig", t, True):
        a, b = SIN(u), COS(u)
        for x, y, sx, cx, sy, cy in ((t, u, s, c, a, b), (u, t, a, b, s, c)):
            if S.num(z3.simplify(x - 2 * y, som=True)) == 0:
                ax(z3.And(sx == 2 * sy * cy, cx == 1 - 2 * sy * sy))
        ax(z3.Implies(t == u, z3.And(s == a, c == b)))
        ax(z3.Implies(t + u == 0, z3.And(s == -a, c == b)))
        ax(z3.Implies(t + u == 1, z3.And(s == a, c == -b)))
        ax(z3.Implies(z3.Or(t - u == 1, u - t == 1), z3.And(s == -a, c == -b)))
    return S.SymReal(s), S.SymReal(c)


def sin(x):
    return _turn(x)[0] if S.is_sym(x) else math.sin(x)


def cos(x):
    return _turn(x)[1] if S.is_sym(x) else math.cos(x)


def sinc(x):
    if not S.is_sym(x):
        return float(np.sinc(x))
    ms = _monomials(B.U.expand(S.realval(x)))
    if next((c for c, m in ms if m is not None), 1) < 0:
        ms = [(-c, m) for c, m in ms]
    t = _build([(c, z3.RealVal(1) if m is None else m) for c, m in ms])
    e, ax = SINC(t), core.E.add_axiom
    s = S.realval(_turn(S.SymReal(PI * t))[0])
    ax(z3.And(e <= 1, e >= z3.RealVal("-1/4")))
    ax(z3.Implies(t == 0, e == 1))
    ax(z3.Implies(t != 0, e * t * PI == s))
    return S.SymReal(e)


def cexp(z):
    if not hasattr(z, "imag") or not S.is_sym(z):
        return complex(np.exp(z))
    if isinstance(z, (S.SymReal, S.SymInt)):
        return exp(z)
    r = exp(z.real) if S.is_sym(z.real) else math.exp(z.real)
    s, c = (sin(z.imag), cos(z.imag))
    return cplx.mkc(r * c, r * s)


A.MODELS.update({"sin": sin, "cos": cos})
A.CMODELS.update({"exp": cexp})


@A.impl(np.sinc)
def f_sinc(x):
    return A.elementwise(A.asarr(x), sinc, "f")
