"""Harness contexts.  The same harness text runs symbolically (SymCtx, transformed
komm) and concretely (RealCtx, the unmodified komm on the interpreter it is
installed in)."""
from fractions import Fraction

import numpy as np


class Base:
    symbolic = False

    def bit(self, name):
        return self.int(name, 0, 1)

    def bits(self, name, *shape):
        n = 1
        for d in shape:
            n *= d
        return self.array([self.int(f"{name}{i}", 0, 1) for i in range(n)], "i").reshape(shape)

    def ints(self, name, n, lo, hi):
        return self.array([self.int(f"{name}{i}", lo, hi) for i in range(n)], "i")

    def reals(self, name, *shape, lo=None, hi=None):
        n = 1
        for d in shape:
            n *= d
        return self.array([self.real(f"{name}{i}", lo, hi) for i in range(n)], "f").reshape(shape)

    def eq(self, got, want, label):
        """Array (or scalar) equality, with equal shapes."""
        g, w = self.asarray(got), self.asarray(want)
        if tuple(g.shape) != tuple(w.shape):
            self.check(False, label + ":shape")
            return
        self.check(self.all_eq(g, w), label)


class RealCtx(Base):
    """Replays one assignment."""

    def __init__(self, assignment, known=()):
        self.a = assignment
        self.failed = []
        self.obs = []
        self.labels = []
        self.unmet = False
        self.known_ids = set(known)

    def int(self, name, lo, hi):
        return int(self.a.get(name, lo))

    def boolean(self, name):
        return bool(self.a.get(name, 0))

    def real(self, name, lo=None, hi=None):
        v = self.a.get(name)
        if v is None:
            return float(lo if lo is not None else 0.0)
        return float(Fraction(v))

    def fixed(self, xs):
        """Same values, one path per combination."""
        return np.array(xs)

    def fix(self, x):
        return x

    def settle_signs(self):
        """Ask the solver for the signs of reals as they are needed (saves case splits later)."""

    def normal_forms(self):
        """Expand polynomials that are compared through abs()."""

    def exact_logs(self):
        """Sums of exponentials exactly (gexp)."""

    def exp(self, x):
        return np.exp(np.asarray(x, dtype=float))

    def identity(self, got, want, label):
        """Equal, as functions of the real inputs."""
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        self.check(g.shape == w.shape and bool(np.all(np.abs(g - w) <= 1e-7 * (np.abs(g) + np.abs(w)))), label)

    def array(self, xs, k=None):
        return np.array(xs, dtype={"i": int, "f": float, "b": bool, None: None, "c": complex}[k])

    def asarray(self, x):
        return np.asarray(x)

    def all_eq(self, g, w):
        return bool(np.all(g == w))

    def close(self, g, w, tol=1e-9):
        g, w = np.asarray(g, dtype=float), np.asarray(w, dtype=float)
        return g.shape == w.shape and bool(np.all(np.abs(g - w) <= tol))

    def assume(self, c):
        if not c:
            self.unmet = True
            raise Unmet

    def check(self, c, label):
        self.labels.append(label)
        if not c:
            self.failed.append(label)

    def check_known(self, c, label, kid, pred):
        """check(c), where the listed finding kid excuses exactly the inputs with pred."""
        self.labels.append(label)
        if not c and not (kid in self.known_ids and pred):
            self.failed.append(label)

    def observe(self, label, v):
        self.obs.append([label, plain(v)])

    def raises(self, exc, f):
        try:
            f()
        except exc:
            return True
        return False

    def attempt(self, exc, f):
        """(True, value) or (False, exception) for the listed exception types."""
        try:
            return True, f()
        except exc as e:
            return False, e


class Unmet(Exception):
    pass


def plain(v):
    if isinstance(v, np.ndarray):
        return [plain(x) for x in v]  if v.ndim else plain(v[()])
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return sorted([plain(k), plain(x)] for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return sorted(plain(x) for x in v)
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return int(v) if float(v).is_integer() and abs(v) < 2 ** 52 else float(v)
    if isinstance(v, (complex, np.complexfloating)):
        return [plain(v.real), plain(v.imag)]
    if isinstance(v, str) or v is None:
        return v
    if hasattr(v, "value"):
        return plain(v.value)
    return repr(v)


class SymCtx(Base):
    symbolic = True

    def __init__(self, run):
        from . import bits, core, rt, sarr, sym
        self.B, self.C, self.R, self.A, self.S = bits, core, rt, sarr, sym
        self.run = run
        self.decl = {}
        self.obs = []

    # ---- inputs
    def int(self, name, lo, hi):
        B, S, E = self.B, self.S, self.C.E
        self.decl[name] = ("int", lo, hi)
        w = max(hi.bit_length() if hi >= 0 else (~hi).bit_length(), (~lo).bit_length() if lo < 0 else lo.bit_length())
        if lo == hi:
            return lo
        bits = [B.U.var(f"{name}.{i}") for i in range(w)]
        sign = B.U.var(f"{name}.s") if lo < 0 else B.ZERO
        x = S.SymInt(tuple(bits), sign, -(1 << w) if lo < 0 else 0, (1 << w) - 1)
        ok = B.and_(S.not_(S.cmp_lt(x, lo)), S.not_(S.cmp_lt(hi, x)))
        E.assume(ok)
        r = S.mkint(bits, sign, lo, hi)
        if self.run.concrete_inputs:
            return int(S.concretise(r))
        return r

    def boolean(self, name):
        self.decl[name] = ("bool",)
        return self.S.wrap_bool(self.B.U.var(f"{name}.0"))

    def real(self, name, lo=None, hi=None):
        import z3
        self.decl[name] = ("real", lo, hi)
        e = z3.Real(name)
        x = self.S.SymReal(e)
        self.run.reals[name] = e
        self.B.U.has_real = True
        self.S.RANGES[name] = tuple(None if v is None else self.S.Fraction(v) for v in (lo, hi))
        if lo is not None:
            self.C.E.assume(self.B.U.from_z3(e >= self.S.realval(lo)))
        if hi is not None:
            self.C.E.assume(self.B.U.from_z3(e <= self.S.realval(hi)))
        return x

    def fixed(self, xs):
        return np.array([self.fix(x) for x in xs])

    def fix(self, x):
        return self.S.concretise(x)

    def settle_signs(self):
        self.C.E.settle_signs = True

    def normal_forms(self):
        self.C.E.normal_forms = True

    def exact_logs(self):
        self.C.E.exact_logs = True

    def exp(self, x):
        from . import gexp
        a = self.A.asarr(x)
        return self.A.elementwise(a, gexp._exp, "f") if a.ndim else gexp._exp(a.raw()[()])

    def identity(self, got, want, label):
        from . import gexp
        g, w = self.A.asarr(got), self.A.asarr(want)
        if g.shape != w.shape:
            self.check(False, label)
            return
        ok = self.B.and_all([gexp.holds(x, y) for x, y in zip(g.raw().ravel(), w.raw().ravel())])
        self.run.check(self, ok, label)

    def array(self, xs, k=None):
        xs = list(xs)
        if not any(self.S.is_sym(x) for x in xs):
            return np.array(xs, dtype={"i": int, "f": float, "b": bool, None: None, "c": complex}[k])
        return self.A.from_list(xs, k)

    def asarray(self, x):
        from . import shim
        return shim.as_array(x)

    def all_eq(self, g, w):
        return self.A.a_all(self.A.asarr(np.equal(self.A.asarr(g), self.A.asarr(w))))

    def close(self, g, w, tol=1e-9):
        g, w = self.asarray(g), self.asarray(w)
        if g.shape != w.shape:
            return False
        ga, wa = self.A.asarr(g), self.A.asarr(w)
        return self.A.a_all(self.A.binary(lambda x, y: abs(x - y) <= tol, (ga.reshape(-1), wa.reshape(-1)), "b"))

    # ---- assertions
    def truth(self, c):
        t = self.R.symtruth(c)
        if t is None:
            t = bool(c)
        return self.S.truth_bit(t)

    def assume(self, c):
        self.C.E.assume(self.truth(c))

    def check(self, c, label):
        self.run.check(self, self.truth(c), label)

    def check_known(self, c, label, kid, pred):
        t = self.truth(c)
        if kid not in self.run.known_ids:
            self.run.check(self, t, label)
            return
        self.run.check(self, self.B.or_(t, self.truth(pred)), label)
        self.run.known_hit(self, t, label, kid)

    def observe(self, label, v):
        self.obs.append((label, v))

    def raises(self, exc, f):
        try:
            f()
        except exc:
            return True
        return False

    def attempt(self, exc, f):
        try:
            return True, f()
        except exc as e:
            return False, e

    # ---- evaluation of observations under the current model
    def ev(self, v):
        S, E = self.S, self.C.E
        if isinstance(v, S.SymBool):
            return E.ev(v.b)
        if isinstance(v, S.SymInt):
            r = sum(E.ev(b) << i for i, b in enumerate(v.bits))
            return r - (1 << len(v.bits)) if E.ev(v.sign) else r
        if isinstance(v, S.SymReal):
            n = S.num(E.model_z3.eval(v.e, model_completion=True)) if E.model_z3 is not None else None
            return plain(float(n)) if n is not None else None
        from .cplx import SymC
        if isinstance(v, SymC):
            return [self.ev(v.re), self.ev(v.im)]
        if isinstance(v, self.A.SArr):
            r = v.raw()
            return [self.ev(x if not isinstance(x, np.ndarray) else self.A.wrap(x, v.k)) for x in r] if r.ndim else self.ev(r[()])
        if isinstance(v, np.ndarray):
            return [self.ev(x) for x in v] if v.ndim else self.ev(v[()])
        if isinstance(v, (list, tuple)):
            return [self.ev(x) for x in v]
        if isinstance(v, self.R.SymBytes):
            return [self.ev(x) for x in v.xs]
        if isinstance(v, self.A.LazyNZ):
            return self.ev(v.force())
        if hasattr(v, "value") and not isinstance(v, (int, float, np.generic)):
            return self.ev(v.value)
        return plain(v)
