"""C28 information measures and the box-plus operation."""
import itertools
import math

import numpy as np

import komm
from symex.reg import prop

P28 = prop("C28")
P28.assumes += ["exact real arithmetic; logarithms are uninterpreted increasing functions with log(1) = 0 and log(1/x) = -log(x)"]
INFO = komm._util.information_theory


def pmf_of(ctx, n, name="p", zeros=()):
    """Any distribution with zeros exactly where stated."""
    free = [i for i in range(n) if i not in zeros]
    q = list(ctx.reals(name, len(free) - 1, lo=0, hi=1)) if len(free) > 1 else []
    for v in q:
        ctx.assume(v > 0)
    last = 1 - sum(q) if q else 1.0
    if q:
        ctx.assume(last > 0)
    d = dict(zip(free, q + [last]))
    return [d.get(i, 0.0) for i in range(n)]


def lg(ctx, v, base):
    """The logarithm of a positive number."""
    f = np.log if base == "e" else np.log2
    if isinstance(v, float):
        return float(f(v))
    return f(ctx.array([v], "f"))[0]


def scale(base):
    return 1.0 if base in ("e", 2) else math.log2(base)


def plog(ctx, p, q, base):
    """p log q, nothing where p is zero."""
    return 0.0 if isinstance(p, float) and p == 0 else p * lg(ctx, q, base)


def close(a, b, tol=1e-6):
    return abs(a - b) < tol


def entropy(n, zeros, base):
    def run(ctx):
        ctx.normal_forms()
        p = pmf_of(ctx, n, "p", zeros)
        v = ctx.array(p, "f")
        want = -sum(plog(ctx, x, x, base) for x in p)
        ctx.check(close(komm.entropy(v, base), want), "minus the sum of p log p")
        ctx.check(close(komm.DiscreteMemorylessSource(v).entropy_rate(base), want), "entropy rate of the source")
        if base == 2:
            ctx.check(close(komm.entropy(v), want), "bits by default")
            for b in (4.0, 8.0):
                pass
        if base == "e":
            for b in (4.0, 10.0):
                ctx.check(close(komm.entropy(v, b) * math.log(b), want), "other bases")
        if n == 2 and base == 2:
            ctx.check(close(komm.binary_entropy(p[0]), want), "binary entropy")
    return run


def relative(n, zp, zq, base):
    def run(ctx):
        ctx.normal_forms()
        p, q = pmf_of(ctx, n, "p", zp), pmf_of(ctx, n, "q", zq)
        got = komm.relative_entropy(ctx.array(p, "f"), ctx.array(q, "f"), base)
        if any(i not in zp for i in zq):
            ctx.check(got == math.inf, "infinite when q misses a symbol of p")
            return
        want = sum(plog(ctx, x, x, base) - plog(ctx, x, y, base) for x, y in zip(p, q))
        ctx.check(close(got, want), "the sum of p log(p/q)")
        ctx.check(close(komm.relative_entropy(ctx.array(p, "f"), ctx.array(p, "f"), base), 0), "zero for equal distributions")
    return run


def mutual(n, m, zp, zt, base):
    def run(ctx):
        ctx.normal_forms()
        p = pmf_of(ctx, n, "p", zp)
        t = [pmf_of(ctx, m, f"t{i}.", [j for (k, j) in zt if k == i]) for i in range(n)]
        ch = komm.DiscreteMemorylessChannel(ctx.array([x for r in t for x in r], "f").reshape(n, m))
        got = ch.mutual_information(ctx.array(p, "f"), base)
        out = [sum(p[i] * t[i][j] for i in range(n)) for j in range(m)]
        want = sum(p[i] * plog(ctx, t[i][j], t[i][j], base) for i in range(n) for j in range(m))
        want = want - sum(plog(ctx, x, x, base) for x in out)
        ctx.check(close(got, want), "output entropy less the mean entropy of the rows")
    return run


def binary_channels(base):
    def run(ctx):
        ctx.normal_forms()
        e, (a, b) = ctx.real("e", lo=0, hi=1), pmf_of(ctx, 2)
        ctx.assume((e > 0) & (e < 1))
        s = 1 if base == 2 else math.log2(math.e if base == "e" else base)
        pi = ctx.array([a, b], "f")

        def h(x):
            return -(x * lg(ctx, x, 2) + (1 - x) * lg(ctx, 1 - x, 2))
        flip = b * (1 - e) + a * e
        ch = komm.BinarySymmetricChannel(e)
        ctx.check(close(ch.mutual_information(pi, base) * s, h(flip) - h(e)), "symmetric channel")
        ctx.check(close(ch.capacity(base) * s, 1 - h(e)), "capacity of the symmetric channel")
        ch = komm.BinaryErasureChannel(e)
        ctx.check(close(ch.mutual_information(pi, base) * s, (1 - e) * h(b)), "erasure channel")
        ctx.check(close(ch.capacity(base) * s, 1 - e), "capacity of the erasure channel")
        ch = komm.ZChannel(e)
        ctx.check(close(ch.mutual_information(pi, base) * s, h(b * (1 - e)) - b * h(e)), "Z channel")
    return run


def general_binary(which):
    """The closed forms against the general formula on the same transition matrix."""
    def run(ctx):
        ctx.normal_forms()
        e, (a, b) = ctx.real("e", lo=0, hi=1), pmf_of(ctx, 2)
        ctx.assume((e > 0) & (e < 1))
        pi = ctx.array([a, b], "f")
        ch = getattr(komm, which)(e)
        ctx.check(close(ch.mutual_information(pi), INFO.mutual_information(pi, ch.transition_matrix)), "the general formula")
    return run


def deterministic(ctx):
    for e in (0.0, 1.0):
        for which, cap in ((komm.BinarySymmetricChannel, 1), (komm.BinaryErasureChannel, 1 - e), (komm.ZChannel, 1 - e)):
            a, b = pmf_of(ctx, 2, "p")
            pi = ctx.array([a, b], "f")
            ch = which(e)
            ctx.check(close(ch.capacity(), cap), "capacity without randomness")
            want = komm.binary_entropy(b) * cap
            ctx.check(close(ch.mutual_information(pi), want), "all or nothing gets through")
    for v in (0.0, 1.0):
        ctx.check(komm.binary_entropy(v) == 0, "no uncertainty")


def inverse(tol):
    def run(ctx):
        h = ctx.real("h", lo=-0.5, hi=1.5)
        ok, r = ctx.attempt(ValueError, lambda: komm.binary_entropy_inv(h, tol))
        ctx.check(((h >= 0) & (h <= 1)) == ok, "entropies in [0, 1]")
        if not ok:
            return
        w = 0.5
        while w > tol:
            w = w / 2
        # the answers bisection can end with
        for c in [0.0, 0.5] + [w * (j + 0.5) for j in range(int(0.5 / w))]:
            if r == c:
                r = c
                break
        ctx.check(isinstance(r, float) and 0 <= r <= 0.5, "in [0, 1/2]")
        lo, hi = max(r - tol / 2, 0.0), min(r + tol / 2, 0.5)
        ctx.check((komm.binary_entropy(lo) <= h + 1e-9) & (komm.binary_entropy(hi) >= h - 1e-9), "within the tolerance of the inverse")
    return run


def bad(ctx):
    b = ctx.real("b", lo=-2, hi=3)
    good = (b > 0) & (abs(b - 1) > 0)
    for f in (lambda: komm.entropy([0.5, 0.5], b), lambda: komm.BinarySymmetricChannel(0.25).capacity(b),
              lambda: komm.relative_entropy([0.5, 0.5], [0.25, 0.75], b)):
        ok, _ = ctx.attempt(ValueError, f)
        ctx.check(good == ok, "bases")
    ctx.check(ctx.raises(ValueError, lambda: komm.entropy([0.5, 0.5], "2")), "named bases")
    p = ctx.reals("p", 2, lo=-1, hi=2)
    s = p[0] + p[1]
    pos, near, far = (p[0] >= 0) & (p[1] >= 0), abs(s - 1) < 1e-6, abs(s - 1) > 2e-5
    for f in (lambda: komm.entropy(p), lambda: komm.relative_entropy(p, [0.5, 0.5]), lambda: komm.relative_entropy([0.5, 0.5], p),
              lambda: komm.BinarySymmetricChannel(0.25).mutual_information(p)):
        ok, _ = ctx.attempt(ValueError, f)
        ctx.check(((pos & near) == False) | ok, "distributions accepted")  # noqa: E712
        ctx.check((pos & (far == False)) | (not ok), "anything else refused")  # noqa: E712
    ctx.check(ctx.raises(ValueError, lambda: komm.relative_entropy([0.5, 0.5], [1.0])), "distributions of one size")
    x = ctx.real("x", lo=-1, hi=2)
    ok, _ = ctx.attempt(ValueError, lambda: komm.binary_entropy(x))
    ctx.check(((x >= 0) & (x <= 1)) == ok, "probabilities")


def boxplus(shape):
    def run(ctx):
        n = int(np.prod(shape))
        a, b = (ctx.reals(v, n, lo=-40, hi=40) for v in "ab")
        r = komm.boxplus(a.reshape(shape), b.reshape(shape))
        if shape:
            ctx.check(r.shape == shape, "shape")
        rs = r.ravel() if shape else [r]
        for x, y, z in zip(a, b, rs):
            s, d = abs(x + y), abs(x - y)
            corr = np.log1p(np.exp(ctx.array([-s, -d], "f")))
            # log(1 + e^(x+y)) - log(e^x + e^y)
            ctx.check(close(z, (x + y + s) / 2 - (x + y + d) / 2 + corr[0] - corr[1]), "the log ratio of the sum bit")
            ctx.check((abs(z) <= abs(x) + 1e-9) & (abs(z) <= abs(y) + 1e-9), "no surer than either")
            ctx.check((((x >= 0) == (y >= 0)) == False) | (z >= -1e-9), "sign of the product")  # noqa: E712
            ctx.check(((x >= 0) == (y >= 0)) | (z <= 1e-9), "sign of the product")
        w = komm.boxplus(b.reshape(shape), a.reshape(shape))
        for z, y in zip(rs, w.ravel() if shape else [w]):
            ctx.check(close(z, y), "commutative")
    return run


def boxplus_bad(ctx):
    a, b = ctx.reals("a", 2, lo=-4, hi=4), ctx.reals("b", 3, lo=-4, hi=4)
    ctx.check(ctx.raises(ValueError, lambda: komm.boxplus(a, b)), "shapes that differ")
    z = komm.boxplus(a, np.zeros(2))
    for v in z:
        ctx.check(close(v, 0), "nothing known of one, nothing known of the sum")


for n, zs in ((1, ()), (2, ()), (2, (0,)), (3, ()), (3, (1,)), (4, (0, 3)), (4, ())):
    for base in (2, "e"):
        P28.add(f"entropy/{n}/{''.join(map(str, zs))}/{base}", entropy(n, zs, base), bounds=f"every pmf on {n} symbols with these zeros", cost=n)
for n, zp, zq in ((1, (), ()), (2, (), ()), (3, (), ()), (3, (0,), ()), (3, (0,), (0,)), (3, (), (2,)), (3, (0,), (0, 1))):
    for base in (2, "e"):
        P28.add(f"relative/{n}/{''.join(map(str, zp))}.{''.join(map(str, zq))}/{base}", relative(n, zp, zq, base),
                bounds=f"every two pmfs on {n} symbols with these zeros", cost=n)
for n, m, zp, zt in ((2, 2, (), ()), (2, 2, (0,), ()), (2, 3, (), ((0, 2), (1, 0))), (2, 2, (), ((0, 1), (1, 1))), (3, 2, (1,), ()), (2, 3, (), ())):
    for base in (2, "e"):
        P28.add(f"mutual/{n}.{m}/{''.join(map(str, zp))}/{''.join(f'{i}{j}' for i, j in zt)}/{base}", mutual(n, m, zp, zt, base),
                bounds=f"every pmf and {n}x{m} transition matrix with these zeros", cost=n * m, query_ms=4000)
for base in (2, "e", 4.0):
    P28.add(f"binary/{base}", binary_channels(base), bounds="every channel parameter in (0, 1) and input pmf", cost=4, query_ms=4000)
for w in ("BinarySymmetricChannel", "BinaryErasureChannel", "ZChannel"):
    P28.add(f"general/{w}", general_binary(w), bounds="every channel parameter in (0, 1) and input pmf", cost=4, query_ms=4000)
P28.add("deterministic", deterministic, bounds="every input pmf", cost=2)
for tol in (0.2, 0.05, 0.01):
    P28.add(f"inverse/{tol}", inverse(tol), bounds="every entropy in [-1/2, 3/2]", cost=3)
P28.add("invalid", bad, bounds="numbers in [-2, 3]", cost=3)
for shape in ((), (1,), (2,), (1, 2)):
    P28.add(f"boxplus/{'x'.join(map(str, shape))}", boxplus(shape), bounds="every two L-values up to 40", cost=4)
P28.add("boxplus/other", boxplus_bad, bounds="L-values up to 4", cost=1)
