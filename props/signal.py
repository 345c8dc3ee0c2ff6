"""C22 quantizers, C23 channels and sources, C24 Markov chains, C25 sequences, C26 signal processing."""
import itertools
from fractions import Fraction

import numpy as np

import komm
from symex.reg import prop

# ------------------------------------------------------------------ C22
P22 = prop("C22")
P22.assumes += ["exact real arithmetic (thresholds and levels are not rounded)"]


def scalar_quantizer(L):
    def run(ctx):
        y, t = ctx.reals("y", L, lo=-8, hi=8), ctx.reals("t", L - 1, lo=-8, hi=8)
        ok, q = ctx.attempt(ValueError, lambda: komm.ScalarQuantizer(y, t))
        good = True
        for i in range(L - 1):
            good = good & (y[i] < t[i]) & (t[i] < y[i + 1])
        ctx.check(good == ok, "accepted exactly when levels and thresholds interleave")
        if not ok:
            return
        ctx.eq(q.levels, y, "levels")
        ctx.eq(q.thresholds, t, "thresholds")
        x = ctx.reals("x", 2, lo=-10, hi=10).reshape(2, 1)
        d, v = q.digitize(x), q.quantize(x)
        ctx.check(d.shape == (2, 1) and v.shape == (2, 1), "shapes")
        for i in range(2):
            k = int(ctx.fix(d[i, 0]))
            ctx.check(0 <= k < L, "index in range")
            ctx.check((k == 0 or x[i, 0] >= t[k - 1]) & (k == L - 1 or x[i, 0] < t[k]), "between its thresholds")
            ctx.check(v[i, 0] == y[k], "level of that index")
    return run


def scalar_bad(ly, lt):
    def run(ctx):
        y, t = ctx.reals("y", ly, lo=-8, hi=8), ctx.reals("t", lt, lo=-8, hi=8)
        ctx.check(ctx.raises(ValueError, lambda: komm.ScalarQuantizer(y, t)), "sizes that do not match are refused")
    return run


def uniform(L, how):
    def run(ctx):
        step = ctx.real("s", lo=0, hi=8)
        ctx.assume(step > 0)
        if how == "offset":
            off = ctx.real("o", lo=-4, hi=4)
            q = komm.UniformQuantizer(L, step, off)
        elif how == "plain":
            off = 0
            q = komm.UniformQuantizer(L, step)
        else:
            q = getattr(komm.UniformQuantizer, how)(L, step)
        y, t = q.levels, q.thresholds
        ctx.check(y.shape == (L,) and t.shape == (L - 1,), "sizes")
        for i in range(L - 1):
            ctx.check(abs(y[i + 1] - y[i] - step) < 1e-9, "equally spaced")
            ctx.check(abs(2 * t[i] - y[i] - y[i + 1]) < 1e-9, "thresholds half way")
        if how in ("offset", "plain"):
            ctx.check(abs(sum(y) / L - off * step) < 1e-9, "centred at the offset")
        elif how == "mid_riser":
            ctx.check(abs(2 * y[(L + 1) // 2] - step) < 1e-9, "zero is half way between two levels")
        else:
            ctx.check(abs(y[L // 2]) < 1e-9, "zero is a level")
        x = ctx.array([ctx.real("x", lo=-30, hi=30)], "f")
        k, v = q.digitize(x), q.quantize(x)
        k = int(ctx.fix(k[0]))
        ctx.check(v[0] == y[k], "level of the index")
        for i in range(L):
            if i != k:
                ctx.check(abs(x[0] - v[0]) <= abs(x[0] - y[i]) + 1e-9, "a nearest level")
        ctx.check((x[0] < y[0]) | (x[0] > y[-1]) | (abs(x[0] - v[0]) <= step / 2 + 1e-9), "within half a step")
    return run


def uniform_params(ctx):
    n, s = ctx.int("n", -1, 4), ctx.real("s", lo=-1, hi=1)
    ok, _ = ctx.attempt(ValueError, lambda: komm.UniformQuantizer(int(ctx.fix(n)), s))
    ctx.check(((n > 1) & (s > 0)) == ok, "parameters")


def mse(L, pts):
    """A constant density: the trapezoid rule is off by exactly h^2/6 per unit length."""
    def run(ctx):
        y = np.array([2.0 * i - L for i in range(L)])
        t = [ctx.real(f"t{i}", lo=y[i], hi=y[i + 1]) for i in range(L - 1)]
        for i in range(L - 1):
            ctx.assume((t[i] > y[i]) & (t[i] < y[i + 1]))
        q = komm.ScalarQuantizer(y, ctx.array(t, "f"))
        lo, hi = -L - 1.0, L + 1.0
        m = q.mean_squared_error(lambda x: np.ones_like(x) / 8, (lo, hi), pts)
        edges = [lo] + t + [hi]
        want = 0
        for i in range(L):
            a, b = edges[i], edges[i + 1]
            w = b - a
            exact = ((b - y[i]) * (b - y[i]) * (b - y[i]) - (a - y[i]) * (a - y[i]) * (a - y[i])) / 3
            want = want + (exact + w * w * w * (1.0 / (6 * (pts - 1) ** 2))) / 8
        ctx.check(abs(m - want) < 1e-6, "the integral of the squared error")
    return run


for L in (1, 2, 3):
    P22.add(f"scalar/{L}", scalar_quantizer(L), bounds=f"every {L} levels and thresholds, every two inputs", cost=L * 4)
P22.add("scalar/4", scalar_quantizer(4), bounds="every 4 levels and thresholds, every two inputs", cost=30, tier="thorough")
for a, b in ((1, 1), (2, 0), (2, 2), (3, 1), (3, 4)):
    P22.add(f"sizes/{a}.{b}", scalar_bad(a, b), bounds="every level and threshold", cost=1)
for L in (2, 3, 4, 5, 8):
    for how in ("offset", "plain", "mid_riser", "mid_tread"):
        P22.add(f"uniform/{L}/{how}", uniform(L, how), bounds="every step up to 8, every input up to 30", cost=L,
                tier="quick" if L < 8 or how != "offset" else "thorough")
P22.add("uniform/parameters", uniform_params, bounds="levels in [-1, 4], steps in [-1, 1]", cost=1)
for L, pts in ((1, 2), (2, 2), (2, 3), (3, 4), (3, 5)):
    P22.add(f"mse/{L}.{pts}", mse(L, pts), bounds="every threshold between the levels", cost=4)

# ------------------------------------------------------------------ C23
P23 = prop("C23")
P23.assumes += ["the random generator may return anything its documentation allows"]


class Gen:
    """A generator whose draws are inputs of the check; it keeps what it was asked."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.draws = []
        self.calls = []

    def _many(self, size, one):
        if size is None:
            return one()
        size = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        xs = [one() for _ in range(int(np.prod(size)))]
        return self.ctx.array(xs, self.kind).reshape(size) if size else xs[0]

    def random(self, size=None):
        self.kind = "f"

        def one():
            u = self.ctx.real(f"u{len(self.draws)}", lo=0, hi=1)
            self.ctx.assume(u < 1)
            self.draws.append(u)
            return u
        return self._many(size, one)

    def normal(self, loc=0.0, scale=1.0, size=None):
        self.kind = "f"

        def one():
            z = self.ctx.real(f"z{len(self.draws)}", lo=-8, hi=8)
            self.draws.append(z)
            self.calls.append(scale)
            return loc + scale * z
        return self._many(size, one)

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def choice(self, a, size=None, replace=True, p=None):
        self.kind = "i"
        items = None if np.ndim(a) == 0 else list(a)
        n = int(a) if items is None else len(items)

        def one():
            k = int(self.ctx.fix(self.ctx.int(f"k{len(self.draws)}", 0, n - 1)))
            self.ctx.check(len(p) == n, "as many probabilities as symbols")
            self.ctx.assume(p[k] > 0)
            self.draws.append(k)
            self.calls.append(list(p))
            return k if items is None else items[k]
        return self._many(size, one)


def bsc(shape):
    def run(ctx):
        p = ctx.real("p", lo=0, hi=1)
        g = Gen(ctx)
        ch = komm.BinarySymmetricChannel(p, rng=g)
        x = ctx.bits("x", int(np.prod(shape))).reshape(shape)
        y = ch.transmit(x)
        ctx.check(y.shape == x.shape and len(g.draws) == x.size, "one draw per bit")
        for a, b, u in zip(x.ravel(), y.ravel(), g.draws):
            ctx.check((b == 1 - a) == (u < p), "a bit is flipped with the crossover probability")
            ctx.check((b == a) | (b == 1 - a), "bits")
    return run


def bec(shape):
    def run(ctx):
        p = ctx.real("p", lo=0, hi=1)
        g = Gen(ctx)
        ch = komm.BinaryErasureChannel(p, rng=g)
        x = ctx.bits("x", int(np.prod(shape))).reshape(shape)
        keep = x.copy()
        y = ch.transmit(x)
        ctx.check(y.shape == x.shape and len(g.draws) == x.size, "one draw per bit")
        for a, b, u in zip(x.ravel(), y.ravel(), g.draws):
            ctx.check((b == 2) == (u < p), "a bit is erased with the erasure probability")
            ctx.check((b == 2) | (b == a), "or kept")
        ctx.eq(x, keep, "the input is left alone")
    return run


def zch(shape):
    def run(ctx):
        p = ctx.real("p", lo=0, hi=1)
        g = Gen(ctx)
        ch = komm.ZChannel(p, rng=g)
        x = ctx.bits("x", int(np.prod(shape))).reshape(shape)
        y = ch.transmit(x)
        ctx.check(y.shape == x.shape and len(g.draws) == x.size, "one draw per bit")
        for a, b, u in zip(x.ravel(), y.ravel(), g.draws):
            ctx.check((b == 1) == ((a == 1) & (u >= p)), "a one decays with the decay probability, a zero never")
            ctx.check((b == 0) | (b == 1), "bits")
    return run


def binary_matrix(ctx):
    p = ctx.real("p", lo=-1, hi=2)
    good = (p >= 0) & (p <= 1)
    for cls, rows in ((komm.BinarySymmetricChannel, lambda: [[1 - p, p], [p, 1 - p]]),
                      (komm.BinaryErasureChannel, lambda: [[1 - p, 0, p], [0, 1 - p, p]]),
                      (komm.ZChannel, lambda: [[1, 0], [p, 1 - p]])):
        ok, ch = ctx.attempt(ValueError, lambda: cls(p))
        ctx.check(good == ok, "exactly the probabilities are accepted")
        if ok:
            m = ch.transition_matrix
            ctx.check(m.shape == np.shape(rows()), "shape")
            for a, b in zip(m.ravel(), [v for r in rows() for v in r]):
                ctx.check(abs(a - b) < 1e-9, "transition matrix")
            ctx.check(m.shape == (ch.input_cardinality, ch.output_cardinality), "cardinalities")


def rows_of(ctx, n, m, name="p"):
    """A stochastic matrix: any zeros, rows adding up to one."""
    out = []
    for i in range(n):
        q = list(ctx.reals(f"{name}{i}.", m - 1, lo=0, hi=1))
        last = 1 - sum(q) if q else 1.0
        ctx.assume(last >= 0)
        out += q + [last]
    return ctx.array(out, "f").reshape(n, m)


def dmc(n, m, shape):
    def run(ctx):
        t = rows_of(ctx, n, m)
        g = Gen(ctx)
        ch = komm.DiscreteMemorylessChannel(t, rng=g)
        ctx.check(ch.input_cardinality == n and ch.output_cardinality == m, "cardinalities")
        ctx.eq(ch.transition_matrix, t, "transition matrix")
        x = ctx.ints("x", int(np.prod(shape)), 0, n - 1).reshape(shape)
        y = ch.transmit(x)
        ctx.check(y.shape == x.shape and len(g.draws) == x.size, "one draw per symbol")
        ctx.eq(y.ravel(), g.draws, "the symbols drawn, in order")
        for a, p in zip(x.ravel(), g.calls):
            ctx.eq(ctx.array(list(p), "f"), t[int(ctx.fix(a))], "drawn from the row of the input")
    return run


def dmc_bad(ctx):
    t = ctx.reals("t", 2, 2, lo=-1, hi=2)
    ok, _ = ctx.attempt(ValueError, lambda: komm.DiscreteMemorylessChannel(t))
    pos, near, far = True, True, False
    for r in t:
        s = r[0] + r[1]
        pos = pos & (r[0] >= 0) & (r[1] >= 0)
        near = near & (abs(s - 1) < 1e-6)
        far = far | (abs(s - 1) > 2e-5)
    ctx.check(((pos & near) == False) | ok, "stochastic matrices accepted")  # noqa: E712
    ctx.check(((pos == False) | far) == False or (not ok), "anything else refused")  # noqa: E712
    for bad in ([0.5, 0.5], [[[1.0]]]):
        ctx.check(ctx.raises(ValueError, lambda: komm.DiscreteMemorylessChannel(bad)), "two dimensions")


def awgn(shape, cplx):
    def run(ctx):
        n0 = ctx.real("n", lo=0, hi=16)
        g = Gen(ctx)
        ch = komm.GaussianChannel(n0, rng=g)
        k = int(np.prod(shape))
        x = ctx.reals("x", k, lo=-4, hi=4).reshape(shape)
        if cplx:
            x = x + 1j * ctx.reals("y", k, lo=-4, hi=4).reshape(shape)
        r = ch.transmit(x)
        ctx.check(r.shape == x.shape and len(g.draws) == k * (2 if cplx else 1), "one draw per real dimension")
        ctx.check(np.iscomplexobj(r) == cplx, "complex exactly when the input is")
        s = np.sqrt(n0 / 2 if cplx else n0)
        d = (r - x).ravel()

        def match(order):
            ok = True
            for i, c in zip(order, [v for e in d for v in ((e.real, e.imag) if cplx else (e,))]):
                ok = ok & (abs(c - s * g.draws[i]) < 1e-9)
            return ok
        if cplx:
            ctx.check(match(range(2 * k)) | match([i // 2 + k * (i % 2) for i in range(2 * k)]), "independent noise of half the power in each dimension")
        else:
            ctx.check(match(range(k)), "independent noise of the stated power")
    return run


def awgn_bad(ctx):
    n = ctx.real("n", lo=-2, hi=2)
    ok, _ = ctx.attempt(ValueError, lambda: komm.GaussianChannel(n))
    ctx.check((n >= 0) == ok, "negative powers refused")


def dms(n, shape):
    def run(ctx):
        p = rows_of(ctx, 1, n)[0]
        g = Gen(ctx)
        s = komm.DiscreteMemorylessSource(p, rng=g)
        ctx.check(s.cardinality == n, "cardinality")
        ctx.eq(s.pmf, p, "pmf")
        x = s.emit(shape) if shape is not None else s.emit()
        want = (1,) if shape is None else (shape,) if isinstance(shape, int) else shape
        ctx.check(x.shape == want and len(g.draws) == int(np.prod(want)), "shape")
        ctx.eq(x.ravel(), g.draws, "the symbols drawn, in order")
        for q in g.calls:
            ctx.eq(ctx.array(list(q), "f"), p, "drawn from the pmf")
    return run


def dms_params(ctx):
    n = ctx.int("n", -1, 4)
    ok, s = ctx.attempt(ValueError, lambda: komm.DiscreteMemorylessSource(int(ctx.fix(n))))
    ctx.check((n >= 1) == ok, "cardinality")
    if ok:
        k = int(ctx.fix(n))
        ctx.check(s.cardinality == k and np.allclose(s.pmf, [1 / k] * k), "equiprobable symbols")
    p = ctx.reals("p", 3, lo=-1, hi=2)
    ok, _ = ctx.attempt(ValueError, lambda: komm.DiscreteMemorylessSource(p))
    pos, s = (p[0] >= 0) & (p[1] >= 0) & (p[2] >= 0), p[0] + p[1] + p[2]
    ctx.check(((pos & (abs(s - 1) < 1e-6)) == False) | ok, "distributions accepted")  # noqa: E712
    ctx.check((pos & (abs(s - 1) < 2e-5)) | (not ok), "anything else refused")
    ctx.check(ctx.raises(ValueError, lambda: komm.DiscreteMemorylessSource([[0.5, 0.5]])), "one dimension")


def markov_walk(n, steps):
    def run(ctx):
        t = rows_of(ctx, n, n)
        g = Gen(ctx)
        c = komm.MarkovChain(t, rng=g)
        s0 = int(ctx.fix(ctx.int("s", 0, n - 1)))
        x = c.simulate(s0, steps)
        ctx.check(len(x) == steps, "steps")
        xs = [int(ctx.fix(v)) for v in x]
        ctx.check(xs == ([s0] + g.draws)[:steps], "the states visited")
        for a, p in zip([s0] + g.draws, g.calls):
            ctx.eq(ctx.array(list(p), "f"), t[a], "each step from the row of the state")
    return run


def markov_absorb(t, steps):
    """Chains given by where their transitions are: walks of every length up to the bound."""
    n = len(t)

    def run(ctx):
        rows = []
        for i in range(n):
            free = [j for j in range(n) if t[i][j]]
            q = list(ctx.reals(f"p{i}.", len(free) - 1, lo=0, hi=1)) if len(free) > 1 else []
            for v in q:
                ctx.assume(v > 0)
            last = 1 - sum(q) if q else 1.0
            if q:
                ctx.assume(last > 0)
            q = dict(zip(free, q + [last]))
            rows += [q.get(j, 0.0) for j in range(n)]
        t_ = ctx.array(rows, "f").reshape(n, n)
        g = Gen(ctx)
        c = komm.MarkovChain(t_, rng=g)
        s0 = int(ctx.fix(ctx.int("s", 0, n - 1)))
        orig = g.choice

        def choice(*a, **k):
            ctx.assume(len(g.draws) < steps)
            return orig(*a, **k)
        g.choice = choice
        x = c.simulate_until_absorption(s0)
        absorbing = [i for i in range(n) if t[i][i] and sum(t[i]) == 1]
        xs = [int(v) for v in x]
        ctx.check(xs == [s0] + g.draws, "the states visited")
        ctx.check(xs[-1] in absorbing and not set(xs[:-1]) & set(absorbing), "stops at the first absorbing state")
        for a, p in zip(xs, g.calls):
            ctx.eq(ctx.array(list(p), "f"), t_[a], "each step from the row of the state")
    return run


for f, nm in ((bsc, "bsc"), (bec, "bec"), (zch, "z")):
    for shape in ((4,), (2, 2), (1,), (0,), (1, 3)):
        P23.add(f"{nm}/{'x'.join(map(str, shape))}", f(shape), bounds="every probability, input and draw", cost=2)
P23.add("matrices", binary_matrix, bounds="every number in [-1, 2]", cost=2)
for n, m, shape in ((2, 2, (2,)), (2, 3, (2,)), (3, 2, (1, 2)), (1, 2, (2,)), (3, 3, (2, 1)), (4, 2, (2,))):
    P23.add(f"dmc/{n}.{m}/{'x'.join(map(str, shape))}", dmc(n, m, shape), bounds="every transition matrix, input and draw", cost=n * m)
P23.add("dmc/3.2/2x2", dmc(3, 2, (2, 2)), bounds="every transition matrix, input and draw", cost=30, tier="thorough")
P23.add("dmc/invalid", dmc_bad, bounds="every 2x2 matrix with entries in [-1, 2]", cost=2)
for shape in ((2,), (1, 2), (2, 1, 1)):
    for z in (False, True):
        P23.add(f"awgn/{'complex' if z else 'real'}/{'x'.join(map(str, shape))}", awgn(shape, z),
                bounds="every noise power up to 16, input and draw", cost=3)
P23.add("awgn/invalid", awgn_bad, bounds="every number in [-2, 2]", cost=1)
for n, shape in ((1, None), (2, 3), (3, (2, 1)), (4, 2), (2, (1, 2, 2)), (3, 0)):
    P23.add(f"dms/{n}/{shape}", dms(n, shape), bounds="every pmf and draw", cost=2)
P23.add("dms/parameters", dms_params, bounds="cardinality in [-1, 4], three numbers in [-1, 2]", cost=2)
for n, steps in ((1, 2), (2, 4), (3, 3), (2, 0), (4, 2)):
    P23.add(f"walk/{n}/{steps}", markov_walk(n, steps), bounds=f"every transition matrix on {n} states, {steps} steps", cost=n ** steps)
for i, (t, steps) in enumerate((([[1, 0], [1, 1]], 4), ([[1, 0, 0], [1, 0, 1], [1, 1, 0]], 4), ([[1, 1, 1], [0, 1, 0], [0, 0, 1]], 4),
                                ([[0, 1, 0, 0], [1, 0, 1, 0], [0, 1, 0, 1], [0, 0, 0, 1]], 5), ([[1]], 1),
                                ([[1, 1], [0, 1]], 40), ([[1, 0, 0], [1, 1, 0], [0, 1, 0]], 25))):
    P23.add(f"absorb/{i}", markov_absorb(t, steps), bounds=f"all probabilities on the graph, walks of up to {steps} steps", cost=5)

# ------------------------------------------------------------------ C24
P24 = prop("C24")
P24.assumes += ["exact real arithmetic; rows of transition matrices add up to exactly one"]


def chain(ctx, n, allow=None):
    """Any transition matrix (zeros where not allowed), and where it is positive."""
    rows, pat = [], []
    for i in range(n):
        free = [j for j in range(n) if allow is None or allow[i][j]]
        q = list(ctx.reals(f"p{i}.", len(free) - 1, lo=0, hi=1)) if len(free) > 1 else []
        last = 1 - sum(q) if q else 1.0
        ctx.assume(last >= 0)
        q = dict(zip(free, q + [last]))
        rows += [q.get(j, 0.0) for j in range(n)]
        pat.append([bool(ctx.fix(q[j] > 0)) if j in q else False for j in range(n)])
    return ctx.array(rows, "f").reshape(n, n), np.array(pat)


def power_reach(pat):
    n = len(pat)
    r = np.eye(n, dtype=bool)
    for _ in range(n):
        r = r | (r.astype(int) @ pat > 0)
    return r


def markov_classes(n, allow):
    def run(ctx):
        t, pat = chain(ctx, n, allow)
        c = komm.MarkovChain(t)
        ctx.eq(c.transition_matrix, t, "transition matrix")
        ctx.check(c.num_states == n, "states")
        r = power_reach(pat)
        for i in range(n):
            ctx.check(c.accessible_states_from(i) == set(np.flatnonzero(r[i]).tolist()), "accessible states")
        cls = []
        for i in range(n):
            k = {j for j in range(n) if r[i, j] and r[j, i]}
            if k not in cls:
                cls.append(k)
        got = c.communicating_classes()
        ctx.check(len(got) == len(cls) and all(k in got for k in cls), "communicating classes")
        ctx.check(bool(c.is_irreducible()) == (len(cls) == 1), "irreducible")
        trans = {i for i in range(n) if any(r[i, j] and not r[j, i] for j in range(n))}
        ctx.check(c.transient_states() == trans, "transient states")
        ctx.check(c.recurrent_states() == set(range(n)) - trans, "recurrent states")
        absorbing = {i for i in range(n) if pat[i].sum() == 1 and pat[i, i]}
        ctx.check(c.absorbing_states() == absorbing, "absorbing states")
        isabs = bool(absorbing) and all(any(r[i, j] for j in absorbing) for i in range(n))
        ctx.check(bool(c.is_absorbing()) == isabs, "absorbing chain")
        # walks of each length
        pw, back, first = np.eye(n, dtype=bool), {i: 0 for i in range(n)}, None
        for k in range(1, 2 * n * n + 2):
            pw = pw.astype(int) @ pat > 0
            for i in range(n):
                if pw[i, i]:
                    back[i] = int(np.gcd(back[i], k))
            if first is None and pw.all():
                first = k
        for i in range(n):
            if back[i]:
                ctx.check(c.period(i) == back[i], "period")
        ctx.check(bool(c.is_aperiodic()) == all(v == 1 for v in back.values()), "aperiodic")
        ctx.check(bool(c.is_regular()) == (first is not None), "regular")
        ok, k = ctx.attempt(ValueError, c.index_of_primitivity)
        ctx.check(ok == (first is not None) and (not ok or k == first), "index of primitivity")
        if not isabs:
            for f in (c.mean_number_of_visits, c.mean_time_to_absorption, c.absorption_probabilities):
                ctx.check(ctx.raises(ValueError, f), "only absorbing chains are absorbed")
        if len(cls) > 1:
            ctx.check(ctx.raises(NotImplementedError, c.stationary_distribution), "only irreducible chains")
    return run


def markov_copies(ctx):
    """What is returned does not give access to the chain's own state."""
    t, pat = chain(ctx, 2)
    c = komm.MarkovChain(t)
    for f in (lambda: c.accessible_states_from(0), c.transient_states, c.recurrent_states, c.absorbing_states):
        a = f()
        keep = set(a)
        a.add(7)
        ctx.check(f() == keep, "a fresh set each time")
    a = c.communicating_classes()
    keep = [set(k) for k in a]
    a[0].add(7)
    a.append({9})
    ctx.check(c.communicating_classes() == keep, "fresh classes each time")


def markov_absorbing(allow):
    n = len(allow)

    def run(ctx):
        t, pat = chain(ctx, n, allow)
        c = komm.MarkovChain(t)
        r = power_reach(pat)
        ab = [i for i in range(n) if pat[i].sum() == 1 and pat[i, i]]
        ctx.assume(bool(ab) and all(any(r[i, j] for j in ab) for i in range(n)))
        tr = [i for i in range(n) if i not in ab]
        N, T, Bm = c.mean_number_of_visits(), c.mean_time_to_absorption(), c.absorption_probabilities()
        ctx.check(N.shape == (len(tr), len(tr)) and T.shape == (len(tr),) and Bm.shape == (len(tr), len(ab)), "shapes")
        for x, i in enumerate(tr):
            # first-step analysis
            for y, j in enumerate(tr):
                s = (1 if i == j else 0) + sum(t[i, k] * N[z, y] for z, k in enumerate(tr))
                ctx.check(abs(N[x, y] - s) < 1e-6, "mean number of visits")
            s = 1 + sum(t[i, k] * T[z] for z, k in enumerate(tr))
            ctx.check(abs(T[x] - s) < 1e-6, "mean time")
            for y, j in enumerate(ab):
                s = t[i, j] + sum(t[i, k] * Bm[z, y] for z, k in enumerate(tr))
                ctx.check(abs(Bm[x, y] - s) < 1e-6, "absorption probabilities")
    return run


def markov_stationary(allow):
    n = len(allow)

    def run(ctx):
        t, pat = chain(ctx, n, allow)
        r = power_reach(pat)
        ctx.assume(bool(r.all()))
        c = komm.MarkovChain(t)
        pi = c.stationary_distribution()
        ctx.check(pi.shape == (n,), "one probability for each state")
        # an irreducible chain has a stationary distribution
        w = ctx.reals("w", n, lo=0, hi=1) if ctx.symbolic else None
        if w is not None:
            ctx.assume(sum(w) == 1)
            for j in range(n):
                ctx.assume(sum(w[i] * t[i, j] for i in range(n)) == w[j])
        ctx.check(abs(sum(pi) - 1) < 1e-6, "adds up to one")
        for j in range(n):
            ctx.check(pi[j] > -1e-6, "non-negative")
            ctx.check(abs(sum(pi[i] * t[i, j] for i in range(n)) - pi[j]) < 1e-6, "unchanged by a step")
    return run


def chain_bad(ctx):
    t = ctx.reals("t", 2, 2, lo=-1, hi=2)
    ok, _ = ctx.attempt(ValueError, lambda: komm.MarkovChain(t))
    pos, near, far = True, True, False
    for r in t:
        s = r[0] + r[1]
        pos = pos & (r[0] >= 0) & (r[1] >= 0)
        near = near & (abs(s - 1) < 1e-6)
        far = far | (abs(s - 1) > 2e-5)
    ctx.check(((pos & near) == False) | ok, "stochastic matrices accepted")  # noqa: E712
    ctx.check((pos & (far == False)) | (not ok), "anything else refused")  # noqa: E712
    for bad in ([0.5, 0.5], [[0.5, 0.5]], [[1.0], [1.0]]):
        ctx.check(ctx.raises(ValueError, lambda: komm.MarkovChain(bad)), "square matrices only")


# transient states 1 and 8, which a set lists as 8, 1
TEN = [[int(j == i or i == 1 and j in (0, 8) or i == 8 and j == 9) for j in range(10)] for i in range(10)]
BAND = [[1, 1, 1, 0], [0, 1, 1, 1], [1, 0, 1, 1], [1, 1, 0, 1]]
RING = [[1, 1, 0, 0], [0, 1, 1, 0], [0, 0, 1, 1], [1, 0, 0, 1]]
for n, allow, tier in ((1, None, "quick"), (2, None, "quick"), (3, None, "quick"), (4, RING, "quick"), (4, BAND, "thorough"),
                       (5, [[1, 1, 0, 0, 0], [0, 0, 1, 1, 0], [1, 0, 0, 0, 1], [0, 0, 1, 0, 1], [1, 0, 0, 1, 0]], "quick")):
    P24.add(f"graph/{n}{'' if allow is None else '/' + ''.join(str(v) for r in allow for v in r)}", markov_classes(n, allow), tier=tier,
            bounds=f"every transition matrix on {n} states" + ("" if allow is None else " within the pattern"), cost=5 ** n)
P24.add("copies", markov_copies, bounds="every chain on 2 states", cost=1)
P24.add("invalid", chain_bad, bounds="every 2x2 matrix with entries in [-1, 2]", cost=1)
for allow in ([[1, 0], [1, 1]], [[1, 0, 0], [1, 1, 1], [0, 0, 1]], [[1, 0, 0], [1, 1, 1], [1, 1, 1]], [[1, 1, 1], [0, 1, 0], [1, 1, 1]],
              [[1, 0, 0, 0], [1, 0, 1, 0], [0, 1, 0, 1], [0, 0, 0, 1]], [[1]], TEN):
    P24.add(f"absorbing/{''.join(str(v) for r in allow for v in r)}", markov_absorbing(allow), bounds="all probabilities within the pattern",
            cost=10, tier="thorough" if allow == [[1, 1, 1], [0, 1, 0], [1, 1, 1]] else "quick")
for allow in ([[1]], [[1, 1], [1, 1]], [[1, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 1, 0], [1, 0, 1], [0, 1, 0]]):
    P24.add(f"stationary/{''.join(str(v) for r in allow for v in r)}", markov_stationary(allow), bounds="all probabilities within the pattern",
            cost=10)

# ------------------------------------------------------------------ C25
P25 = prop("C25")
P25.assumes += ["exact real arithmetic"]


def near(ctx, got, want, label):
    got, want = list(np.asarray(got).ravel() if not hasattr(got, "ravel") else got.ravel()), list(want)
    ctx.check(len(got) == len(want), label)
    for g, w in zip(got, want):
        d = g - w
        ctx.check((abs(d.real) < 1e-6) & (abs(d.imag) < 1e-6), label)


def acorr_def(x, l):
    n = len(x)
    return sum((x[i] * np.conj(x[i - l]) for i in range(n) if 0 <= i - l < n), 0)


def cyclic_def(x, l):
    n = len(x)
    return sum((x[i] * np.conj(x[(i - l) % n]) for i in range(n)), 0)


def views(n):
    def run(ctx):
        b = ctx.bits("b", n)
        s = komm.BinarySequence(bit_sequence=b)
        t = komm.BinarySequence(polar_sequence=1 - 2 * b)
        for q in (s, t):
            ctx.check(q.length == n, "length")
            ctx.eq(q.bit_sequence, b, "bits")
            ctx.eq(q.polar_sequence, 1 - 2 * b, "polar: 0 to +1, 1 to -1")
        ctx.check(ctx.raises(ValueError, lambda: komm.BinarySequence(b, 1 - 2 * b)), "one of the two")
        ctx.check(ctx.raises(ValueError, lambda: komm.BinarySequence()), "one of the two")
    return run


def binary_acorr(n):
    def run(ctx):
        b = ctx.bits("b", n)
        s = komm.BinarySequence(b)
        x = [1 - 2 * v for v in b]
        shifts = list(range(-n - 2, n + 3))
        for cyc, f, want in ((0, s.autocorrelation, acorr_def), (1, s.cyclic_autocorrelation, cyclic_def)):
            w = [want(x, l) for l in shifts]
            ctx.eq(f(shifts), w, f"definition {cyc}")
            ctx.eq(f(), [want(x, l) for l in range(n)], f"all shifts by default {cyc}")
            near(ctx, f(shifts, normalized=True), [v * (1.0 / n) for v in w], f"normalized by the length {cyc}")
    return run


def real_acorr(n, kind):
    def run(ctx):
        x = ctx.reals("x", n, lo=-4, hi=4)
        if kind == "complex":
            x = x + 1j * ctx.reals("y", n, lo=-4, hi=4)
        fs = [(komm.autocorrelation, acorr_def), (komm.cyclic_autocorrelation, cyclic_def)]
        shifts = list(range(-n - 1, n + 2))
        e = acorr_def(x, 0).real
        for i, (f, want) in enumerate(fs):
            w = [want(x, l) for l in shifts]
            r = f(x, shifts)
            near(ctx, r, w, f"definition {i}")
            near(ctx, f(x), [want(x, l) for l in range(n)], f"all shifts by default {i}")
            if n < (3 if kind == "complex" else 4):
                ctx.assume(e > 0.01)
                z = f(x, shifts, normalized=True)
                for v, u in zip(z, w):
                    ctx.check((abs((v * e - u).real) < 1e-6) & (abs((v * e - u).imag) < 1e-6), f"normalized by the energy {i}")
        if kind == "complex":
            s = komm.ComplexSequence(x)
            ctx.check(s.length == n, "length")
            ctx.eq(s.sequence, x, "sequence")
            near(ctx, s.autocorrelation(shifts), [acorr_def(x, l) for l in shifts], "of the sequence object")
            near(ctx, s.cyclic_autocorrelation(shifts), [cyclic_def(x, l) for l in shifts], "of the sequence object, cyclic")
    return run


def lfsr(n, given=None):
    """Every feedback polynomial of degree n (or the one given), every start state."""
    def run(ctx):
        if given is None:
            c = [1] + [int(ctx.fix(v)) for v in ctx.bits("c", n - 1)] + [1]
        else:
            c = [given >> i & 1 for i in range(n + 1)]
        s = ctx.int("s", 0, 2 ** n - 1)
        p = komm.BinaryPolynomial.from_coefficients(c)
        q = komm.LFSRSequence(p, komm.BinaryPolynomial(s))
        b = q.bit_sequence
        ctx.check(q.length == 2 ** n - 1, "length")
        for t in range(min(n, 2 ** n - 1)):
            ctx.check(b[t] == (s >> (n - 1 - t)) % 2, "starts by shifting the start state out")
        for t in range(n, 2 ** n - 1):
            ctx.check(b[t] == sum(b[t - i] for i in range(1, n + 1) if c[i]) % 2, "feedback recurrence")
        ctx.eq(q.polar_sequence, 1 - 2 * b, "polar view")
    return run


def mls(n, shifts):
    def run(ctx):
        s = ctx.int("s", 1, 2 ** n - 1)
        q = komm.LFSRSequence.maximum_length_sequence(n, komm.BinaryPolynomial(s))
        L = 2 ** n - 1
        ctx.check(q.length == L, "length")
        b = q.bit_sequence
        ctx.check(sum(b) == 2 ** (n - 1), "one more one than zeros")
        r = q.cyclic_autocorrelation(shifts)
        for l, v in zip(shifts, r):
            ctx.check(v == (L if l % L == 0 else -1), "two-valued cyclic autocorrelation")
        ctx.check(q.feedback_polynomial.degree == n and q.start_state_polynomial == komm.BinaryPolynomial(s), "as asked for")
    return run


def walsh(n):
    L = 2 ** n

    def run(ctx):
        i, j = ctx.int("i", 0, L - 1), ctx.int("j", 0, L - 1)
        rows = {}
        for o in ("natural", "sequency"):
            a, b = (komm.WalshHadamardSequence(L, o, k).polar_sequence for k in (i, j))
            ctx.check(len(a) == L and komm.WalshHadamardSequence(L, o, i).length == L, "length")
            rows[o] = a
            dot = sum(a[k] * b[k] for k in range(L))
            ctx.check(dot == L * (1 * (i == j)), "different rows are orthogonal")
            ctx.eq(komm.WalshHadamardSequence(L, o, i).bit_sequence, [1 * (v < 0) for v in a], "bit view")
        for k in range(L):
            ones = sum((i >> m) % 2 for m in range(n) if k >> m & 1)
            ctx.check(rows["natural"][k] == 1 - 2 * (ones % 2), "Sylvester's construction")
        a = rows["sequency"]
        ctx.check(sum(1 * (a[k] != a[k + 1]) for k in range(L - 1)) == i, "row i has i sign changes")
        ctx.check(a[0] == 1, "starts with +1")
    return run


def walsh_bad(ctx):
    L, i = int(ctx.fix(ctx.int("L", -3, 9))), ctx.int("i", -2, 10)
    ok, _ = ctx.attempt(ValueError, lambda: komm.WalshHadamardSequence(L, index=int(ctx.fix(i))))
    ctx.check(((i >= 0) & (i < L)) == ok if L in (1, 2, 4, 8) else not ok, "powers of two, indices in range")
    ctx.check(ctx.raises(ValueError, lambda: komm.WalshHadamardSequence(4, "gray", 0)), "known orderings")


def barker(ctx):
    L = int(ctx.fix(ctx.int("L", 0, 15)))
    ok, s = ctx.attempt(ValueError, lambda: komm.BarkerSequence(L))
    ctx.check(ok == (L in (2, 3, 4, 5, 7, 11, 13)), "lengths for which one is known")
    if ok:
        ctx.check(s.length == L, "length")
        l = int(ctx.fix(ctx.int("l", -L - 1, L + 1)))
        v = s.autocorrelation([l])[0]
        ctx.check(v == L if l == 0 else abs(v) <= 1, "off-peak autocorrelation at most one")
        ctx.eq(s.polar_sequence, 1 - 2 * s.bit_sequence, "views")


for n in (0, 1, 4, 8):
    P25.add(f"views/{n}", views(n), bounds=f"every sequence of {n} bits", cost=1)
for n, tier in ((1, "quick"), (2, "quick"), (5, "quick"), (8, "quick"), (12, "thorough")):
    P25.add(f"binary/{n}", binary_acorr(n), bounds=f"every sequence of {n} bits, shifts to two beyond its length", cost=n, tier=tier)
for n in (1, 2, 3, 4, 5):
    for kind in ("real", "complex"):
        P25.add(f"{kind}/{n}", real_acorr(n, kind), bounds=f"every sequence of {n} numbers up to 4", cost=n * n)
for n in (1, 2, 3, 4, 5):
    P25.add(f"lfsr/{n}", lfsr(n), bounds=f"every feedback polynomial of degree {n} and start state", cost=4 ** n / 16,
            tier="quick" if n < 5 else "thorough")
for f in (0b111111, 0b101111, 0b1111101, 0b1011011, 0b11111111, 0b10111101, 0b111110101, 0b101100011, 0b1000010001):
    n = f.bit_length() - 1
    P25.add(f"lfsr/{n}/{f:b}", lfsr(n, f), bounds=f"feedback polynomial {f:#b}, every start state", cost=n)
for n in (1, 2, 3, 4, 5, 6, 7):
    L = 2 ** n - 1
    sh = list(range(-L - 1, L + 2)) if n < 5 else [0, 1, -1, L, 2 * L + 3, 5, L // 2, -L // 3] if n < 7 else [0, 1, -3, 40]
    P25.add(f"mls/{n}", mls(n, sh), bounds="every nonzero start state" + ("" if n < 5 else ", shifts " + str(sh)), cost=n * n)
for n in (0, 1, 2, 3, 4):
    P25.add(f"walsh/{2 ** n}", walsh(n), bounds="every pair of indices", cost=4 ** n / 4)
P25.add("walsh/parameters", walsh_bad, bounds="lengths in [-3, 9], indices in [-2, 10]", cost=3)
P25.add("barker", barker, bounds="lengths in [0, 15], every shift", cost=5)

# ------------------------------------------------------------------ C26
P26 = prop("C26")
P26.assumes += ["exact real arithmetic"]


def pick(a, axis):
    """The 1-D lines of an array along an axis."""
    return np.moveaxis(a, axis, -1).reshape(a.size // max(a.shape[axis], 1), a.shape[axis])


def rates(shape, axis):
    def run(ctx):
        k = int(np.prod(shape))
        x = ctx.reals("x", k, lo=-4, hi=4).reshape(shape)
        m, o = int(ctx.fix(ctx.int("m", 1, 4))), int(ctx.fix(ctx.int("o", 0, 3)))
        ctx.assume(o < m)
        n = shape[axis]
        y = komm.sampling_rate_compress(x, m, o, axis)
        want = list(shape)
        want[axis] = len(range(o, n, m))
        ctx.check(y.shape == tuple(want), "length after compression")
        if want[axis]:
            for a, b in zip(pick(x, axis), pick(y, axis)):
                ctx.eq(b, [a[i * m + o] for i in range(want[axis])], "every m-th sample from the offset")
        z = komm.sampling_rate_expand(x, m, o, axis)
        want = list(shape)
        want[axis] = n * m
        ctx.check(z.shape == tuple(want), "length after expansion")
        for a, b in zip(pick(x, axis), pick(z, axis)):
            ctx.eq(b, [a[i // m] if i % m == o else 0 for i in range(n * m)], "samples at the offset, zeros elsewhere")
        ctx.eq(komm.sampling_rate_compress(z, m, o, axis), x, "compression undoes expansion")
        if axis in (-1, len(shape) - 1):
            ctx.eq(komm.sampling_rate_compress(x, m, o), y, "the last axis by default")
            ctx.eq(komm.sampling_rate_expand(x, m, o), z, "the last axis by default")
        if o == 0:
            ctx.eq(komm.sampling_rate_expand(x, m, axis=axis), z, "no offset by default")
            ctx.eq(komm.sampling_rate_compress(x, m, axis=axis), y, "no offset by default")
    return run


def rates_bad(ctx):
    m, o = ctx.int("m", -2, 3), ctx.int("o", -2, 4)
    good = (m >= 1) & (o >= 0) & (o < m)
    x = ctx.reals("x", 4, lo=-4, hi=4)
    for f in (komm.sampling_rate_compress, komm.sampling_rate_expand):
        ok, _ = ctx.attempt(ValueError, lambda: f(x, int(ctx.fix(m)), int(ctx.fix(o))))
        ctx.check(good == ok, "factors and offsets")


def conv_def(a, b, mode):
    full = [sum((a[i] * b[k - i] for i in range(len(a)) if 0 <= k - i < len(b)), 0) for k in range(len(a) + len(b) - 1)]
    lo, hi = min(len(a), len(b)), max(len(a), len(b))
    if mode == "full":
        return full
    if mode == "valid":
        return full[lo - 1:hi]
    return full[(lo - 1) // 2:(lo - 1) // 2 + hi]


def convolving(n, shape, axis, mode, swap):
    def run(ctx):
        h = ctx.reals("h", n, lo=-4, hi=4)
        x = ctx.reals("x", int(np.prod(shape)), lo=-4, hi=4).reshape(shape)
        kw = {} if axis is None else {"axis": axis}
        if mode:
            kw["mode"] = mode
        y = komm.convolve(x, h, **kw) if swap else komm.convolve(h, x, **kw)
        ax = -1 if axis is None else axis
        xs, ys = pick(x, ax), pick(y, ax)
        ctx.check(len(xs) == len(ys) and y.ndim == x.ndim, "as many lines")
        for a, b in zip(xs, ys):
            w = conv_def(h, a, mode or "full")
            ctx.check(len(b) == len(w), "length of each line")
            near(ctx, b, w, "each line convolved")
    return run


def convolve_bad(ctx):
    x, y = ctx.reals("x", 2, 2, lo=-1, hi=1), ctx.reals("y", 2, 2, lo=-1, hi=1)
    ctx.check(ctx.raises(ValueError, lambda: komm.convolve(x, y)), "two matrices are refused")


def block_functions(ctx):
    from komm._util.decorators import blockwise, vectorize
    b = ctx.bits("b", 12)
    for shape in ((12,), (2, 6), (2, 2, 3), (3, 4)):
        x = b.reshape(shape)
        for k in (1, 2, 3, 5, 6):
            ok, y = ctx.attempt(ValueError, lambda: blockwise(k)(lambda u: u[..., ::-1])(x))
            ctx.check(ok == (shape[-1] % k == 0), "multiples of the block size only")
            if ok:
                want = np.moveaxis(x, -1, -1).reshape(-1, k)[:, ::-1].reshape(shape)
                ctx.eq(y, want, "block by block")
            ok, y = ctx.attempt(ValueError, lambda: blockwise(k)(lambda u: u.sum(axis=-1, keepdims=True))(x))
            if ok:
                ctx.eq(y, x.reshape(-1, k).sum(axis=-1).reshape(*shape[:-1], -1), "blocks of another size out")
        ctx.eq(vectorize(lambda u: u[::-1])(x), x[..., ::-1], "line by line")


for shape, axis in (((5,), -1), ((4,), 0), ((2, 3), -1), ((2, 3), 0), ((3, 2), 1), ((2, 2, 2), 1), ((1, 2, 2), -3), ((0,), -1), ((2, 1), -2)):
    P26.add(f"rates/{'x'.join(map(str, shape))}/{axis}", rates(shape, axis), bounds="every array, factors up to 4, every offset", cost=3)
P26.add("rates/invalid", rates_bad, bounds="factors in [-2, 3], offsets in [-2, 4]", cost=2)
for i, (n, shape, axis, mode) in enumerate(((3, (4,), None, None), (2, (2, 3), None, "full"), (3, (2, 3), 0, "full"), (2, (3, 2), 0, "valid"),
                                            (3, (2, 4), 1, "same"), (4, (2, 2), 1, "same"), (4, (3,), 0, "valid"), (2, (2, 2, 3), 1, "full"),
                                            (1, (2, 2, 2), -3, "same"), (5, (2,), -1, "same"))):
    for swap in (False, True):
        P26.add(f"convolve/{i}{'/swapped' if swap else ''}", convolving(n, shape, axis, mode, swap), bounds="every pair of arrays up to 4", cost=3)
P26.add("convolve/invalid", convolve_bad, bounds="two 2x2 arrays", cost=1)
P26.add("blockwise", block_functions, bounds="12 bits in several shapes, block sizes up to 6", cost=3)

# ------------------------------------------------------------------ C27
P27 = prop("C27")
P27.assumes += ["exact real arithmetic, np.pi standing for pi; sin, cos, sinc and exp are known by their values at "
                "special points, ranges, parity, double-angle and complement identities"]


def clo(a, b, tol=1e-9):
    d = a - b
    return (abs(d.real) <= tol) & (abs(d.imag) <= tol)


def shaped(ctx, f, xs, label):
    """f works element by element on arrays of any shape."""
    one = [f(x) for x in xs]
    for arr in (ctx.array(list(xs), "f"), ctx.array(list(xs), "f").reshape(len(xs), 1)):
        r = f(arr)
        ctx.check(r.shape == arr.shape, "shape " + label)
        for a, b in zip(r.ravel(), one):
            ctx.check(clo(a, b), "elementwise " + label)
    return one


def rectangular(ctx):
    w = ctx.real("w", lo=-1, hi=2)
    ok, p = ctx.attempt(ValueError, lambda: komm.RectangularPulse(w))
    ctx.check(((w > 0) & (w <= 1)) == ok, "relative width in (0, 1]")
    if not ok:
        return
    ctx.assume(w > 0.01)
    t, u, f = (ctx.real(n, lo=-3, hi=3) for n in "tuf")
    a, b = shaped(ctx, p.waveform, [t, u], "waveform")
    edge = abs(t - w)
    ctx.check((a == 1) == ((t >= 0) & (t < w)) if ctx.symbolic else edge < 1e-9 or (a == 1) == (0 <= t < w), "one on [0, w)")
    ctx.check((a == 0) | (a == 1), "zero elsewhere")
    a, b = shaped(ctx, p.autocorrelation, [t, u], "autocorrelation")
    ctx.check(clo(a, abs(t) < w and w - abs(t) or 0.0) if not ctx.symbolic else
              ((abs(t) < w) & clo(a, w - abs(t))) | ((abs(t) >= w) & clo(a, 0)), "overlap of the pulse with its shift")
    ctx.check(clo(p.energy(), w) & clo(p.autocorrelation(0.0), w), "energy")
    ctx.check(clo(p.support[0], 0) & clo(p.support[1], w), "support")
    h = p.spectrum(ctx.array([f], "f"))[0]
    ctx.check(clo(p.spectrum(0.0), w), "the integral of the pulse at zero frequency")
    z = np.exp(ctx.array([-2j * np.pi * w * f], "c"))[0]
    ctx.check(clo(2j * np.pi * f * h, 1 - z, 1e-6), "Fourier transform of the rectangle")
    ctx.check(clo(p.energy_spectral_density(ctx.array([f], "f"))[0], h.real * h.real + h.imag * h.imag, 1e-6), "density is the squared spectrum")


def manchester(ctx):
    p = komm.ManchesterPulse()
    t, u, f = (ctx.real(n, lo=-3, hi=3) for n in "tuf")
    a, b = shaped(ctx, p.waveform, [t, u], "waveform")
    lo, hi = (t >= 0) & (t < 0.5), (t >= 0.5) & (t < 1)
    ctx.check((a == -1) == lo, "-1 in the first half")
    ctx.check((a == 1) == hi, "+1 in the second half")
    ctx.check((a == 0) | lo | hi, "zero elsewhere")
    a, b = shaped(ctx, p.autocorrelation, [t, u], "autocorrelation")
    s = abs(t)
    ctx.check(((s <= 0.5) & clo(a, 1 - 3 * s)) | ((s >= 0.5) & (s <= 1) & clo(a, s - 1)) | ((s >= 1) & clo(a, 0)), "overlap with its shift")
    ctx.check(clo(p.energy(), 1) & clo(p.autocorrelation(0.0), 1), "energy")
    ctx.check(p.support == (0, 1), "support")
    h = p.spectrum(ctx.array([f], "f"))[0]
    ctx.check(clo(p.spectrum(0.0), 0), "no mean")
    z = np.exp(ctx.array([-1j * np.pi * f], "c"))[0]
    ctx.check(clo(2j * np.pi * f * h, -(1 - z) * (1 - z), 1e-6), "Fourier transform of the two halves")
    ctx.check(clo(p.energy_spectral_density(ctx.array([f], "f"))[0], h.real * h.real + h.imag * h.imag, 1e-6), "density is the squared spectrum")


def nyquist(kind, zero):
    def pulse(ctx):
        if kind == "sinc":
            return 0.0, komm.SincPulse()
        al = 0.0 if zero else ctx.real("a", lo=0.05, hi=1)
        return al, {"raised": komm.RaisedCosinePulse, "beaulieu": komm.BeaulieuPulse}[kind](al)

    def time(ctx):
        al, p = pulse(ctx)
        t = ctx.real("t", lo=0, hi=4)
        ctx.check(clo(p.waveform(0.0), 1), "one at zero")
        for k in (-3, -1, 1, 2, 5):
            ctx.check(clo(p.waveform(float(k)), 0), "zero at the other integers")
        v = p.waveform(ctx.array([t, -t], "f"))
        ctx.check(clo(v[0], v[1]), "even")
        v = p.autocorrelation(ctx.array([t, -t], "f"))
        ctx.check(clo(v[0], v[1]), "autocorrelation even")
        ctx.check(clo(p.autocorrelation(0.0), p.energy()), "energy is the autocorrelation at zero")
        if kind == "raised":
            ctx.check(clo(p.energy(), 1 - al / 4), "energy of the squared spectrum")
        ctx.check(p.support == (-np.inf, np.inf), "unbounded")
        r = p.root()
        v, w = r.autocorrelation(ctx.array([t], "f")), p.waveform(ctx.array([t], "f"))
        ctx.check(clo(v[0], w[0]), "the root's autocorrelation is the pulse")
        ctx.check(clo(r.energy(), 1), "the root has energy one")
        ctx.check(r.support == (-np.inf, np.inf), "unbounded root")
        for q in (p, r):
            ctx.check(ctx.raises(ValueError, lambda: q.taps(4)), "taps need a span")

    def frequency(ctx):
        al, p = pulse(ctx)
        f = ctx.real("f", lo=0, hi=1)
        ctx.assume(f < 0.5)
        f1, f2 = (1 - al) / 2, (1 + al) / 2
        h = p.spectrum(ctx.array([f, -f, 1 - f, f - 1, f + 1.5], "f"))
        ctx.check(h.shape == (5,), "shape")
        for v in h:
            ctx.check(clo(v.imag, 0), "real")
        ctx.check((f >= f1 - 1e-9) | clo(h[0], 1), "flat up to (1 - a)/2")
        ctx.check((1 - f < f2 + 1e-9) | clo(h[2], 0), "nothing beyond (1 + a)/2")
        ctx.check(clo(h[4], 0), "nothing beyond (1 + a)/2")
        ctx.check(clo(h[0] + h[2], 1, 1e-6), "vestigial symmetry: the shifted spectra add up to one")
        ctx.check(clo(h[0], h[1]) & clo(h[2], h[3]), "even")
        for v in h:
            ctx.check((v.real > -1e-6) & (v.real < 1 + 1e-6), "between 0 and 1")
        ctx.check(h[0].real > 0.5 - 1e-6, "at least one half below 1/2")
        g = ctx.array([f, 1 - f], "f")
        d = p.energy_spectral_density(g)
        for a, v in zip(d, (h[0], h[2])):
            ctx.check(clo(a, v.real * v.real, 1e-6), "density is the squared spectrum")
        r = p.root()
        if kind != "sinc":
            d, q = r.energy_spectral_density(g), r.spectrum(g)
            for a, b, v in zip(d, q, (h[0], h[2])):
                ctx.check(clo(a, v, 1e-6), "the root's density is the spectrum")
                ctx.check(clo(b * b, v, 1e-6), "the root's spectrum squares to the spectrum")
        one = p.spectrum(ctx.array([f], "f").reshape(1, 1))
        ctx.check(one.shape == (1, 1) and clo(one[0, 0], h[0]), "elementwise")
    return time, frequency


def root_raised(ctx):
    al = ctx.real("a", lo=0.05, hi=1)
    r = komm.RaisedCosinePulse(al).root()
    ctx.check(clo(r.waveform(0.0), 1 + al * (4 / np.pi - 1)), "value at zero")
    t = ctx.real("t", lo=0, hi=3)
    v = r.waveform(ctx.array([t, -t], "f"))
    ctx.check(clo(v[0], v[1]), "even")
    ctx.assume((t > 0.01) & (abs(4 * al * t - 1) > 0.01))
    s = np.sin(ctx.array([np.pi * t * (1 - al)], "f"))[0]
    c = np.cos(ctx.array([np.pi * t * (1 + al)], "f"))[0]
    ctx.check(clo(v[0] * np.pi * t * (1 - (4 * al * t) * (4 * al * t)), s + 4 * al * t * c, 1e-6), "root-raised-cosine formula")


def gaussian(ctx):
    b = ctx.real("b", lo=-1, hi=4)
    ok, p = ctx.attempt(ValueError, lambda: komm.GaussianPulse(b))
    ctx.check((b > 0) == ok, "positive bandwidths")
    if not ok:
        return
    ctx.assume(b > 0.25)
    t = ctx.real("t", lo=0, hi=4)
    ctx.check(clo(p.waveform(0.0), 1), "one at zero")
    for g, nm in ((p.waveform, "waveform"), (p.autocorrelation, "autocorrelation"), (p.spectrum, "spectrum"), (p.energy_spectral_density, "density")):
        v = g(ctx.array([t, -t, 2 * t], "f"))
        ctx.check(v.shape == (3,), "shape " + nm)
        ctx.check(clo(v[0], v[1]), nm + " even")
        ctx.check((v[0].real > 0) & (v[2].real <= v[0].real + 1e-9), nm + " positive and decreasing")
    ctx.check(clo(p.autocorrelation(0.0), p.energy()), "energy is the autocorrelation at zero")
    h, d = p.spectrum(ctx.array([t, b], "f")), p.energy_spectral_density(ctx.array([t, b], "f"))
    ctx.check(clo(d[0], h[0].real * h[0].real, 1e-6), "density is the squared spectrum")
    d0 = p.energy_spectral_density(0.0)
    ctx.check(clo(2 * d[1], d0, 1e-6), "half the power at the half-power bandwidth")
    ctx.check(p.support == (-np.inf, np.inf), "unbounded")
    ctx.check(ctx.raises(ValueError, lambda: p.taps(4)), "taps need a span")
    ctx.check(ctx.raises(NotImplementedError, p.root), "not a Nyquist pulse")


def rolloffs(ctx):
    a = ctx.real("a", lo=-1, hi=2)
    for cls in (komm.RaisedCosinePulse, komm.BeaulieuPulse):
        ok, _ = ctx.attempt(ValueError, lambda: cls(a))
        ctx.check(((a >= 0) & (a <= 1)) == ok, "rolloff factors in [0, 1]")
    for p in (komm.RectangularPulse(), komm.ManchesterPulse()):
        ctx.check(ctx.raises(NotImplementedError, p.root), "no root")


def taps(ctx):
    sps = int(ctx.fix(ctx.int("n", 1, 4)))
    lo, hi = int(ctx.fix(ctx.int("l", -2, 1))), int(ctx.fix(ctx.int("h", 0, 2)))
    ctx.assume(lo < hi)
    w = ctx.real("w", lo=0.05, hi=1)
    for p in (komm.RectangularPulse(w), komm.ManchesterPulse(), komm.SincPulse()):
        v = p.taps(sps, (lo, hi))
        ts = np.arange(lo * sps, hi * sps + 1) / sps
        ctx.check(v.shape == ts.shape, "number of taps")
        for a, t in zip(v, ts):
            ctx.check(clo(a, p.waveform(float(t))), "samples of the waveform")
    for p in (komm.RectangularPulse(w), komm.ManchesterPulse()):
        v = p.taps(sps)
        ctx.check(v.shape == (sps + 1,), "number of taps by default")
        for i, a in enumerate(v):
            ctx.check(clo(a, p.waveform(i / sps)), "the support by default")


P27.add("rectangular", rectangular, bounds="widths in [-1, 2], times and frequencies up to 3", cost=10, query_ms=2500)
P27.add("manchester", manchester, bounds="times and frequencies up to 3", cost=10, query_ms=2500)
for kind, zero in (("sinc", True), ("raised", True), ("raised", False), ("beaulieu", True), ("beaulieu", False)):
    nm = kind + ("/0" if zero and kind != "sinc" else "")
    t_, f_ = nyquist(kind, zero)
    b_ = "rolloff 0" if zero else "rolloffs in [0.05, 1]"
    P27.add(f"{nm}/time", t_, bounds=b_ + ", times up to 4", cost=10, query_ms=2500)
    P27.add(f"{nm}/frequency", f_, bounds=b_ + ", every frequency up to 2.5", cost=10, query_ms=2500)
P27.add("raised/root", root_raised, bounds="rolloffs in [0.05, 1], times up to 3", cost=10, query_ms=2500)
P27.add("gaussian", gaussian, bounds="bandwidths in [-1, 4], times and frequencies up to 8", cost=10, query_ms=2500)
P27.add("parameters", rolloffs, bounds="rolloff factors in [-1, 2]", cost=1)
P27.add("taps", taps, bounds="up to 4 samples per symbol, spans in [-2, 2]", cost=5)
