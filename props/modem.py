"""C17 labelings, C18 constellations."""
import numpy as np

import komm
from symex.reg import prop

# ------------------------------------------------------------------ C17
P17 = prop("C17")


def natural(m, i):
    return [(i >> (m - 1 - j)) & 1 for j in range(m)]


def gray(m, i):
    return natural(m, i ^ (i >> 1))


def rows_of(name, args):
    """The rows the labeling promises, as a function of a (possibly symbolic) index."""
    if name == "natural":
        return args, lambda i: natural(args, i)
    if name == "reflected":
        return args, lambda i: gray(args, i)
    mi, mq = args
    return mi + mq, lambda i: gray(mi, i >> mq) + gray(mq, i & (2 ** mq - 1))


def make(name, args):
    return {"natural": komm.NaturalLabeling, "reflected": komm.ReflectedLabeling,
            "rectangular": komm.ReflectedRectangularLabeling}[name](args)


def lab_rows(name, args, n):
    def setup():
        return (make(name, args),)

    def run(ctx, lab):
        m, row = rows_of(name, args)
        M = 2 ** m
        ctx.check((lab.num_bits, lab.cardinality) == (m, M), "size")
        i = ctx.ints("i", n, 0, M - 1)
        b = lab.indices_to_bits(i)
        ctx.observe("bits", b)
        ctx.eq(b, [x for j in range(n) for x in row(i[j])], "bits of the indices")
        ctx.eq(lab.bits_to_indices(b), i, "indices back from the bits")
        ctx.check(tuple(lab.matrix.shape) == (M, m), "matrix shape")
        ctx.eq(lab.matrix[i[0]], row(i[0]), "row of the matrix")
        v = ctx.bits("v", n * m)
        w = lab.bits_to_indices(v)
        ctx.observe("indices", w)
        ctx.check(len(w) == n, "one index per m bits")
        for j in range(n):
            ctx.check((w[j] >= 0) & (w[j] < M), "index in range")
            ctx.eq(row(w[j]), v[j * m:(j + 1) * m], "bits of the index found")
            key = tuple(int(ctx.fix(x)) for x in v[:m]) if m <= 4 else None
            if key is not None and j == 0:
                ctx.check(lab.inverse_mapping[key] == w[0], "inverse mapping")
        ctx.eq(lab.indices_to_bits(w), v, "bits back from the indices")
    return setup, run


def lab_batch(name, args):
    def setup():
        return (make(name, args),)

    def run(ctx, lab):
        m, row = rows_of(name, args)
        i = ctx.ints("i", 6, 0, 2 ** m - 1)
        b = lab.indices_to_bits(i.reshape(3, 2))
        ctx.check(tuple(b.shape) == (3, 2 * m), "shape")
        for r in range(3):
            ctx.eq(b[r], row(i[2 * r]) + row(i[2 * r + 1]), "rows are converted on their own")
        ctx.eq(lab.bits_to_indices(b), i.reshape(3, 2), "round trip")
        c = lab.indices_to_bits(i.reshape(1, 3, 2))
        ctx.check(tuple(c.shape) == (1, 3, 2 * m), "shape, three axes")
        ctx.eq(c[0], b, "leading axis")
        ctx.eq(lab.bits_to_indices(c), i.reshape(1, 3, 2), "round trip, three axes")
    return setup, run


def lab_gray(m):
    def setup():
        return (komm.ReflectedLabeling(m),)

    def run(ctx, lab):
        i = ctx.int("i", 0, 2 ** m - 1)
        a = lab.indices_to_bits(ctx.array([i], "i"))
        b = lab.indices_to_bits(ctx.array([(i + 1) & (2 ** m - 1)], "i"))
        ctx.check(sum(x ^ y for x, y in zip(a, b)) == 1, "neighbours differ in one bit, cyclically")
        c = lab.indices_to_bits(ctx.array([2 ** m - 1 - i], "i"))
        ctx.check((c[0] ^ a[0]) == 1, "mirror images differ in the first bit")
        ctx.eq(c[1:], a[1:], "and agree elsewhere")
        ctx.eq(lab.indices_to_bits([0]), [0] * m, "starts at zero")
    return setup, run


def lab_gray2(mi, mq):
    """Neighbours in a row or in a column of the grid differ in one bit."""
    def setup():
        return (komm.ReflectedRectangularLabeling((mi, mq)),)

    def run(ctx, lab):
        x, y = ctx.int("x", 0, 2 ** mi - 1), ctx.int("y", 0, 2 ** mq - 1)
        a = lab.indices_to_bits(ctx.array([x * 2 ** mq + y], "i"))
        r = ctx.boolean("r")
        if r:
            ctx.assume(x < 2 ** mi - 1)
            j = (x + 1) * 2 ** mq + y
        else:
            ctx.assume(y < 2 ** mq - 1)
            j = x * 2 ** mq + y + 1
        b = lab.indices_to_bits(ctx.array([j], "i"))
        ctx.check(sum(u ^ v for u, v in zip(a, b)) == 1, "grid neighbours differ in one bit")
    return setup, run


def lab_invalid(name, args, lo=None):
    def setup():
        if name == "general":
            return (komm.Labeling(args), len(args[0]))
        if name == "product":
            return (komm.ProductLabeling(*[make(*a) for a in args]), sum(a[1] for a in args))
        lab = make(name, args)
        return (lab, lab.num_bits)

    def run(ctx, lab, m):
        M = 2 ** m
        i = ctx.ints("i", 2, -M - 1, 2 * M + 1)
        ok, b = ctx.attempt(ValueError, lambda: lab.indices_to_bits(i))
        ctx.observe("indices ok", ok)
        good = (i[0] >= 0) & (i[0] < M) & (i[1] >= 0) & (i[1] < M)
        ctx.check(good == ok, "exactly the indices of the labeling are converted")
        v = ctx.array([ctx.int(f"v{j}", -1, 2) for j in range(m)], "i")
        ok, w = ctx.attempt(ValueError, lambda: lab.bits_to_indices(v))
        good = True
        for x in v:
            good = good & ((x == 0) | (x == 1))
        ctx.check(good == ok, "exactly bits are converted")
        for n in range(1, 2 * m):
            if n % m:
                ctx.check(ctx.raises(ValueError, lambda: lab.bits_to_indices(v[:1].repeat(n) * 0)), "incomplete words")
    return setup, run


def lab_general(m, perm=None):
    """Labeling(matrix) for any matrix: accepted exactly when its rows are all the words."""
    def run(ctx):
        M = 2 ** m
        if perm is None:
            q = [[ctx.int(f"q{r}.{c}", 0, 1) for c in range(m)] for r in range(M)]
        else:
            q = [[x ^ y for x, y in zip(natural(m, r), [ctx.bit(f"x{c}") for c in range(m)])] for r in perm]
        mat = ctx.array([x for r in q for x in r], "i").reshape(M, m)
        vals = [sum(x << (m - 1 - j) for j, x in enumerate(r)) for r in q]
        distinct = True
        for a in range(M):
            for b in range(a):
                distinct = distinct & (vals[a] != vals[b])
        ok, lab = ctx.attempt(ValueError, lambda: komm.Labeling(mat))
        ctx.check(distinct == ok, "accepted exactly when the rows are distinct")
        if not ok:
            return
        ctx.eq(lab.matrix, mat, "matrix as given")
        ctx.check((lab.num_bits, lab.cardinality) == (m, M), "size")
        i = ctx.ints("i", 2, 0, M - 1)
        b = lab.indices_to_bits(i)
        ctx.observe("bits", b)
        for r in range(M):
            for j in range(2):
                ctx.check((i[j] != r) | (sum(b[j * m + c] << (m - 1 - c) for c in range(m)) == vals[r]), "rows")
        ctx.eq(lab.bits_to_indices(b), i, "round trip")
    return run


def lab_bad_shape(ctx):
    a, b = ctx.int("a", 1, 5), ctx.int("b", 1, 3)
    a, b = ctx.fix(a), ctx.fix(b)
    q = ctx.array([ctx.int(f"q{r}", -1, 2) for r in range(a * b)], "i").reshape(a, b)
    ok, lab = ctx.attempt(ValueError, lambda: komm.Labeling(q))
    good = a == 2 ** b
    if good:
        for x in q.reshape(-1):
            good = good & ((x == 0) | (x == 1))
        vals = [sum(x << j for j, x in enumerate(r)) for r in q]
        for x in range(a):
            for y in range(x):
                good = good & (vals[x] != vals[y])
    ctx.check(ok == good, "accepted exactly when it lists the words once each")


def lab_product(parts, repeat, n):
    def setup():
        return (komm.ProductLabeling(*[make(*p) for p in parts], repeat=repeat),)

    def run(ctx, lab):
        fs = [rows_of(*p) for p in parts] * repeat
        m = sum(f[0] for f in fs)
        ctx.check((lab.num_bits, lab.cardinality) == (m, 2 ** m), "size")
        js = [[ctx.int(f"j{t}.{k}", 0, 2 ** f[0] - 1) for k, f in enumerate(fs)] for t in range(n)]
        ix, want = [], []
        for t in range(n):
            i = 0
            for j, f in zip(js[t], fs):
                i = i * 2 ** f[0] + j
                want += f[1](j)
            ix.append(i)
        ix = ctx.array(ix, "i")
        b = lab.indices_to_bits(ix)
        ctx.observe("bits", b)
        ctx.eq(b, want, "index digits label the parts")
        ctx.eq(lab.bits_to_indices(ctx.array(want, "i")), ix, "and back")
    return setup, run


def lab_marginal(name, args, n=1):
    """L-values are the log ratios of the summed metrics."""
    def setup():
        return (make(name, args),)

    def run(ctx, lab):
        m, row = rows_of(name, args)
        M = 2 ** m
        p = ctx.reals("p", n * M, lo=0, hi=1)
        for s in range(n):
            for x in p[s * M:(s + 1) * M]:
                ctx.assume(x > 0)
        L = lab.marginalize(p)
        ctx.check(len(L) == n * m, "one value per bit")
        for s in range(n):
            for j in range(m):
                s0 = sum(p[s * M + i] for i in range(M) if row(i)[j] == 0)
                s1 = sum(p[s * M + i] for i in range(M) if row(i)[j] == 1)
                v = L[s * m + j]
                tiny = abs(s0 - s1) < 1e-9
                ctx.check(tiny | ((v > 0) == (s0 > s1)), "positive exactly when 0 is more likely")
                ctx.check(ctx.close([v], [np.log(s0) - np.log(s1)]), "log ratio")
    return setup, run


def add17(name, sr, **kw):
    s, r = sr
    P17.add(name, r, setup=s, **kw)


for nm, sizes in (("natural", (1, 2, 3, 4, 5, 6, 8)), ("reflected", (1, 2, 3, 4, 5, 6, 8)),
                  ("rectangular", ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 3)))):
    for a in sizes:
        tag = str(a).replace(" ", "")
        m = a if isinstance(a, int) else sum(a)
        add17(f"rows/{nm}/{tag}", lab_rows(nm, a, 2), bounds="every pair of indices and of words", cost=m)
        if m <= 5:
            add17(f"batch/{nm}/{tag}", lab_batch(nm, a), bounds="every 3x2 array of indices", cost=m)
        if m <= 4:
            add17(f"invalid/{nm}/{tag}", lab_invalid(nm, a), bounds="indices in [-M-1, 2M+1], symbols in [-1, 2]", cost=m)
for m in (10, 12):
    add17(f"rows/natural/{m}", lab_rows("natural", m, 1), bounds="every index and word", cost=20, tier="thorough")
    add17(f"rows/reflected/{m}", lab_rows("reflected", m, 1), bounds="every index and word", cost=20, tier="thorough")
for m in (1, 2, 3, 4, 5, 7, 10):
    add17(f"gray/{m}", lab_gray(m), bounds="every index", cost=m)
for a in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (1, 4)):
    add17(f"grid/{a[0]}{a[1]}", lab_gray2(*a), bounds="every pair of neighbours", cost=3)
add17("invalid/product", lab_invalid("product", [("natural", 1), ("reflected", 2)]),
      bounds="indices in [-9, 17], symbols in [-1, 2]", cost=3)
add17("invalid/general", lab_invalid("general", [[1, 0], [0, 0], [0, 1], [1, 1]]),
      bounds="indices in [-5, 9], symbols in [-1, 2]", cost=3)
P17.add("general/1", lab_general(1), bounds="every 2x1 matrix of bits", cost=1)
P17.add("general/2", lab_general(2), bounds="every 4x2 matrix of bits", cost=5)
for t, pm in enumerate(([0, 1, 2, 3, 4, 5, 6, 7], [3, 6, 0, 5, 7, 1, 2, 4], [7, 4, 1, 2, 0, 3, 6, 5])):
    P17.add(f"general/3.{t}", lab_general(3, pm), bounds="a permutation of the words, complemented by any word", cost=5)
P17.add("shape", lab_bad_shape, bounds="matrices up to 5x3, entries in [-1, 2]", cost=5)
for t, (pp, rp) in enumerate((([("natural", 1), ("reflected", 2)], 1), ([("reflected", 2)], 2), ([("natural", 2)], 1),
                              ([("reflected", 1), ("natural", 2), ("reflected", 1)], 1), ([("natural", 1)], 3),
                              ([("rectangular", (1, 1)), ("natural", 1)], 2))):
    add17(f"product/{t}", lab_product(pp, rp, 2), bounds="every pair of indices", cost=4)
for nm, a, n in (("natural", 1, 2), ("natural", 2, 1), ("reflected", 2, 1), ("reflected", 2, 2), ("rectangular", (1, 1), 1),
                 ("natural", 3, 1), ("reflected", 3, 1), ("rectangular", (1, 2), 1)):
    add17(f"marginal/{nm}/{str(a).replace(' ', '')}/{n}", lab_marginal(nm, a, n), bounds="every positive real metric up to 1",
          cost=4)

# ------------------------------------------------------------------ C18
P18 = prop("C18")
P18.assumes += ["exact real arithmetic: the decision boundaries move by rounding only, and a point within 1e-9 of "
                "being closest counts as closest"]
CONST = {"pam": komm.PAMConstellation, "ask": komm.ASKConstellation, "psk": komm.PSKConstellation,
         "qam": komm.QAMConstellation, "cross": komm.CrossQAMConstellation, "apsk": komm.APSKConstellation,
         "simplex": komm.SimplexConstellation, "orthogonal": komm.OrthogonalConstellation,
         "biorthogonal": komm.BiorthogonalConstellation, "general": komm.Constellation}


def turn(f):
    return np.exp(2j * np.pi * f)


def points_of(name, a):
    """The documented symbols, in order."""
    if name == "pam":
        M, d = a
        return [[(2 * i - (M - 1)) * d / 2] for i in range(M)]
    if name == "ask":
        M, A, f = a
        return [[A * i * turn(f)] for i in range(M)]
    if name == "psk":
        M, A, f = a
        return [[A * turn(i / M + f)] for i in range(M)]
    if name == "apsk":
        Ms, As, fs = a
        return [p for M, A, f in zip(Ms, As, fs if isinstance(fs, tuple) else [fs] * len(Ms))
                for p in points_of("psk", (M, A, f))]
    if name == "qam":
        (Mi, Mq), (di, dq), f = a
        return [[(x[0] + 1j * y[0]) * turn(f)] for x in points_of("pam", (Mi, di)) for y in points_of("pam", (Mq, dq))]
    if name == "cross":
        M, d, f = a
        k = M.bit_length() - 1
        L, c = 3 * 2 ** ((k - 3) // 2), 2 ** ((k - 5) // 2)
        g = points_of("pam", (L, d))
        out = lambda i: i < c or i >= L - c  # noqa: E731
        return [[(g[i][0] + 1j * g[j][0]) * turn(f)] for i in range(L) for j in range(L) if not (out(i) and out(j))]
    if name == "simplex":
        M, A = a
        return [[A * ((i == j) - 1 / M) for j in range(M)] for i in range(M)]
    if name == "orthogonal":
        M, A = a
        return [[A * (i == j) for j in range(M)] for i in range(M)]
    if name == "biorthogonal":
        M, A = a
        h = M // 2
        return [[A * (i == j) for j in range(h)] for i in range(h)] + [[-A * (i == j) for j in range(h)] for i in range(h)]
    rows = [list(p) if isinstance(p, (list, tuple)) else [p] for p in a[0]]
    if any(isinstance(z, complex) for p in rows for z in p):
        rows = [[complex(z) for z in p] for p in rows]
    return rows


def received(ctx, tag, n, cplx, top):
    re = ctx.reals(tag + "x", n, lo=-top, hi=top)
    if not cplx:
        return re, [[v] for v in re]
    im = ctx.reals(tag + "y", n, lo=-top, hi=top)
    return re + im * 1j, [[u, v] for u, v in zip(re, im)]


def flat(p):
    return [t for z in p for t in ((float(np.real(z)), float(np.imag(z))) if isinstance(z, (complex, np.complexfloating))
                                   else (float(z),))]


def gain(v, p, q):
    """|v - q|^2 - |v - p|^2, which is linear in v."""
    p, q = flat(p), flat(q)
    return sum(2 * x * (a - b) for x, a, b in zip(v, p, q)) + sum(b * b for b in q) - sum(a * a for a in p)


def const_closest(name, a, n=1, batch=None):
    def setup():
        return (CONST[name](*a), points_of(name, a))

    def run(ctx, c, pts):
        M, N = len(pts), len(pts[0])
        cplx = any(isinstance(z, complex) for p in pts for z in p)
        top = 2 * max(1.0, max(abs(z) for p in pts for z in p))
        r, v = received(ctx, "r", n * N, cplx, top)
        rr = r.reshape(batch + (-1,)) if batch else r
        K = c.closest_indices(rr)
        want = (batch + (n * N // int(np.prod(batch)) // N,)) if batch else (n,)
        ctx.check(tuple(K.shape) == want, "shape of the indices")
        S = c.closest_symbols(rr)
        ctx.check(tuple(S.shape) == tuple(rr.shape), "shape of the symbols")
        K, S = K.reshape(-1), S.reshape(-1)
        for t in range(n):
            k = int(ctx.fix(K[t]))
            ctx.check(0 <= k < M, "index in range")
            w = [x for z in v[t * N:(t + 1) * N] for x in z]
            for j in range(M):
                if j != k:
                    ctx.check(gain(w, pts[k], pts[j]) >= -1e-7 * top * top, "no symbol is closer")
            got = S[t * N:(t + 1) * N]
            for x, y in zip(got, pts[k]):
                for part in (np.real, np.imag):
                    ctx.check(abs(part(ctx.asarray(x)) - float(part(y))) < 1e-9, "closest symbol")
    return setup, run


def const_symbols(name, a, n=3):
    def setup():
        return (CONST[name](*a), points_of(name, a))

    def run(ctx, c, pts):
        M, N = len(pts), len(pts[0])
        ctx.check((c.order, c.dimension) == (M, N), "order and dimension")
        ctx.check(tuple(c.matrix.shape) == (M, N), "matrix shape")
        ctx.check(np.allclose(c.matrix, np.array(pts), atol=1e-12), "symbols")
        i = ctx.ints("i", 2 * n, 0, M - 1)
        if M > 4:
            i[1:] = np.arange(1, 2 * n) % M
        s = c.indices_to_symbols(i)
        ctx.check(len(s) == 2 * n * N, "length")
        s2 = c.indices_to_symbols(i.reshape(2, n))
        ctx.check(tuple(s2.shape) == (2, n * N), "batch shape")
        for t in range(2 * n):
            for j in range(N):
                for got in (s[t * N + j], s2[t // n][(t % n) * N + j]):
                    for part in (np.real, np.imag):
                        want = [float(part(p[j])) for p in pts]
                        ok = False
                        g = part(ctx.asarray(got))
                        for k in range(M):
                            ok = ok | ((i[t] == k) & (abs(g - want[k]) < 1e-9))
                        ctx.check(ok, "symbol of the index")
        back = c.closest_indices(s)
        ctx.eq(back, i, "the closest symbol to a symbol is itself")
        if N > 1:
            for bad in range(1, N):
                ctx.check(ctx.raises(ValueError, lambda: c.closest_indices(np.zeros(bad))), "incomplete points refused")
    return setup, run


def const_stats(name, a):
    def setup():
        return (CONST[name](*a), points_of(name, a))

    def run(ctx, c, pts):
        M, N = len(pts), len(pts[0])
        P = np.array(pts)
        if M > 1:
            d = min(float(np.sqrt(np.sum(np.abs(P[i] - P[j]) ** 2))) for i in range(M) for j in range(i))
            ctx.check(abs(c.minimum_distance() - d) < 1e-9, "minimum distance")
        ctx.check(np.allclose(c.mean(), P.sum(axis=0) / M, atol=1e-9), "mean, uniform priors")
        E = [float(np.sum(np.abs(p) ** 2)) for p in P]
        ctx.check(abs(c.mean_energy() - sum(E) / M) < 1e-9 * max(1, max(E)), "mean energy, uniform priors")
        p = ctx.reals("p", M, lo=0, hi=1)
        ctx.assume(sum(p) == 1)
        m = c.mean(p)
        ctx.check(len(m) == N, "mean has one entry per dimension")
        for j in range(N):
            for part in (np.real, np.imag):
                want = sum(p[k] * float(part(P[k][j])) for k in range(M))
                ctx.check(abs(part(ctx.asarray(m[j])) - want) < 1e-9, "mean")
        e = c.mean_energy(p)
        ctx.check(abs(e - sum(p[k] * E[k] for k in range(M))) < 1e-9 * max(1, max(E)), "mean energy")
        ctx.check(ctx.raises(ValueError, lambda: c.mean(np.ones(M + 1) / (M + 1))), "one prior per symbol")
        ctx.check(ctx.raises(ValueError, lambda: c.mean_energy(np.ones(M))), "priors sum to one")
    return setup, run


def const_general(M, N, n=1):
    """Any real matrix: nearest symbols and statistics."""
    def run(ctx):
        X = ctx.reals("x", M * N, lo=-4, hi=4).reshape(M, N)
        c = komm.Constellation(X)
        ctx.check((c.order, c.dimension) == (M, N), "size")
        r = ctx.reals("r", n * N, lo=-9, hi=9)
        K = c.closest_indices(r)
        for t in range(n):
            k = ctx.fix(K[t])
            v = r[t * N:(t + 1) * N]
            for j in range(M):
                ctx.check(sum(2 * v[i] * (X[k][i] - X[j][i]) + X[j][i] * X[j][i] - X[k][i] * X[k][i]
                              for i in range(N)) >= 0, "no symbol is closer")
    return run


def const_map(name, a, prior=None):
    """Posteriors: nonnegative, one distribution per point, ordered by distance and prior."""
    def setup():
        return (CONST[name](*a), points_of(name, a))

    def run(ctx, c, pts):
        M, N = len(pts), len(pts[0])
        cplx = any(isinstance(z, complex) for p in pts for z in p)
        r, v = received(ctx, "r", N, cplx, 4)
        s = 0.5
        post = c.posteriors(r, s) if prior is None else c.posteriors(r, s, prior)
        ctx.check(len(post) == M, "one value per symbol")
        w = [x for z in v for x in z]
        for x in post:
            ctx.check(x > 0, "positive")
        var = s if cplx else 2 * s
        for k in range(M):
            for j in range(k):
                g = gain(w, pts[k], pts[j]) / var
                if prior is not None:
                    g = g + float(np.log(prior[k]) - np.log(prior[j]))
                ctx.check((g < 1e-7) | (post[k] > post[j]), "likelier symbols get more")
                ctx.check((g > -1e-7) | (post[k] < post[j]), "unlikelier symbols get less")
    return setup, run


def add18(name, sr, **kw):
    s, r = sr
    P18.add(name, r, setup=s, **kw)


CONSTS = [("pam", (2, 2.0)), ("pam", (3, 1.5)), ("pam", (4, 2.0)), ("pam", (7, 5.0)), ("pam", (8, 0.25)),
          ("ask", (2, 1.0, 0.0)), ("ask", (4, 1.5, 0.0)), ("ask", (4, 1.0, 0.125)), ("ask", (3, 2.0, 0.3)),
          ("psk", (2, 1.0, 0.0)), ("psk", (3, 1.0, 0.0)), ("psk", (4, 1.0, 0.125)), ("psk", (4, 2.0, 0.0)),
          ("psk", (5, 0.5, 0.1)), ("psk", (8, 1.0, 0.0)), ("psk", (8, 1.0, 0.0625)), ("psk", (16, 3.0, 0.9)),
          ("qam", ((2, 2), (2.0, 2.0), 0.0)), ("qam", ((4, 4), (2.0, 2.0), 0.0)), ("qam", ((4, 2), (2.0, 1.0), 0.0)),
          ("qam", ((2, 4), (0.5, 3.0), 0.125)), ("qam", ((3, 2), (2.0, 2.0), 0.25)), ("qam", ((4, 4), (2.0, 2.0), 0.1)),
          ("qam", ((1, 4), (1.0, 2.0), 0.0)), ("qam", ((4, 1), (2.0, 1.0), 0.5)),
          ("cross", (32, 2.0, 0.0)), ("cross", (32, 1.0, 0.125)),
          ("apsk", ((4, 4), (1.0, 2.0), 0.0)), ("apsk", ((8, 8), (1.0, 2.0), (0.0, 0.0625))),
          ("apsk", ((4, 12), (1.0, 3.0), (0.125, 0.0))), ("apsk", ((1, 5), (0.0, 1.0), 0.0)),
          ("apsk", ((1, 4), (0.5, 2.0), 0.0)), ("apsk", ((2, 3), (1.0, 2.0), 0.25)), ("apsk", ((3, 1), (1.0, 2.0), 0.0)), ("apsk", ((2, 1, 3), (0.5, 1.0, 2.0), (0.0, 0.3, 0.1))), ("apsk", ((1, 1), (1.0, 2.0), 0.5)),
          ("simplex", (2, 1.0)), ("simplex", (3, 2.0)), ("simplex", (4, 1.0)),
          ("orthogonal", (2, 1.0)), ("orthogonal", (4, 2.0)),
          ("biorthogonal", (2, 1.0)), ("biorthogonal", (4, 1.5)), ("biorthogonal", (6, 1.0)), ("biorthogonal", (8, 2.0)),
          ("general", ([[0.0, 0.0], [1.0, 0.0], [0.0, 2.0], [-3.0, 1.0]],)), ("general", ([0.0, 1.0, 3.5, -1.0],)),
          ("general", ([0.0, 1 + 1j, 3.5j, -1.0],)),
          ("general", ([[1.0, 2.0, 0.0], [0.0, 0.5, 0.5], [-1.0, 1.0, 1.0]],))]
SLOW = [("psk", (16, 3.0, 0.9)), ("qam", ((4, 4), (2.0, 2.0), 0.1)), ("psk", (8, 1.0, 0.0)), ("cross", (32, 1.0, 0.125)),
        ("apsk", ((8, 8), (1.0, 2.0), (0.0, 0.0625))), ("qam", ((3, 2), (2.0, 2.0), 0.25)), ("apsk", ((4, 12), (1.0, 3.0), (0.125, 0.0)))]
for nm, a in CONSTS:
    tier = "thorough" if (nm, a) in SLOW else "quick"
    tag = f"{nm}/{a}".replace(" ", "")
    M = len(points_of(nm, a))
    add18(f"closest/{tag}", const_closest(nm, a), bounds="every received point in twice the span", cost=M, tier=tier)
    add18(f"symbols/{tag}", const_symbols(nm, a, 1 if M > 8 else 2), bounds="every pair of indices or more", cost=M, tier=tier)
    add18(f"stats/{tag}", const_stats(nm, a), bounds="all priors", cost=M / 2)
for nm, a, n, b in (("pam", (4, 2.0), 2, None), ("pam", (3, 2.0), 4, (2,)), ("psk", (4, 1.0, 0.125), 2, (2,)),
                    ("qam", ((2, 2), (2.0, 2.0), 0.0), 2, (2, 1)), ("simplex", (3, 1.0), 2, None),
                    ("orthogonal", (2, 1.0), 4, (2,)), ("biorthogonal", (4, 1.0), 4, (2, 1)), ("ask", (3, 1.0, 0.0), 2, (1,)),
                    ("general", ([[0.0, 0.0], [1.0, 0.0], [0.0, 2.0]],), 2, (2,)), ("apsk", ((2, 2), (1.0, 2.0), 0.0), 2, (2,))):
    tag = f"{nm}/{a}/{n}/{b}".replace(" ", "")
    add18(f"batch/{tag}", const_closest(nm, a, n, b), bounds="every array of received points", cost=20)
for M, N in ((2, 1), (3, 1), (4, 1), (2, 2), (3, 2), (2, 3)):
    P18.add(f"any/{M}x{N}", const_general(M, N), bounds="every real matrix with entries in [-4, 4]", cost=10)
for nm, a, pr in (("pam", (2, 2.0), None), ("pam", (4, 2.0), None), ("psk", (4, 1.0, 0.125), None),
                  ("pam", (3, 1.0), (0.2, 0.3, 0.5)), ("orthogonal", (2, 1.0), (0.9, 0.1)),
                  ("ask", (3, 1.0, 0.0), (0.25, 0.25, 0.5)), ("biorthogonal", (4, 1.0), None)):
    add18(f"posterior/{nm}/{a}/{pr}".replace(" ", ""), const_map(nm, a, pr), bounds="every received point, noise power 1/2",
          cost=5)
