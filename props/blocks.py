"""C06-C13: linear block codes and their decoders."""
import itertools

import numpy as np

import komm
from symex.reg import prop


def dot2(u, M):
    """Row vector times matrix over GF(2), entry by entry."""
    rows, cols = M.shape
    out = []
    for j in range(cols):
        s = 0
        for i in range(rows):
            s = s ^ (int_of(M[i, j]) & int_of(u[i]))
        out.append(s)
    return out


def int_of(x):
    return int(x) if isinstance(x, (np.integer, np.bool_)) else x


def xor(a, b):
    return [int_of(x) ^ int_of(y) for x, y in zip(a, b)]


def ints(a):
    return [int_of(x) for x in list(np.asarray(a).tolist() if not hasattr(a, "k") else a)]


def messages(k):
    return list(itertools.product([0, 1], repeat=k))


def allzero(ctx, xs):
    z = True
    for x in xs:
        z = (x == 0) & z
    return z


def weight(xs):
    return sum(int_of(x) for x in xs)


def dims(ctx, code):
    n, k, m = code.length, code.dimension, code.redundancy
    ctx.check(n == k + m, "n == k + m")
    ctx.check(abs(code.rate - k / n) < 1e-12, "rate is k/n")
    return n, k, m


def matrices(ctx, code):
    """Generator, check matrix and right inverse fit together."""
    n, k, m = dims(ctx, code)
    G, H = code.generator_matrix, code.check_matrix
    ctx.check(tuple(G.shape) == (k, n), "shape of G")
    ctx.check(tuple(H.shape) == (m, n), "shape of H")
    for i in range(k):
        for j in range(m):
            s = 0
            for t in range(n):
                s = s ^ (int_of(G[i, t]) & int_of(H[j, t]))
            ctx.check(s == 0, "G H^T == 0")
    return G, H


def right_inverse(ctx, code):
    G, R = code.generator_matrix, code.generator_matrix_right_inverse
    k = code.dimension
    ctx.check(tuple(R.shape) == (code.length, k), "shape of the right inverse")
    for i in range(k):
        ctx.eq(np.asarray(dot2(G[i], R)) if not ctx.symbolic else ctx.array(dot2(G[i], R), "i"),
               [1 if i == j else 0 for j in range(k)], "right inverse")


def encoding(ctx, code, matrix=True):
    """encode is linear, injective, undone by inverse_encode and project_word."""
    n, k, m = code.length, code.dimension, code.redundancy
    u, w = ctx.bits("u", k), ctx.bits("w", k)
    v = code.encode(u)
    ctx.observe("v", v)
    ctx.check(tuple(v.shape) == (n,), "length of a codeword")
    if matrix:
        ctx.eq(v, ctx.array(dot2(u, code.generator_matrix), "i"), "encode is u G")
    ctx.eq(code.encode(ctx.array(xor(u, w), "i")), ctx.array(xor(v, code.encode(w)), "i"), "encode is linear")
    ctx.eq(code.check(v), [0] * m, "codewords have zero syndrome")
    ctx.eq(code.project_word(v), u, "project_word undoes encode")
    ctx.eq(code.inverse_encode(v), u, "inverse_encode undoes encode")


def words(ctx, code, matrix=True):
    """The syndrome of an arbitrary word."""
    n, m = code.length, code.redundancy
    r, q = ctx.bits("r", n), ctx.bits("q", n)
    s = code.check(r)
    ctx.observe("s", s)
    ctx.check(tuple(s.shape) == (m,), "length of a syndrome")
    ctx.eq(code.check(ctx.array(xor(r, q), "i")), ctx.array(xor(s, code.check(q)), "i"), "check is linear")
    if matrix:
        ctx.eq(s, ctx.array(dot2(r, code.check_matrix.T), "i"), "check is r H^T")
    z = allzero(ctx, s)
    back = code.encode(code.project_word(r))
    same = ctx.all_eq(ctx.asarray(back), ctx.asarray(r))
    ctx.check(z == same, "zero syndrome iff codeword")
    ok, u = ctx.attempt(ValueError, lambda: code.inverse_encode(r))
    ctx.check(ok == z, "inverse_encode accepts exactly the codewords")
    if ok:
        ctx.eq(code.encode(u), r, "inverse_encode is exact")


def batches(ctx, code):
    n, k, m = code.length, code.dimension, code.redundancy
    u = ctx.bits("u", 4, k)
    vs = [code.encode(u[i]) for i in range(4)]
    ctx.eq(code.encode(u), [list(v) for v in vs] if not ctx.symbolic else stack(ctx, vs), "encode acts on rows")
    flat = code.encode(u.reshape(4 * k))
    ctx.eq(flat, ctx.array([x for v in vs for x in v], "i"), "encode acts on consecutive blocks")
    two = code.encode(u.reshape(2, 2 * k))
    ctx.eq(two, ctx.array([x for v in vs for x in v], "i").reshape(2, 2 * n), "encode acts on blocks of rows")
    r = ctx.bits("r", 2, n)
    for f, w, name in ((code.check, m, "check"), (code.project_word, k, "project_word")):
        one = [f(r[i]) for i in range(2)]
        ctx.eq(f(r), stack(ctx, one), name + " acts on rows")
        ctx.eq(f(r.reshape(2 * n)), ctx.array([x for v in one for x in v], "i"), name + " acts on consecutive blocks")
    ctx.eq(code.inverse_encode(stack(ctx, vs)), u, "inverse_encode acts on rows")
    if k > 1:
        bad = ctx.bits("bad", k + 1)
        ctx.check(ctx.raises(ValueError, lambda: code.encode(bad)), "partial blocks are refused")
    if n > 1:
        bad = ctx.bits("badr", n + 1)
        ctx.check(ctx.raises(ValueError, lambda: code.check(bad)), "partial words are refused")
        ctx.check(ctx.raises(ValueError, lambda: code.project_word(bad)), "partial words are refused")
        ctx.check(ctx.raises(ValueError, lambda: code.inverse_encode(bad)), "partial words are refused")


def stack(ctx, rows):
    return ctx.array([x for v in rows for x in v], "i").reshape(len(rows), -1)


def full_rank(ctx, M):
    k, n = M.shape
    for c in messages(k)[1:]:
        row = [0] * n
        for i in range(k):
            if c[i]:
                row = xor(row, M[i])
        ctx.assume(allzero(ctx, row) == False)  # noqa: E712


# ------------------------------------------------------------------ C06
P = prop("C06")
P.assumes += ["generator and check matrices given by the user have full row rank (the documented k x n, m x n case)"]


def from_generator(k, n, part):
    def run(ctx):
        G = ctx.bits("G", k, n)
        full_rank(ctx, G)
        code = komm.BlockCode(generator_matrix=G)
        ctx.check((code.length, code.dimension, code.redundancy) == (n, k, n - k), "dimensions")
        part(ctx, code)
        ctx.eq(code.generator_matrix, G, "the given generator matrix is kept")
    return run


def from_check(m, n, part):
    def run(ctx):
        H = ctx.bits("H", m, n)
        full_rank(ctx, H)
        code = komm.BlockCode(check_matrix=H)
        ctx.check((code.length, code.dimension, code.redundancy) == (n, n - m, m), "dimensions")
        part(ctx, code)
        ctx.eq(code.check_matrix, H, "the given check matrix is kept")
    return run


def systematic(k, m, info, part):
    n = k + m

    def run(ctx):
        A = ctx.bits("P", k, m)
        if info == "any":
            I = ctx.ints("I", k, 0, n - 1)
            for i in range(k):
                for j in range(i):
                    ctx.assume(I[i] != I[j])
            code = komm.SystematicBlockCode(A, I)
        else:
            code = komm.SystematicBlockCode(A, info)
        ctx.check((code.length, code.dimension, code.redundancy) == (n, k, m), "dimensions")
        part(ctx, code)
        if part is encoding:
            want = {"left": range(k), "right": range(m, n)}[info] if isinstance(info, str) and info != "any" else (
                I if info == "any" else info)
            u = ctx.bits("u", k)
            v = code.encode(u)
            rest = [j for j in range(n) if j not in [int(x) for x in want]]
            ctx.eq(v[np.array([int(x) for x in want])], u, "the message sits on the information set")
            ctx.eq(v[np.array(rest, dtype=int)], ctx.array(dot2(u, A), "i"), "the parity bits are u P")
    return run


def bad_info(ctx):
    A = ctx.bits("P", 2, 2)
    I = ctx.ints("I", 2, -2, 6)
    ok, _ = ctx.attempt(ValueError, lambda: komm.SystematicBlockCode(A, I))
    good = (I[0] >= 0) & (I[0] < 4) & (I[1] >= 0) & (I[1] < 4) & (I[0] != I[1])
    ctx.check(ok == good, "information set accepted iff a k-sublist of range(n)")


PARTS = {"matrices": matrices, "inverse": right_inverse, "encode": encoding, "words": words, "batches": batches}
for (k, n) in ((1, 3), (2, 4), (2, 3)):
    for pn, part in PARTS.items():
        P.add(f"gen/{k}x{n}/{pn}", from_generator(k, n, part), bounds=f"every full-rank {k}x{n} generator matrix, all words", cost=k * n)
        P.add(f"chk/{n - k}x{n}/{pn}", from_check(n - k, n, part), bounds=f"every full-rank {n - k}x{n} check matrix, all words", cost=k * n)
for (k, m) in ((2, 2), (3, 3), (4, 3)):
    for info in ("left", "right"):
        for pn, part in PARTS.items():
            P.add(f"sys/{k}+{m}/{info}/{pn}", systematic(k, m, info, part), bounds=f"every {k}x{m} parity submatrix, information set {info}, all words", cost=2)
for pn, part in PARTS.items():
    P.add(f"sys/2+2/any/{pn}", systematic(2, 2, "any", part), bounds="every 2x2 parity submatrix and every ordered information set", cost=5)
P.add("sys/badinfo", bad_info, bounds="all index pairs in -2..6")
def add6(kind, k, n, parts, tier):
    for pn in parts:
        f, what = (from_generator, "generator") if kind == "gen" else (from_check, "check")
        P.add(f"{kind}/{k}x{n}/{pn}", f(k, n, PARTS[pn]), bounds=f"every full-rank {k}x{n} {what} matrix, all words",
              cost=2 * k * n, tier=tier)


add6("gen", 3, 5, ("matrices", "inverse", "encode", "words"), "quick")
add6("gen", 2, 6, PARTS, "quick")
add6("gen", 3, 6, ("matrices", "inverse", "encode"), "quick")
add6("chk", 2, 5, PARTS, "quick")
add6("chk", 4, 5, ("matrices", "encode"), "thorough")
add6("gen", 3, 5, ("batches",), "thorough")
add6("gen", 3, 6, ("words", "batches"), "thorough")
add6("gen", 3, 7, ("matrices", "inverse", "encode"), "thorough")
add6("chk", 3, 6, ("matrices", "inverse", "encode"), "thorough")
add6("chk", 4, 6, ("matrices", "inverse", "encode"), "thorough")

# ------------------------------------------------------------------ C07
P7 = prop("C07")

HAMMING = [(f"hamming{mu}{'x' if e else ''}", lambda mu=mu, e=e: komm.HammingCode(mu, e)) for mu in (2, 3, 4) for e in (False, True)]
SIMPLEX = [(f"simplex{k}{'x' if e else ''}", lambda k=k, e=e: komm.SimplexCode(k, e)) for k in (2, 3, 4) for e in (False, True)]
GOLAY = [("golay", lambda: komm.GolayCode()), ("golayx", lambda: komm.GolayCode(extended=True))]
REP = [(f"rep{n}", lambda n=n: komm.RepetitionCode(n)) for n in range(1, 8)]
SPC = [(f"spc{n}", lambda n=n: komm.SingleParityCheckCode(n)) for n in range(2, 8)]
CW = [(f"cw{n}", lambda n=n: komm.CordaroWagnerCode(n)) for n in range(2, 11)]
LEX = [(f"lex{n}.{d}", lambda n=n, d=d: komm.Lexicode(n, d)) for n, d in ((3, 1), (4, 2), (5, 3), (6, 3), (7, 3), (7, 4), (8, 4), (5, 5), (8, 2), (10, 3))]
RM = [(f"rm{r}.{m}", lambda r=r, m=m: komm.ReedMullerCode(r, m)) for m in (1, 2, 3, 4) for r in range(m)]
POLAR = [("polar1", lambda: komm.PolarCode(1, [0])), ("polar2", lambda: komm.PolarCode(2, [0, 1])),
         ("polar2b", lambda: komm.PolarCode(2, [2])), ("polar3", lambda: komm.PolarCode(3, [0, 1, 2, 4])),
         ("polar4", lambda: komm.PolarCode(4, [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12])), ("polar3f", lambda: komm.PolarCode(3, []))]
FAMILIES = HAMMING + SIMPLEX + GOLAY + REP + SPC + CW + LEX + RM + POLAR

P7.assumes += ["members of the families listed in the bounds (length at most 31)"]
for name, make in FAMILIES:
    for pn, part in PARTS.items():
        big = name.startswith("golay") or name in ("rm2.4", "rm3.4", "hamming4", "hamming4x")
        P7.add(f"{name}/{pn}", part, setup=make, bounds=f"code {name}, all messages and words", cost=4 if big else 1)


def hamming_structure(ctx, code):
    """Columns of the check matrix: every nonzero syndrome exactly once."""
    H = code.check_matrix
    m, n = H.shape
    s = ctx.bits("s", m)
    ctx.assume(allzero(ctx, s) == False)  # noqa: E712
    hits = sum(1 * (allzero(ctx, xor(s, H[:, j]))) for j in range(n))
    ctx.check(hits == 1, "columns are all the nonzero vectors, once each")


def extended(base, ext, parity_even=True):
    def run(ctx, b, e):
        k = b.dimension
        u = ctx.bits("u", k)
        v, x = b.encode(u), e.encode(u)
        ctx.check(weight(x) % 2 == 0, "extended codewords have even weight")
        ctx.eq(x[:-1], v, "extension adds one bit to the codeword")
    return run


def constant_weight(k):
    def run(ctx, code):
        u = ctx.bits("u", k)
        ctx.assume(allzero(ctx, u) == False)  # noqa: E712
        ctx.check(weight(code.encode(u)) == 2 ** (k - 1), "nonzero codewords have weight 2^(k-1)")
    return run


def duals(ctx, a, b):
    ctx.check(a.length == b.length and a.dimension + b.dimension == a.length, "dimensions are complementary")
    v, w = a.encode(ctx.bits("u", a.dimension)), b.encode(ctx.bits("w", b.dimension))
    s = 0
    for x, y in zip(v, w):
        s = s ^ (x & y)
    ctx.check(s == 0, "dual codes are orthogonal")


def repetition(n):
    def run(ctx):
        code = komm.RepetitionCode(n)
        u = ctx.bits("u", 1)
        ctx.eq(code.encode(u), ctx.array([u[0]] * n, "i"), "every bit is the message bit")
    return run


def parity(n):
    def run(ctx):
        code = komm.SingleParityCheckCode(n)
        ctx.check(code.dimension == n - 1, "dimension")
        u = ctx.bits("u", n - 1)
        ctx.check(weight(code.encode(u)) % 2 == 0, "codewords have even weight")
        r = ctx.bits("r", n)
        ctx.check(code.check(r)[0] == weight(r) % 2, "syndrome is the parity")
    return run


def lexicographic(n, d):
    """The greedy set: a word belongs to it iff it is at distance at least d from every smaller word of the set."""
    def setup():
        code = komm.Lexicode(n, d)
        return code, sorted(int("".join(str(int(b)) for b in c), 2) for c in code.codewords())

    def run(ctx, code, words):
        w = ctx.bits("w", n)
        member = allzero(ctx, code.check(w))
        v = 0
        for b in w:
            v = 2 * v + b
        far = True
        for c in words:
            dist = sum(b ^ (c >> (n - 1 - i) & 1) for i, b in enumerate(w))
            far = ((c >= v) | (dist >= d)) & far
        ctx.check(member == far, "exactly the words far from all smaller ones")
        ctx.check(code.minimum_distance() == d or len(words) == 1, "minimum distance")
    return setup, run


def rm_nested(r, m):
    def run(ctx, small, big):
        u = ctx.bits("u", small.dimension)
        ctx.eq(big.check(small.encode(u)), [0] * big.redundancy, "Reed-Muller codes are nested")
    return run


def rm_monomials(r, m):
    """Codewords are the evaluations of the polynomials of degree <= rho."""
    def run(ctx):
        code = komm.ReedMullerCode(r, m)
        u = ctx.bits("u", code.dimension)
        v = code.encode(u)
        # the polynomial's coefficients by Moebius inversion over the evaluation points
        c = [int_of(x) for x in v]
        for d in range(m):
            for i in range(2 ** m):
                if i >> d & 1:
                    c[i] = c[i] ^ c[i ^ (1 << d)]
        for i in range(2 ** m):
            if bin(i).count("1") > r:
                ctx.check(c[i] == 0, "no monomial above the order")
        ctx.check(code.dimension == sum(len(list(itertools.combinations(range(m), w))) for w in range(r + 1)), "dimension")
    return run


def rm_partitions(r, m):
    """Majority-logic partitions: each parity over a block reveals the message bit
    once the higher-order part is known."""
    def run(ctx):
        code = komm.ReedMullerCode(r, m)
        u = ctx.bits("u", code.dimension)
        parts = code.reed_partitions()
        ctx.check(len(parts) == code.dimension, "one partition per message bit")
        b = [int_of(x) for x in code.encode(u)]
        for i, part in enumerate(parts):
            ctx.check(sorted(int(x) for x in part.ravel()) == list(range(2 ** m)), "blocks partition the positions")
            for blk in np.asarray(part).tolist():
                s = 0
                for j in blk:
                    s = s ^ b[int(j)]
                ctx.check(s == u[i], "every checksum equals the message bit")
            b = [x ^ (u[i] & int(g)) for x, g in zip(b, code.generator_matrix[i])]
    return run


def polar_any(mu):
    """Every frozen set."""
    n = 2 ** mu

    def run(ctx):
        f = [ctx.boolean(f"f{i}") for i in range(n)]
        frozen = [i for i in range(n) if f[i]]
        if len(frozen) == n:
            return
        code = komm.PolarCode(mu, frozen)
        k = n - len(frozen)
        ctx.check((code.length, code.dimension) == (n, k), "dimensions")
        u = ctx.bits("u", n)
        full = [u[i] if i not in frozen else 0 for i in range(n)]
        msg = ctx.array([u[i] for i in range(n) if i not in frozen], "i")
        v = code.encode(msg)
        # x_j = sum of u_i over the i whose binary digits contain those of j
        want = []
        for j in range(n):
            s = 0
            for i in range(n):
                if i & j == j:
                    s = s ^ full[i]
            want.append(s)
        ctx.eq(v, ctx.array(want, "i"), "polar transform of the message with frozen zeros")
        ctx.eq(v, ctx.array(dot2(msg, code.generator_matrix), "i"), "encode is u G")
    return run


def polar_ctor(mu, size):
    def run(ctx):
        f = [ctx.int(f"f{i}", -1, 2 ** mu) for i in range(size)]
        ok, _ = ctx.attempt(ValueError, lambda: komm.PolarCode(mu, f))
        good = True
        for i, x in enumerate(f):
            good = (x >= 0) & (x < 2 ** mu) & good
            for y in f[:i]:
                good = (x != y) & good
        ctx.check(ok == good, "frozen set accepted iff distinct indices in range")
    return run


def slepian(ctx, code):
    arr = komm.SlepianArray(code)
    n, k, m = code.length, code.dimension, code.redundancy
    i, j = ctx.int("i", 0, 2 ** m - 1), ctx.int("j", 0, 2 ** k - 1)
    e = arr.entry(i, j)
    ctx.observe("e", e)
    v = code.encode(komm.int_to_bits(j, k))
    s = code.check(e)
    ctx.check(komm.bits_to_int(s) == i, "row i holds the words with syndrome i")
    lead = arr.entry(i, 0)
    ctx.eq(e, ctx.array(xor(lead, v), "i"), "entry is leader plus codeword")
    ctx.check(weight(lead) <= weight(e), "leaders have least weight in their row")
    ctx.eq(arr.entry(0, j), v, "first row is the code")
    row = arr.row(i)
    ctx.check(tuple(row.shape) == (2 ** k, n), "row shape")
    ctx.eq(row[1], arr.entry(i, 1), "row entries")
    col = arr.col(j)
    ctx.check(tuple(col.shape) == (2 ** m, n), "column shape")
    ctx.eq(col[2 ** m - 1], arr.entry(2 ** m - 1, j), "column entries")


for mu in (2, 3, 4):
    P7.add(f"hamming{mu}/columns", hamming_structure, setup=lambda mu=mu: komm.HammingCode(mu), bounds="all syndromes")
    P7.add(f"hamming{mu}/extended", extended(0, 0), setup=lambda mu=mu: (komm.HammingCode(mu), komm.HammingCode(mu, True)), bounds="all messages")
    P7.add(f"simplex{mu}/weight", constant_weight(mu), setup=lambda mu=mu: komm.SimplexCode(mu), bounds="all nonzero messages")
    P7.add(f"hamming{mu}/dual", duals, setup=lambda mu=mu: dual_pair(mu), bounds="all message pairs")
P7.add("golay/extended", extended(0, 0), setup=lambda: (komm.GolayCode(), komm.GolayCode(True)), bounds="all messages")
for n in (1, 2, 3, 5, 8):
    P7.add(f"rep{n}/form", repetition(n), bounds="all messages")
for n in (2, 3, 5, 8):
    P7.add(f"spc{n}/form", parity(n), bounds="all messages and words")
for m in (2, 3, 4):
    for r in range(m - 1):
        P7.add(f"rm{r}.{m}/nested", rm_nested(r, m), setup=lambda r=r, m=m: (komm.ReedMullerCode(r, m), komm.ReedMullerCode(r + 1, m)), bounds="all messages")
        P7.add(f"rm{r}.{m}/dual", duals, setup=lambda r=r, m=m: (komm.ReedMullerCode(r, m), komm.ReedMullerCode(m - r - 1, m)), bounds="all message pairs")
    for r in range(m):
        P7.add(f"rm{r}.{m}/monomials", rm_monomials(r, m), bounds="all messages", cost=2)
        P7.add(f"rm{r}.{m}/partitions", rm_partitions(r, m), bounds="all messages", cost=2)
P7.add("polar1/any", polar_any(1), bounds="every frozen set, all messages")
P7.add("polar2/any", polar_any(2), bounds="every frozen set, all messages")
P7.add("polar3/any", polar_any(3), bounds="every frozen set, all messages", cost=8)
P7.add("polar2/ctor", polar_ctor(2, 3), bounds="every list of 3 indices in -1..4")
for n, d in ((3, 1), (4, 2), (5, 3), (6, 3), (7, 3), (7, 4), (8, 4), (5, 5), (6, 2), (8, 2), (9, 3), (10, 3), (9, 2), (10, 2), (8, 3), (9, 4), (10, 4), (11, 3), (10, 5)):
    s_, r_ = lexicographic(n, d)
    P7.add(f"lex{n}.{d}/greedy", r_, setup=s_, bounds=f"all words of length {n}", cost=n)
for name, make in [x for x in FAMILIES if x[0] in ("hamming3", "hamming2x", "simplex3", "rep4", "spc4", "cw6", "rm1.3", "lex5.3", "polar3")]:
    P7.add(f"{name}/slepian", slepian, setup=make, bounds="all rows and columns", cost=2)


def dual_pair(mu):
    """The Hamming code and the simplex code of the same length, in matching coordinates."""
    h, s = komm.HammingCode(mu), komm.SimplexCode(mu)
    # information positions of one are the parity positions of the other
    k = h.dimension
    g = np.hstack([s.generator_matrix[:, mu:], s.generator_matrix[:, :mu]])
    return h, komm.BlockCode(generator_matrix=g)


# ------------------------------------------------------------------ C08
P8 = prop("C08")
P8.assumes += ["members of the families listed in the bounds"]


def distance(ctx, code):
    d = code.minimum_distance()
    ctx.check(code.packing_radius() == (d - 1) // 2, "packing radius is floor((d-1)/2)")
    u = ctx.bits("u", code.dimension)
    ctx.observe("w", weight(code.encode(u)))
    ctx.assume(allzero(ctx, u) == False)  # noqa: E712
    ctx.check(weight(code.encode(u)) >= d, "nonzero codewords weigh at least the minimum distance")


def distance_attained(ctx, code):
    """A codeword of weight d exists (searched in the code's generator matrix)."""
    rows = [int("".join(str(int(x)) for x in r), 2) for r in code.generator_matrix]
    ws = {0}
    best = None
    for r in rows:
        ws |= {w ^ r for w in ws}
    best = min(w.bit_count() for w in ws if w)
    ctx.check(code.minimum_distance() == best, "minimum distance is attained")
    n = code.length
    dist = [sum(w.bit_count() == i for w in ws) for i in range(n + 1)]
    i = ctx.int("i", 0, n)
    ctx.check(code.codeword_weight_distribution()[i] == np.array(dist)[i], "weight distribution counts codewords")
    ctx.check(len(code.codeword_weight_distribution()) == n + 1, "weight distribution length")
    cw = code.codewords()
    j = ctx.int("j", 0, 2 ** code.dimension - 1)
    ctx.eq(cw[j], code.encode(komm.int_to_bits(j, code.dimension)), "codeword list is in message order")
    ctx.check(tuple(cw.shape) == (2 ** code.dimension, n), "codeword list shape")
    ctx.check(code.codeword_weight_distribution()[i] == np.array(dist)[i], "weight distribution after listing codewords")


def leaders(ctx, code):
    n, m = code.length, code.redundancy
    L = code.coset_leaders()
    ctx.check(tuple(L.shape) == (2 ** m, n), "one leader per syndrome")
    i = ctx.int("i", 0, 2 ** m - 1)
    lead = L[i]
    ctx.observe("lead", lead)
    ctx.check(komm.bits_to_int(code.check(lead)) == i, "leader i has syndrome i")
    r = ctx.bits("r", n)
    s = komm.bits_to_int(code.check(r))
    ctx.check(weight(L[s]) <= weight(r), "leader has least weight in its coset")
    ctx.check(weight(lead) <= code.covering_radius(), "covering radius bounds the leaders")


def leader_stats(make):
    def run(ctx):
        a, b = make(), make()
        first = b.coset_leader_weight_distribution()
        w = [sum(int(x) for x in row) for row in a.coset_leaders()]
        second = a.coset_leader_weight_distribution()
        n = a.length
        ctx.check(len(first) == n + 1, "distribution length")
        i = ctx.int("i", 0, n)
        cnt = np.array([w.count(x) for x in range(n + 1)])
        ctx.check(first[i] == cnt[i], "leader weight distribution counts leaders")
        ctx.check(second[i] == cnt[i], "leader weight distribution after listing leaders")
        ctx.check(a.covering_radius() == max(w), "covering radius is the largest leader weight")
    return run


def sym_distance(k, n):
    def run(ctx):
        G = ctx.bits("G", k, n)
        full_rank(ctx, G)
        code = komm.BlockCode(generator_matrix=G)
        ws = []
        for c in messages(k):
            row = [0] * n
            for i in range(k):
                if c[i]:
                    row = xor(row, G[i])
            ws.append(weight(row))
        d = code.minimum_distance()
        ctx.observe("d", d)
        some = False
        for w in ws[1:]:
            ctx.check(w >= d, "minimum distance is a lower bound")
            some = (w == d) | some
        ctx.check(some, "minimum distance is attained")
        dist = code.codeword_weight_distribution()
        for i in range(n + 1):
            ctx.check(dist[i] == sum(1 * (w == i) for w in ws), "weight distribution counts codewords")
    return run


def sym_leaders(k, m):
    n = k + m

    def run(ctx):
        A = ctx.bits("P", k, m)
        code = komm.SystematicBlockCode(A)
        leaders(ctx, code)
        w = [weight(x) for x in code.coset_leaders()]
        fresh = komm.SystematicBlockCode(A)
        dist = fresh.coset_leader_weight_distribution()
        for i in range(n + 1):
            ctx.check(dist[i] == sum(1 * (x == i) for x in w), "leader weight distribution counts leaders")
    return run


# redundancy above 8 and above 12
BIG_M = ("simplex4", "simplex4x", "golay", "golayx", "rm0.4", "rm1.4", "polar4")
BIGGER_M = ("rm0.4",)
for name, make in FAMILIES:
    P8.add(f"{name}/distance", distance, setup=make, bounds=f"code {name}, all nonzero messages", cost=3 if "golay" in name or name == "rm3.4" else 1)
    P8.add(f"{name}/attained", distance_attained, setup=make, bounds=f"code {name}, all indices", cost=5 if "golay" in name or name == "rm3.4" else 1)
    if name not in BIG_M:
        P8.add(f"{name}/leaders", leaders, setup=make, bounds=f"code {name}, all words", cost=3)
    if name not in BIGGER_M:
        P8.add(f"{name}/leaderstats", leader_stats(make), bounds=f"code {name}", cost=2)
for k, n in ((1, 3), (2, 3), (2, 4), (2, 5), (3, 4)):
    P8.add(f"gen/{k}x{n}/distance", sym_distance(k, n), bounds=f"every full-rank {k}x{n} generator matrix", cost=k * n)
P8.add("gen/3x5/distance", sym_distance(3, 5), bounds="every full-rank 3x5 generator matrix", cost=20, tier="thorough")
for k, m in ((1, 2), (2, 2)):
    P8.add(f"sys/{k}+{m}/leaders", sym_leaders(k, m), bounds=f"every {k}x{m} parity submatrix, all words", cost=4)
P8.add("sys/3+2/leaders", sym_leaders(3, 2), bounds="every 3x2 parity submatrix, all words", cost=14)
P8.add("sys/2+3/leaders", sym_leaders(2, 3), bounds="every 2x3 parity submatrix, all words", cost=20, tier="thorough")
