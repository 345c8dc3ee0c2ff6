"""C09-C12: cyclic and BCH codes; hard-decision, soft-decision and successive-cancellation block decoders."""
import itertools

import numpy as np

import komm
from props.blocks import FAMILIES, PARTS, allzero, dot2, encoding, int_of, matrices, stack, weight, words, xor
from symex.reg import prop


# plain binary polynomial arithmetic for the specifications
def pmod(a, b):
    while a and a.bit_length() >= b.bit_length():
        a ^= b << (a.bit_length() - b.bit_length())
    return a


def pdiv(a, b):
    q = 0
    while a and a.bit_length() >= b.bit_length():
        s = a.bit_length() - b.bit_length()
        q ^= 1 << s
        a ^= b << s
    return q


def divisors(n):
    return [g for g in range(1, 2 ** (n + 1)) if pmod(2 ** n + 1, g) == 0]


def bits_of(x, w):
    return [x >> i & 1 for i in range(w)]


def one_of(x, xs):
    r = False
    for y in xs:
        r = (x == y) | r
    return r


def pick(x, xs):
    """The (concrete) element of xs equal to x."""
    for y in xs:
        if x == y:
            return y
    raise AssertionError


# ------------------------------------------------------------------ C09
P9 = prop("C09")
P9.assumes += ["generator polynomials of positive degree less than the length, except where acceptance is checked"]


def accepted(n, which):
    D = divisors(n)

    def run(ctx):
        g = ctx.int("g", 1, 2 ** (n + 1) + 1)
        ok, code = ctx.attempt(ValueError, lambda: komm.CyclicCode(n, **{which: g}))
        ctx.check(ok == one_of(g, D), "accepted iff it divides X^n + 1")
        if ok:
            d = pick(g, D)
            deg = d.bit_length() - 1
            m, k = (deg, n - deg) if which == "generator_polynomial" else (n - deg, deg)
            ctx.check((code.length, code.dimension, code.redundancy) == (n, k, m), "dimensions")
            other = pdiv(2 ** n + 1, d)
            gen, chk = (d, other) if which == "generator_polynomial" else (other, d)
            ctx.check(int(code.generator_polynomial) == gen, "generator polynomial")
            ctx.check(int(code.check_polynomial) == chk, "check polynomial")
    return run


def missing(ctx):
    n = ctx.int("n", 1, 7)
    ctx.check(ctx.raises(ValueError, lambda: komm.CyclicCode(n)), "one polynomial is required")


def over_divisors(n, syst, part, which="generator_polynomial"):
    D = [g for g in divisors(n) if 2 <= g < 2 ** n]

    def run(ctx):
        g = ctx.int("g", 2, 2 ** n - 1)
        ctx.assume(one_of(g, D))
        d = pick(g, D)
        code = komm.CyclicCode(n, systematic=syst, **{which: d})
        part(ctx, code, d if which == "generator_polynomial" else pdiv(2 ** n + 1, d), syst)
    return run


def multiples(ctx, code, g, syst=True):
    """Codewords: the multiples of the generator polynomial, closed under cyclic shifts."""
    n, k = code.length, code.dimension
    m = n - k
    u = ctx.bits("u", k)
    v = code.encode(u)
    ctx.observe("v", v)
    vs = [int_of(x) for x in v]
    # remainder of v modulo g, linear in v
    for j in range(m):
        s = 0
        for i in range(n):
            if pmod(1 << i, g) >> j & 1:
                s = s ^ vs[i]
        ctx.check(s == 0, "codewords are multiples of g")
    if syst:
        ctx.eq(v[m:], u, "the message is the last k symbols")
    else:
        for j in range(n):
            s = 0
            for i in range(k):
                if 0 <= j - i <= m and g >> (j - i) & 1:
                    s = s ^ int_of(u[i])
            ctx.check(vs[j] == s, "codeword is u(X) g(X)")
    ctx.eq(code.check(ctx.array([vs[-1]] + vs[:-1], "i")), [0] * m, "cyclic shifts of codewords are codewords")
    r = ctx.bits("r", n)
    s = code.check(r)
    z = True
    for j in range(m):
        t = 0
        for i in range(n):
            if pmod(1 << i, g) >> j & 1:
                t = t ^ int_of(r[i])
        z = (t == 0) & z
        ctx.check(s[j] == t, "syndrome is the remainder modulo g")
    ctx.check(allzero(ctx, s) == z, "zero syndrome iff multiple of g")


def part_of(f):
    return lambda ctx, code, g, syst: f(ctx, code)


def words_cyc(ctx, code):
    n, m = code.length, code.redundancy
    words(ctx, code, matrix=code.systematic)


CYC = {"matrices": part_of(matrices), "encode": part_of(encoding), "words": part_of(words_cyc), "multiples": multiples,
       "batches": part_of(PARTS["batches"])}
for n in (1, 2, 3, 4, 5, 6, 7, 9):
    for which in ("generator_polynomial", "check_polynomial"):
        P9.add(f"accept/{n}/{which[:3]}", accepted(n, which), bounds=f"every integer up to 2^{n + 1}+1 as polynomial, length {n}", cost=n)
P9.add("accept/none", missing, bounds="lengths 1..7")
for n in (3, 5, 6, 7, 9, 15):
    for syst in (True, False):
        for pn, part in CYC.items():
            P9.add(f"cyc{n}/{'sys' if syst else 'non'}/{pn}", over_divisors(n, syst, part),
                   bounds=f"every cyclic code of length {n}, all messages and words", cost=n * 2)
P9.add("cyc7/fromcheck", over_divisors(7, True, multiples, "check_polynomial"), bounds="every check polynomial, length 7", cost=9)
BIGCYC = [("golay23", 23, 0b101011100011), ("ham15", 15, 0b10011), ("bch15", 15, 0b111010001), ("simplex7", 7, 0b11101)]
for nm, n, g in BIGCYC:
    for syst in (True, False):
        for pn in ("encode", "words", "multiples", "matrices"):
            P9.add(f"{nm}/{'sys' if syst else 'non'}/{pn}", lambda ctx, code, p=CYC[pn], g=g, syst=syst: p(ctx, code, g, syst),
                   setup=lambda n=n, g=g, syst=syst: komm.CyclicCode(n, generator_polynomial=g, systematic=syst),
                   bounds=f"the ({n}) cyclic code with g={g:#b}, all messages and words", cost=6)


def cosets(n, upto):
    s = set()
    for i in range(1, upto + 1):
        for j in range(n):
            s.add(i * 2 ** j % n)
    return s


def bose(mu):
    n = 2 ** mu - 1

    def run(ctx):
        delta = ctx.int("delta", -1, n + 1)
        ok, code = ctx.attempt(ValueError, lambda: komm.BCHCode(mu, delta))
        good = [d for d in range(2, n + 1) if d % n not in cosets(n, d - 1)]
        ctx.check(ok == one_of(delta, good), "accepted iff it is a Bose distance")
        if ok:
            d = pick(delta, good)
            zeros = cosets(n, d - 1)
            ctx.check((code.length, code.redundancy, code.dimension) == (n, len(zeros), n - len(zeros)), "dimensions")
    return run


def bch_distance(ctx, code):
    k, n = code.dimension, code.length
    u = ctx.bits("u", k)
    ctx.assume(allzero(ctx, u) == False)  # noqa: E712
    v = code.encode(u)
    ctx.observe("v", v)
    ctx.check(weight(v) >= code.delta, "nonzero codewords weigh at least the designed distance")


def bch_light(w):
    """No word of weight w < delta is a codeword (positions as inputs)."""
    def run(ctx, code):
        n = code.length
        pos = [0] + [ctx.int(f"p{i}", 1, n - 1) for i in range(1, w)]
        for i in range(2, w):
            ctx.assume(pos[i - 1] < pos[i])
        r = ctx.array([sum(1 * (p == j) for p in pos) for j in range(n)], "i")
        ctx.check(allzero(ctx, code.check(r)) == False, "no light codewords")  # noqa: E712
    return run


def bch_syndromes(ctx, code):
    n = code.length
    r = ctx.bits("r", n)
    poly = komm.BinaryPolynomial.from_coefficients(r)
    syn = code.bch_syndrome(poly)
    ctx.check(len(syn) == code.delta - 1, "delta - 1 syndromes")
    z = True
    for s in syn:
        z = (s == code.field.zero) & z
    ctx.check(z == allzero(ctx, code.check(r)), "all syndromes vanish iff codeword")


def bch_monomial(ctx, code):
    """The syndromes of X^p are the powers of alpha^p."""
    n = code.length
    p = ctx.int("p", 0, n - 1)
    p = pick(p, range(n))
    syn = code.bch_syndrome(komm.BinaryPolynomial.from_exponents([p]))
    ctx.check(len(syn) == code.delta - 1, "delta - 1 syndromes")
    a, mod, x = 1, int(code.field.modulus), []
    for _ in range(n):
        x.append(a)
        a = pmod(a << 1, mod)
    ctx.check(a == 1 and len(set(x)) == n, "alpha is primitive")
    for i, s in enumerate(syn, 1):
        ctx.check(int(s.value) == x[i * p % n], "syndromes of a monomial are powers of alpha")


for mu in (2, 3, 4):
    P9.add(f"bch{mu}/accept", bose(mu), bounds=f"every designed distance in -1..{2 ** mu}, mu={mu}", cost=4 * mu)
P9.add("bch5/accept", bose(5), bounds="every designed distance in -1..32, mu=5", cost=40)
BCH = [(2, 3), (3, 3), (3, 7), (4, 3), (4, 5), (4, 7), (4, 15), (5, 5), (5, 7), (5, 11), (5, 15), (5, 31)]
for mu, d in BCH:
    P9.add(f"bch{mu}.{d}/distance", bch_distance, setup=lambda mu=mu, d=d: komm.BCHCode(mu, d),
           bounds=f"BCH({mu},{d}), all nonzero messages", cost=5 * mu, tier="thorough" if (mu, d) in ((5, 5), (5, 7)) else "quick")
    P9.add(f"bch{mu}.{d}/monomial", bch_monomial, setup=lambda mu=mu, d=d: komm.BCHCode(mu, d),
           bounds=f"BCH({mu},{d}), all single-position words", cost=mu)
    P9.add(f"bch{mu}.{d}/syndromes", bch_syndromes, setup=lambda mu=mu, d=d: komm.BCHCode(mu, d),
           bounds=f"BCH({mu},{d}), all words", cost=6 * mu, tier="quick" if mu < 5 else "thorough")
    if True:
        P9.add(f"bch{mu}.{d}/encode", encoding, setup=lambda mu=mu, d=d: komm.BCHCode(mu, d),
               bounds=f"BCH({mu},{d}), all messages", cost=mu)

# ------------------------------------------------------------------ C10
P10 = prop("C10")
P10.assumes += ["codes listed in the bounds; at most floor((d-1)/2) errors where correction is claimed"]


def flips(ctx, n, t):
    e = ctx.bits("e", n)
    ctx.assume(weight(e) <= t)
    return e


def corrects(ctx, dec, t):
    code = dec.code
    u = ctx.bits("u", code.dimension)
    e = flips(ctx, code.length, t)
    r = ctx.array(xor(code.encode(u), e), "i")
    got = dec.decode(r)
    ctx.observe("u", got)
    ctx.eq(got, u, "corrects up to t errors")


def nearest(ctx, dec):
    """The decoded message's codeword is as near as any other codeword."""
    code = dec.code
    r, w = ctx.bits("r", code.length), ctx.bits("w", code.dimension)
    got = dec.decode(r)
    ctx.observe("u", got)
    ctx.check(tuple(got.shape) == (code.dimension,), "length of the decoded message")
    ctx.check(weight(xor(code.encode(got), r)) <= weight(xor(code.encode(w), r)), "no codeword is nearer")


def decode_batch(ctx, dec):
    code = dec.code
    n, k = code.length, code.dimension
    r = ctx.bits("r", 3, n)
    one = [dec.decode(r[i]) for i in range(3)]
    ctx.eq(dec.decode(r), stack(ctx, one), "decode acts on rows")
    ctx.eq(dec.decode(r.reshape(3 * n)), ctx.array([x for v in one for x in v], "i"), "decode acts on consecutive blocks")
    if n > 1:
        ctx.check(ctx.raises(ValueError, lambda: dec.decode(ctx.bits("bad", n + 1))), "partial words are refused")


def kept(ctx, dec):
    """Decoding leaves the received word as it was."""
    r = ctx.bits("r", dec.code.length)
    s = r.copy()
    dec.decode(r)
    ctx.eq(r, s, "the received word is not modified")


def fam(*names):
    return [x for x in FAMILIES if x[0] in names]


def t_of(code):
    return (code.minimum_distance() - 1) // 2


TABLE = fam("hamming2", "hamming3", "hamming3x", "hamming4", "simplex3", "simplex2x", "simplex3x", "golay", "rep3", "rep4", "rep5", "spc4", "cw5",
            "cw6", "cw7", "lex5.3", "lex7.3", "lex8.4", "rm1.3", "rm0.3", "polar3", "polar2b", "rm2.4")
SMALL = [x for x in TABLE if x[0] not in ("golay", "hamming4", "rm2.4")]
for name, make in TABLE:
    D = lambda make=make: komm.SyndromeTableDecoder(make())
    P10.add(f"table/{name}/corrects", lambda ctx, dec: corrects(ctx, dec, t_of(dec.code)), setup=D, bounds=f"{name}: all messages, all patterns of up to t errors", cost=6)
    P10.add(f"table/{name}/nearest", nearest, setup=D, bounds=f"{name}: all words", cost=6,
            tier="thorough" if name in ("hamming4", "rm2.4") else "quick") if name != "golay" else None
    if name in ("hamming3", "simplex2x", "rep3", "cw5", "polar3"):
        P10.add(f"table/{name}/batch", decode_batch, setup=D, bounds=f"{name}: three words", cost=3)
        P10.add(f"table/{name}/kept", kept, setup=D, bounds=f"{name}: all words", cost=3)
for name, make in SMALL:
    X = lambda make=make: komm.ExhaustiveSearchDecoder(make(), input_type="hard")
    P10.add(f"exh/{name}/corrects", lambda ctx, dec: corrects(ctx, dec, t_of(dec.code)), setup=X, bounds=f"{name}: all messages, all patterns of up to t errors", cost=6)
    P10.add(f"exh/{name}/nearest", nearest, setup=X, bounds=f"{name}: all words", cost=6)
    if name in ("hamming3", "rep3", "cw5", "polar3"):
        P10.add(f"exh/{name}/batch", decode_batch, setup=X, bounds=f"{name}: three words", cost=3)
        P10.add(f"exh/{name}/kept", kept, setup=X, bounds=f"{name}: all words", cost=3)
for r, m in ((0, 1), (0, 2), (1, 2), (0, 3), (1, 3), (2, 3), (0, 4), (1, 4), (2, 4), (3, 4)):
    R = lambda r=r, m=m: komm.ReedDecoder(komm.ReedMullerCode(r, m), input_type="hard")
    P10.add(f"reed/{r}.{m}/corrects", lambda ctx, dec: corrects(ctx, dec, t_of(dec.code)), setup=R, bounds=f"RM({r},{m}): all messages, all patterns of up to t errors", cost=4)
    if m < 4:
        P10.add(f"reed/{r}.{m}/batch", decode_batch, setup=R, bounds=f"RM({r},{m}): three words", cost=4)
        P10.add(f"reed/{r}.{m}/kept", kept, setup=R, bounds=f"RM({r},{m}): all words", cost=4)

def gf2_solve(A, b):
    """Solutions of A x = b over GF(2): (particular, kernel basis), or None."""
    m, n = len(A), len(A[0])
    M = [list(map(int, row)) + [int(y)] for row, y in zip(A, b)]
    piv, i = [], 0
    for j in range(n):
        k = next((k for k in range(i, m) if M[k][j]), None)
        if k is None:
            continue
        M[i], M[k] = M[k], M[i]
        for k in range(m):
            if k != i and M[k][j]:
                M[k] = [x ^ y for x, y in zip(M[k], M[i])]
        piv.append(j)
        i += 1
    if any(M[k][n] for k in range(i, m)):
        return None
    x = [0] * n
    for k, j in enumerate(piv):
        x[j] = M[k][n]
    kernel = []
    for f in range(n):
        if f not in piv:
            v = [0] * n
            v[f] = 1
            for k, j in enumerate(piv):
                v[j] = M[k][f]
            kernel.append(v)
    return x, kernel


def berlekamp(mu, delta, w, first):
    """Exactly w errors, the first one at position first.  The messages are split by
    the degree of the received polynomial; each part is an affine space."""
    n = 2 ** mu - 1

    def run(ctx, dec):
        code = dec.code
        G = np.asarray(code.generator_matrix, dtype=int)
        k = code.dimension
        e = [0] * n
        if w:
            f = ctx.bits("e", n - first - 1)
            ctx.assume(weight(f) == w - 1)
            e = [0] * first + [1] + [int(x) for x in ctx.fixed(f)]
        d = ctx.fix(ctx.int("deg", -1 if w == 0 else 0, n - 1))
        rows = [list(G[:, j]) for j in range(n) if j >= d]
        rhs = [e[j] ^ (1 if j == d else 0) for j in range(n) if j >= d]
        sol = gf2_solve(rows, rhs)
        ctx.assume(sol is not None)
        u0, kernel = sol
        z = ctx.bits("z", k)
        u = []
        for i in range(k):
            x = u0[i]
            for v, y in zip(kernel, z):
                x = x ^ (v[i] & y)
            u.append(x)
        for y in z[len(kernel):]:
            ctx.assume(y == 0)
        u = ctx.array(u, "i")
        got = dec.decode(ctx.array(xor(code.encode(u), e), "i"))
        ctx.observe("u", got)
        ctx.eq(got, u, "corrects up to t errors")
    return run


for mu, d in ((2, 3), (3, 3), (3, 7), (4, 3), (4, 5), (4, 7)):
    for w in range((d - 1) // 2 + 1):
        for first in range(2 ** mu - w) if w else (0,):
            P10.add(f"berlekamp/{mu}.{d}/{w}/{first}", berlekamp(mu, d, w, first), setup=lambda mu=mu, d=d: komm.BerlekampDecoder(komm.BCHCode(mu, d)),
                    bounds=f"BCH({mu},{d}): all messages, all patterns of {w} errors with the first at {first}", cost=4 * w, tier="thorough" if mu == 4 and (w == 3 or w == 2 and first not in (9, 12)) else "quick")
for nm, D in (("berlekamp", lambda: komm.BerlekampDecoder(komm.BCHCode(3, 3))),):
    P10.add(f"{nm}/kept", kept, setup=D, bounds="BCH(3,3), all words", cost=4)
    P10.add(f"{nm}/batch", decode_batch, setup=lambda: komm.BerlekampDecoder(komm.BCHCode(2, 3)), bounds="BCH(2,3), three words", cost=4)

# ------------------------------------------------------------------ C11
P11 = prop("C11")
P11.assumes += ["codes listed in the bounds; real arithmetic in place of floating point"]


def corr(code, u, r):
    s = 0
    for x, y in zip(code.encode(u), r):
        s = s + y * (1 - 2 * int_of(x))
    return s


def soft_ml(ctx, dec):
    code = dec.code
    n, k = code.length, code.dimension
    r = ctx.reals("r", n, lo=-8, hi=8)
    got = dec.decode(r)
    ctx.check(tuple(got.shape) == (k,), "length of the decoded message")
    best = corr(code, got, r)
    for w in itertools.product([0, 1], repeat=k):
        ctx.check(corr(code, np.array(w, dtype=int), r) <= best, "no codeword correlates better")


def soft_sign(ctx, dec, fix=False):
    """Samples whose signs spell a codeword are decoded to it, whatever the magnitudes."""
    code = dec.code
    n, k = code.length, code.dimension
    u = ctx.bits("u", k)
    if fix:
        u = ctx.fixed(u)
    a = ctx.reals("a", n, lo=2 ** -20, hi=8)
    v = code.encode(u)
    r = ctx.array([x * (1 - 2 * int_of(b)) for x, b in zip(a, v)], "f")
    got = dec.decode(r)
    ctx.eq(got, u, "noiseless samples are decoded exactly")


def soft_errors(t):
    """Equal magnitudes: like hard decisions; t errors are corrected."""
    def run(ctx, dec):
        code = dec.code
        n, k = code.length, code.dimension
        u, e = ctx.bits("u", k), flips(ctx, n, t)
        v = code.encode(u)
        r = ctx.array([3 * (1 - 2 * (int_of(b) ^ int_of(x))) for x, b in zip(e, v)], "f")
        got = dec.decode(r)
        ctx.observe("u", got)
        ctx.eq(got, u, "corrects up to t errors of equal magnitude")
    return run


def soft_weak(t):
    """t errors, each no stronger than any correct sample."""
    def run(ctx, dec):
        code = dec.code
        n, k = code.length, code.dimension
        u, e = ctx.fixed(ctx.bits("u", k)), ctx.fixed(flips(ctx, n, t))
        v = code.encode(u)
        a = ctx.reals("a", n, lo=2 ** -20, hi=8)
        for i in range(n):
            for j in range(n):
                if i != j:
                    ctx.assume((e[i] == 0) | (e[j] == 1) | (a[i] <= a[j]))
        r = ctx.array([x * (1 - 2 * (int_of(b) ^ int_of(f))) for x, b, f in zip(a, v, e)], "f")
        ctx.eq(dec.decode(r), u, "corrects up to t weak errors")
    return run


def soft_batch(ctx, dec):
    code = dec.code
    n = code.length
    r = ctx.ints("r", 2 * n, -2, 2).reshape(2, n) * 1.0
    one = [dec.decode(r[i]) for i in range(2)]
    ctx.eq(dec.decode(r), stack(ctx, one), "decode acts on rows")
    ctx.eq(dec.decode(r.reshape(2 * n)), ctx.array([x for v in one for x in v], "i"), "decode acts on consecutive blocks")


def soft_kept(ctx, dec):
    r = ctx.reals("r", dec.code.length, lo=-8, hi=8)
    s = r.copy()
    dec.decode(r)
    ctx.eq(r, s, "the received samples are not modified")


for name, make in fam("hamming2", "hamming3", "simplex2", "simplex3", "rep3", "spc3", "spc4", "cw5", "lex5.3", "rm1.3", "polar2"):
    X = lambda make=make: komm.ExhaustiveSearchDecoder(make(), input_type="soft")
    P11.add(f"exh/{name}/ml", soft_ml, setup=X, bounds=f"{name}: all real samples in [-8,8]", cost=6)
    P11.add(f"exh/{name}/kept", soft_kept, setup=X, bounds=f"{name}: all real samples in [-8,8]", cost=3)
    P11.add(f"exh/{name}/sign", soft_sign, setup=X, bounds=f"{name}: all messages and magnitudes from 2**-20 to 8", cost=6)
    if name in ("hamming2", "spc3", "polar2"):
        P11.add(f"exh/{name}/batch", soft_batch, setup=X, bounds=f"{name}: two words with samples in -2..2", cost=6)
for n in (2, 3, 4, 5, 6, 8):
    W = lambda n=n: komm.WagnerDecoder(komm.SingleParityCheckCode(n))
    P11.add(f"wagner/{n}/ml", soft_ml, setup=W, bounds=f"length {n}: all real samples in [-8,8]", cost=n, tier="quick" if n < 6 else "thorough")
    P11.add(f"wagner/{n}/sign", soft_sign, setup=W, bounds=f"length {n}: all messages, magnitudes from 2**-20 to 8", cost=n)
    if n < 5:
        P11.add(f"wagner/{n}/batch", soft_batch, setup=W, bounds=f"length {n}: two words with samples in -2..2", cost=n)
        P11.add(f"wagner/{n}/kept", soft_kept, setup=W, bounds=f"length {n}: all samples", cost=n)
for r, m in ((0, 2), (1, 2), (0, 3), (1, 3), (2, 3), (1, 4), (2, 4)):
    R = lambda r=r, m=m: komm.ReedDecoder(komm.ReedMullerCode(r, m), input_type="soft")
    t = 2 ** (m - r - 1) - (1 if m - r >= 1 else 0)
    t = (2 ** (m - r) - 1) // 2
    P11.add(f"reed/{r}.{m}/sign", soft_sign if m < 4 else lambda ctx, dec: soft_sign(ctx, dec, True), setup=R, bounds=f"RM({r},{m}): all messages, magnitudes from 2**-20 to 8", cost=6,
            tier="thorough" if (r, m) == (2, 4) else "quick")
    P11.add(f"reed/{r}.{m}/equal", soft_errors(t), setup=R, bounds=f"RM({r},{m}): all messages, up to {t} errors", cost=6)
    if t and m < 4 and (r, m) != (1, 3):
        P11.add(f"reed/{r}.{m}/weak", soft_weak(t), setup=R, bounds=f"RM({r},{m}): all messages, up to {t} errors on least reliable samples", cost=6)
    if m < 3:
        P11.add(f"reed/{r}.{m}/batch", soft_batch, setup=R, bounds=f"RM({r},{m}): two words with samples in -2..2", cost=4)
    if m < 4:
        P11.add(f"reed/{r}.{m}/kept", soft_kept, setup=R, bounds=f"RM({r},{m}): all samples", cost=4)


# ------------------------------------------------------------------ C12
P12 = prop("C12")
P12.assumes += ["sample magnitudes between 1/8 and 8 (or 2 to 8 where samples are added up)", "log(1+exp) is represented by its bounds on value and slope"]


def frozen_sets(mu, sizes):
    return [f for r in sizes for f in itertools.combinations(range(2 ** mu), r)]


def sc_clean(mu, frozen, output_type, hi=8):
    """Samples whose signs spell a codeword, of any magnitudes."""
    def setup():
        code = komm.PolarCode(mu, list(frozen))
        return code, komm.SCDecoder(code, output_type=output_type)

    def run(ctx, code, dec):
        ctx.settle_signs()
        n, k = code.length, code.dimension
        u = ctx.fixed([ctx.bit(f"u{i}") for i in range(k)])
        c = code.encode(u)
        y = [ctx.real(f"m{i}", 0.125, hi) for i in range(n)]
        y = ctx.array([-m if b else m for b, m in zip(c, y)], "f")
        out = dec.decode(y)
        ctx.check(out.shape == (k,), "one value per message bit")
        for b, x in zip(u, out):
            if output_type == "hard":
                ctx.check(x == int(b), "message recovered")
            else:
                ctx.check((x < 0) if b else (x > 0), "soft outputs have the sign of the message bits")
    return setup, run


def sc_steps(mu, frozen, output_type):
    """Samples of any signs: successive cancellation as defined, one bit after another."""
    from komm import boxplus

    def setup():
        code = komm.PolarCode(mu, list(frozen))
        return code, komm.SCDecoder(code, output_type=output_type)

    def run(ctx, code, dec):
        ctx.settle_signs()
        y = ctx.reals("y", code.length, lo=-8, hi=8)
        for v in y:
            ctx.assume((v >= 0.125) | (v <= -0.125))
        out = dec.decode(y)
        want = []

        def rec(l, i):
            if len(l) == 1:
                if i in frozen:
                    return [0]
                want.append(l[0])
                return [1 if l[0] < 0 else 0]
            h = len(l) // 2
            a = rec(list(boxplus(ctx.array(l[:h], "f"), ctx.array(l[h:], "f"))), 2 * i)
            b = rec([q - p if x else q + p for x, p, q in zip(a, l[:h], l[h:])], 2 * i + 1)
            return [x ^ z for x, z in zip(a, b)] + b
        rec(list(y), 0)
        for x, w in zip(out, want):
            if output_type == "hard":
                ctx.check(x == (1 if w < 0 else 0), "each bit decided from the belief given the bits before it, frozen ones zero")
            else:
                ctx.check(x == w, "each soft output is the belief given the bits before it, frozen ones zero")
    return setup, run


def sc_batch(mu, frozen):
    """Two words at once."""
    def setup():
        code = komm.PolarCode(mu, list(frozen))
        return code, komm.SCDecoder(code, output_type="hard")

    def run(ctx, code, dec):
        ctx.settle_signs()
        n, k = code.length, code.dimension
        u = ctx.fixed([ctx.bit(f"u{i}") for i in range(2 * k)])
        y = [ctx.real(f"m{i}", 0.125, 8) for i in range(2 * n)]
        y = ctx.array([-m if b else m for b, m in zip(code.encode(u), y)], "f")
        ctx.eq(dec.decode(y), u, "blocks in sequence")
        r = dec.decode(y.reshape((2, n)))
        ctx.eq(r, u.reshape((2, k)), "rows in parallel")
        ctx.check(ctx.raises(ValueError, lambda: dec.decode(y[:-1])), "partial words are refused")
    return setup, run


def boxplus_laws(ctx):
    a, b = ctx.real("a", -8, 8), ctx.real("b", -8, 8)
    x = ctx.array([a, b], "f")
    r, s = komm.boxplus(x[:1], x[1:]), komm.boxplus(x[1:], x[:1])
    r, s = r[0], s[0]
    ctx.check(r == s, "commutative")
    ctx.check(((r > 0) == ((a > 0) & (b > 0) | (a < 0) & (b < 0))), "positive iff the signs agree")
    ctx.check(((r < 0) == ((a > 0) & (b < 0) | (a < 0) & (b > 0))), "negative iff the signs differ")
    ctx.check((abs(r) <= abs(a)) & (abs(r) <= abs(b)), "no more reliable than either")
    t = komm.boxplus(-x[:1], x[1:])[0]
    ctx.check(t == -r, "odd")


P12.add("boxplus", boxplus_laws, bounds="all pairs of reals in [-8,8]")
for mu, sizes, types, tier in [(1, (0, 1), ("hard", "soft"), "quick"), (2, (1, 2, 3), ("hard",), "quick"), (2, (2,), ("soft",), "quick")]:
    for f in frozen_sets(mu, sizes):
        for t in types:
            setup, run = sc_clean(mu, f, t)
            P12.add(f"clean/{mu}/{'.'.join(map(str, f)) or '-'}/{t}", run, setup=setup, bounds=f"polar code mu={mu}, frozen {f}: all messages, all magnitudes in [1/8,8]", tier=tier)
for f, tier in [((0, 1, 2, 3, 4, 5), "quick"), ((0, 1, 2, 3, 4, 6), "quick"), ((0, 1, 2, 4, 5, 6), "thorough"), ((0, 1, 4, 5, 6, 7), "thorough")]:
    setup, run = sc_clean(3, f, "hard")
    P12.add(f"clean/3/{'.'.join(map(str, f))}", run, setup=setup, bounds=f"polar code mu=3, frozen {f}: all messages, all magnitudes in [1/8,8]", tier=tier, limit=3600)
for mu, f, t, tier in [(1, (0,), "soft", "quick"), (1, (1,), "soft", "quick"), (1, (), "soft", "quick"), (2, (0, 1), "soft", "quick"), (2, (1, 2), "hard", "quick"),
                       (2, (0, 1, 2), "soft", "quick"), (2, (0, 2, 3), "hard", "quick"), (2, (0, 1, 3), "soft", "quick")]:
    setup, run = sc_steps(mu, f, t)
    P12.add(f"steps/{mu}/{'.'.join(map(str, f)) or '-'}/{t}", run, setup=setup, bounds=f"polar code mu={mu}, frozen {f}: all samples with magnitudes in [1/8,8]", tier=tier, query_ms=4000)
setup, run = sc_batch(2, (0, 1))
P12.add("batch/2/0.1", run, setup=setup, bounds="polar code mu=2, frozen (0,1): all pairs of messages, all magnitudes in [1/8,8]")
