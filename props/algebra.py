"""C01-C05: binary polynomials, irreducibility, finite fields, rational functions,
bit/integer conversion."""
import numpy as np

import komm
from komm import BinaryPolynomial as BP
from komm import BinaryPolynomialFraction as Frac
from komm import FiniteBifield
from symex.reg import prop

# ------------------------------------------------------------------ C01
P = prop("C01")
P.assumes += ["coefficient vectors are given in ascending order of degree"]


def poly(ctx, name, w):
    return BP(ctx.int(name, 0, 2 ** w - 1))


def bit(v, i):
    return (v >> i) & 1


def int_multiples(ctx):
    n = ctx.int("n", -40, 40)
    odd = n % 2 == 1
    p = poly(ctx, "p", 5)
    ctx.check((n * p).value == p.value * (1 * odd), "n p is p or 0")
    F = FiniteBifield(3)
    x = F(ctx.int("x", 0, 7))
    ctx.check((n * x).value.value == x.value.value * (1 * odd), "n x is x or 0")
    f = Frac(ctx.int("f", 0, 7), ctx.int("g", 1, 7))
    g = n * f
    if odd:
        ctx.check(g == f, "n f is f")
    else:
        ctx.check(g == Frac(0, 1), "n f is 0")


def mul_spec(ctx, a, b, w):
    """bit k of the product is the parity of the a_i b_(k-i)."""
    p = (a * b).value
    for k in range(2 * w - 1):
        s = 0
        for i in range(max(0, k - w + 1), min(k, w - 1) + 1):
            s = s ^ (bit(a.value, i) & bit(b.value, k - i))
        ctx.check(bit(p, k) == s, "coefficient of a product")
    ctx.check(p >> (2 * w - 1) == 0, "product has no higher terms")


def ring(w):
    def run(ctx):
        a, b, c = poly(ctx, "a", w), poly(ctx, "b", w), poly(ctx, "c", w)
        mul_spec(ctx, a, b, w)
        ctx.observe("ab", a * b)
        s = a + b
        for i in range(w):
            ctx.check(bit(s.value, i) == bit(a.value, i) ^ bit(b.value, i), "coefficient of a sum")
        ctx.check(a + b == b + a, "sum commutes")
        ctx.check(a - b == a + b, "difference is the sum")
        ctx.check(-a == a, "negation")
        ctx.check(a + a == 0, "characteristic 2")
        ctx.check(a * b == b * a, "product commutes")
        ctx.check(a * (b + c) == a * b + a * c, "distributive")
        ctx.check(a * BP(1) == a, "one")
        ctx.check(a * BP(0) == BP(0), "zero")
        ctx.check(0 * a == BP(0), "0*a")
        ctx.check(1 * a == a, "1*a")
        ctx.check(2 * a == BP(0), "2*a")
        ctx.check(3 * a == a, "3*a")
        ctx.check((-1) * a == a, "-1*a")
        for n in (0, 1, 3):
            ctx.check(a << n == a * BP(2 ** n), "shift left is multiplication by X^n")
            ctx.check(a >> n == a // BP(2 ** n), "shift right is division by X^n")
        ctx.check((a == b) == (a.value == b.value), "equality is equality of coefficients")
        ctx.check(a == a.value, "equality with int")
        ctx.check(int(a) == a.value, "int()")
        if a.value != 0 and b.value != 0:
            ctx.check((a * b).degree == a.degree + b.degree, "degree of a product")
    return run


def hashing(ctx):
    a = poly(ctx, "a", 5)
    ctx.check(hash(a) == hash(BP(a.value)), "hash agrees with equality")
    ctx.check(len({a, BP(a.value), a + BP(1)}) == 2, "sets identify equal polynomials")


def assoc(w):
    def run(ctx):
        a, b, c = poly(ctx, "a", w), poly(ctx, "b", w), poly(ctx, "c", w)
        ctx.check((a * b) * c == a * (b * c), "product is associative")
    return run


def divmod_laws(w):
    def run(ctx):
        a, b = poly(ctx, "a", w), poly(ctx, "b", w)
        ctx.assume(b.value != 0)
        q, r = divmod(a, b)
        ctx.observe("q", q)
        ctx.observe("r", r)
        ctx.check(q * b + r == a, "q*b+r==a")
        ctx.check(r.degree < b.degree, "deg r < deg b")
        ctx.check(a // b == q, "floordiv")
        ctx.check(a % b == r, "mod")
    return run


def div_zero(ctx):
    a = poly(ctx, "a", 6)
    ctx.check(ctx.raises(ZeroDivisionError, lambda: divmod(a, BP(0))), "division by zero is refused")
    ctx.check(ctx.raises(ZeroDivisionError, lambda: a % BP(0)), "remainder by zero is refused")
    ctx.check(ctx.raises(ZeroDivisionError, lambda: a // BP(0)), "quotient by zero is refused")


def gcd_laws(w):
    def run(ctx):
        a, b, d = poly(ctx, "a", w), poly(ctx, "b", w), poly(ctx, "d", w)
        ctx.assume(a.value != 0)
        g = BP.gcd(a, b)
        ctx.observe("g", g)
        ctx.check(a % g == 0, "gcd divides a")
        ctx.check(b % g == 0, "gcd divides b")
        h, s, t = BP.xgcd(a, b)
        ctx.check(h == g, "xgcd agrees with gcd")
        ctx.check(s * a + t * b == g, "Bezout identity")
        ctx.check(BP.gcd(b, a) == g, "gcd commutes")
        if d.value != 0:
            both = (a % d == 0) & (b % d == 0)
            ctx.check((g % d == 0) | ~both if ctx.symbolic else (g % d == 0 or not both), "common divisors divide gcd")
    return run


def xgcd_only(w):
    def run(ctx):
        a, b = poly(ctx, "a", w), poly(ctx, "b", w)
        h, s, t = BP.xgcd(a, b)
        ctx.observe("h", h)
        ctx.check(s * a + t * b == h, "Bezout identity")
        if h.value != 0:
            ctx.check(a % h == 0, "gcd divides a")
            ctx.check(b % h == 0, "gcd divides b")
        else:
            ctx.check(a == 0, "gcd zero only for zero")
            ctx.check(b == 0, "gcd zero only for zero")
    return run


def lcm2(w):
    def run(ctx):
        a, b = poly(ctx, "a", w), poly(ctx, "b", w)
        ctx.assume(a.value != 0)
        ctx.assume(b.value != 0)
        m = BP.lcm(a, b)
        ctx.observe("m", m)
        ctx.check(m % a == 0, "lcm is a multiple")
        ctx.check(m % b == 0, "lcm is a multiple")
        ctx.check(m * BP.gcd(a, b) == a * b, "lcm * gcd == product")
    return run


def many(w):
    """gcd and lcm of three polynomials."""
    def run(ctx):
        a, b, c = poly(ctx, "a", w), poly(ctx, "b", w), poly(ctx, "c", w)
        for p in (a, b, c):
            ctx.assume(p.value != 0)
        g = BP.gcd(a, b, c)
        m = BP.lcm(a, b, c)
        ctx.observe("g", g)
        ctx.observe("m", m)
        ctx.check(g == BP.gcd(a, BP.gcd(b, c)), "gcd of three")
        for p in (a, b, c):
            ctx.check(m % p == 0, "lcm of three is a multiple")
            ctx.check(p % g == 0, "gcd of three divides")
        ab = a * b // BP.gcd(a, b)
        # listed finding: the product divided by the gcd of all three is returned
        ctx.check_known(m == ab * c // BP.gcd(ab, c), "lcm of three is the least", "lcm-of-three",
                        m == a * b * c // g)
    return run


def power(w, top):
    def run(ctx):
        a = poly(ctx, "a", w)
        want = BP(1)
        for n in range(top + 1):
            ctx.check(a ** n == want, "power is repeated product")
            want = want * a
        ctx.check(ctx.raises(ValueError, lambda: a ** -1), "negative powers are refused")
        ctx.observe("sq", a ** 2)
    return run


def views(w):
    def run(ctx):
        a = poly(ctx, "a", w)
        c = a.coefficients(width=w + 2)
        ctx.eq(c, [bit(a.value, i) for i in range(w + 2)], "coefficients, ascending")
        ctx.check(BP.from_coefficients(c) == a, "coefficients round trip")
        v = ctx.bits("c", w)
        p = BP.from_coefficients(v)
        ctx.eq(p.coefficients(width=w), v, "from coefficients")
        ctx.observe("p", p)
        r = a.reciprocal(width=w)
        for i in range(w):
            ctx.check(bit(r.value, i) == bit(a.value, w - 1 - i), "reciprocal reverses the coefficients")
        ctx.check(r.reciprocal(width=w) == a, "reciprocal twice")
        if a.value != 0:
            d = a.degree
            ctx.check(a.value >> d == 1, "degree is the top exponent")
    return run


def views2(w):
    def run(ctx):
        a = poly(ctx, "a", w)
        ex = a.exponents()
        ctx.check(BP.from_exponents(ex) == a, "exponents round trip")
        for e in range(w):
            ctx.check((e in list(ex)) == (bit(a.value, e) == 1), "exponents are the set bits")
        c = a.coefficients()
        ctx.check(len(c) == max(a.degree + 1, 1), "default width")
        ctx.check(BP.from_coefficients(c) == a, "coefficients round trip")
        r = a.reciprocal()
        ctx.check(r == BP.from_coefficients(list(c)[::-1]), "reciprocal at default width")
        ctx.observe("c", c)
    return run


def evaluate(w):
    def run(ctx):
        a, b, x = poly(ctx, "a", w), poly(ctx, "b", w), poly(ctx, "x", 3)
        want = BP(0)
        xp = BP(1)
        for i in range(w):
            want = want + bit(a.value, i) * xp
            xp = xp * x
        got = a.evaluate(x)
        ctx.observe("got", got)
        ctx.check(got == want, "evaluate is the sum of the powers")
        ctx.check(a.evaluate(BP(2)) == a, "evaluate at X")
    return run


def eval_int(w):
    def run(ctx):
        a = poly(ctx, "a", w)
        x = ctx.int("x", -4, 4)
        got = a.evaluate(komm.Integer(x))
        want = 0
        xp = 1
        for i in range(w):
            want = want + bit(a.value, i) * xp
            xp = xp * x
        ctx.observe("got", got)
        ctx.check(got == komm.Integer(want), "evaluate at an integer")
    return run


def eval_field(m, w):
    def run(ctx):
        F = FiniteBifield(m)
        a, b = poly(ctx, "a", w), poly(ctx, "b", w)
        x = F(ctx.int("x", 0, 2 ** m - 1))
        ctx.check((a + b).evaluate(x) == a.evaluate(x) + b.evaluate(x), "evaluate is additive")
        ctx.check((a * b).evaluate(x) == a.evaluate(x) * b.evaluate(x), "evaluate is multiplicative")
        want = F(0)
        xp = F(1)
        for i in range(w):
            want = want + bit(a.value, i) * xp
            xp = xp * x
        ctx.check(a.evaluate(x) == want, "evaluate in a field")
    return run


def eval_frac(ctx):
    a = poly(ctx, "a", 3)
    x = Frac(ctx.int("n", 0, 3), ctx.int("d", 1, 3))
    want = Frac(0)
    xp = Frac(1)
    for i in range(3):
        want = want + bit(a.value, i) * xp
        xp = xp * x
    ctx.check(a.evaluate(x) == want, "evaluate at a rational function")


def integers(ctx):
    a, b = ctx.int("a", -20, 20), ctx.int("b", -20, 20)
    x, y = komm.Integer(a), komm.Integer(b)
    ctx.check(x + y == komm.Integer(a + b), "integer sum")
    ctx.check(x - y == komm.Integer(a - b), "integer difference")
    ctx.check(-x == komm.Integer(-a), "integer negation")
    ctx.check(x * y == komm.Integer(a * b), "integer product")
    ctx.check(3 * x == komm.Integer(3 * a), "integer multiple")
    ctx.check((x == y) == (a == b), "integer equality")
    if b != 0:
        q, r = divmod(x, y)
        ctx.check(q * y + r == x, "integer division")
        ctx.check(x // y == q, "integer quotient")
        ctx.check(x % y == r, "integer remainder")
        if b > 0:
            ctx.check(0 <= r.value, "integer remainder range")
            ctx.check(r.value < b, "integer remainder range")


for w in (4, 8):
    P.add(f"ring/{w}", ring(w), bounds=f"all triples of polynomials of degree < {w}", cost=w)
P.add("ring/16", ring(16), bounds="all triples of polynomials of degree < 16", tier="thorough", cost=50)
P.add("assoc/4", assoc(4), bounds="all triples of polynomials of degree < 4", cost=4)
P.add("assoc/6", assoc(6), bounds="all triples of polynomials of degree < 6", cost=60, tier="thorough")
for w in (4, 6, 8):
    P.add(f"divmod/{w}", divmod_laws(w), bounds=f"all pairs of polynomials of degree < {w}, divisor nonzero", cost=w)
P.add("divmod/12", divmod_laws(12), bounds="all pairs of polynomials of degree < 12", tier="thorough", cost=40)
P.add("hash", hashing, bounds="all polynomials of degree < 5")
P.add("multiples", int_multiples, bounds="all integers in -40..40 times all polynomials, field elements of GF(8) and fractions with terms of degree < 3")
P.add("divzero", div_zero, bounds="all polynomials of degree < 6")
for w in (4,):
    P.add(f"gcd/{w}", gcd_laws(w), bounds=f"all triples of polynomials of degree < {w}", cost=8)
P.add("gcd/5", gcd_laws(5), bounds="all triples of polynomials of degree < 5", cost=40, tier="thorough")
P.add("xgcd/5", xgcd_only(5), bounds="all pairs of polynomials of degree < 5", cost=10)
P.add("lcm/4", lcm2(4), bounds="all pairs of nonzero polynomials of degree < 4", cost=5)
P.add("lcm/5", lcm2(5), bounds="all pairs of nonzero polynomials of degree < 5", cost=15)
P.add("gcdlcm3/3", many(3), bounds="all triples of nonzero polynomials of degree < 3", cost=10)
P.add("gcdlcm3/4", many(4), bounds="all triples of nonzero polynomials of degree < 4", cost=50, tier="thorough")
P.add("pow/4", power(4, 7), bounds="all polynomials of degree < 4, exponents 0..7", cost=4)
P.add("views/8", views(8), bounds="all polynomials and coefficient vectors of degree < 8", cost=2)
P.add("views2/6", views2(6), bounds="all polynomials of degree < 6", cost=2)
P.add("eval/4", evaluate(4), bounds="all polynomials of degree < 4 at all polynomials of degree < 3", cost=3)
P.add("evalint/5", eval_int(5), bounds="all polynomials of degree < 5 at the integers -4..4", cost=3)
P.add("evalfield/3", eval_field(3, 4), bounds="all polynomials of degree < 4 at all elements of GF(8)", cost=3)
P.add("evalfield/4", eval_field(4, 4), bounds="all polynomials of degree < 4 at all elements of GF(16)", cost=5, tier="thorough")
P.add("evalfrac", eval_frac, bounds="all polynomials of degree < 3 at all fractions with terms of degree < 2", cost=5)
P.add("integers", integers, bounds="all pairs in -20..20", cost=1)

# ------------------------------------------------------------------ C02
P2 = prop("C02")


def irreducible(D):
    def run(ctx):
        p = BP((1 << D) | ctx.int("low", 0, 2 ** D - 1))
        got = p.is_irreducible()
        ctx.observe("irr", got)
        has = False
        for d in range(2, 1 << (D // 2 + 1)):
            has = (p % BP(d) == 0) | has
        ctx.check(got == (has == False), "irreducible iff no proper divisor")  # noqa: E712
    return run


def primitive(D):
    def run(ctx):
        p = BP((1 << D) | ctx.int("low", 0, 2 ** D - 1))
        got = p.is_primitive()
        ctx.observe("prim", got)
        # multiplicative order of X modulo p, by shifting
        v, early = 1, False
        for k in range(1, 2 ** D):
            v = v << 1
            v = v ^ (bit(v, D) * p.value)
            if k < 2 ** D - 1:
                early = (v == 1) | early
        full = (v == 1) & (early == False)  # noqa: E712
        ctx.check(got == full, "primitive iff the order of X is maximal")
    return run


def small_degree(ctx):
    p = BP(ctx.int("p", 0, 3))
    want = (p.value == 2) | (p.value == 3)
    ctx.check(p.is_irreducible() == want, "degree at most one")
    ctx.check(p.is_primitive() == (p.value == 3), "primitive of degree at most one")


def prime_product(a_deg, b_deg):
    def run(ctx):
        a = BP((1 << a_deg) | ctx.int("a", 0, 2 ** a_deg - 1))
        b = BP((1 << b_deg) | ctx.int("b", 0, 2 ** b_deg - 1))
        ctx.check((a * b).is_irreducible() == False, "a product is reducible")  # noqa: E712
        ctx.check((a * b).is_primitive() == False, "a product is not primitive")  # noqa: E712
    return run


def gf2_mod(v, p):
    d = p.bit_length()
    while v.bit_length() >= d:
        v ^= p << (v.bit_length() - d)
    return v


def gf2_mul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a, b = a << 1, b >> 1
    return r


def prime_divisors(n):
    return [q for q in range(2, n + 1) if n % q == 0 and all(q % r for r in range(2, q))]


def minimal_of(e, p):
    """The minimal polynomial of x^e modulo the primitive polynomial p."""
    m = p.bit_length() - 1

    def times(a, b):
        return gf2_mod(gf2_mul(a, b), p)
    y = 1
    for _ in range(e):
        y = times(y, 2)
    conj, z = [], y
    while z not in conj:
        conj.append(z)
        z = times(z, z)
    c = [1]
    for z in conj:
        c = [(c[i - 1] if i else 0) ^ (times(z, c[i]) if i < len(c) else 0) for i in range(len(c) + 1)]
    assert all(v < 2 for v in c)
    return sum(v << i for i, v in enumerate(c)), len(conj) == m


PRIM = {8: 0b100011101, 9: 0b1000010001, 10: 0b10000001001, 11: 0b100000000101, 12: 0b1000001010011, 14: 0b100010001000011}


def chosen(ctx, D, n):
    """A row of a table: kept symbolic while the polynomials are small, split into cases above degree 9."""
    i = ctx.int("i", 0, n - 1)
    return i if D < 10 else ctx.fix(i)


def orders(D):
    """Irreducible polynomials whose root generates the group or one of its largest subgroups."""
    def setup():
        n = 2 ** D - 1
        table = [(PRIM[D], 1), (minimal_of(n - 1, PRIM[D])[0], 1)]
        for q in prime_divisors(n):
            v, full = minimal_of(q, PRIM[D])
            if full:
                table.append((v, 0))
        while len(table) & (len(table) - 1):
            table.append(table[-1])
        return (table,)

    def run(ctx, table):
        i = chosen(ctx, D, len(table))
        v, want = 0, 0
        for j, (t, w) in enumerate(table):
            v = v ^ (t * (1 * (i == j)))
            want = want ^ (w * (1 * (i == j)))
        p = BP(v)
        ctx.check(p.is_irreducible(), "a minimal polynomial is irreducible")
        ctx.check(p.is_primitive() == (want == 1), "primitive iff its root has the full order")
    return setup, run


def split(D):
    """Products of irreducible polynomials of degree dividing D, distinct or not: reducible."""
    def setup():
        irr = {d: [v for v in range(1 << d, 2 << d) if all(gf2_mod(v, w) for w in range(2, 1 << (d // 2 + 1)))]
               for d in range(1, D)}
        table = []
        for d in range(1, D // 2 + 1):
            v, todo, k = 1, D, 0
            while todo:
                step = d if todo >= d else todo
                v = gf2_mul(v, irr[step][k % len(irr[step])])
                k += 1
                todo -= step
            table.append(v)
            table.append(gf2_mul(irr[d][-1], irr[D - d][-1]))
        while len(table) & (len(table) - 1):
            table.append(table[-1])
        return (table,)

    def run(ctx, table):
        i = chosen(ctx, D, len(table))
        v = 0
        for j, t in enumerate(table):
            v = v ^ (t * (1 * (i == j)))
        p = BP(v)
        ctx.check(p.is_irreducible() == False, "a product is reducible")  # noqa: E712
        ctx.check(p.is_primitive() == False, "a product is not primitive")  # noqa: E712
    return setup, run


for D in (8, 9, 10, 11, 12, 14):
    s_, r_ = orders(D)
    P2.add(f"orders/{D}", r_, setup=s_, bounds=f"irreducible polynomials of degree {D} whose root has order (2^{D}-1)/q, q prime or 1", cost=D)
for D in (8, 9, 10, 12, 14):
    s_, r_ = split(D)
    P2.add(f"split/{D}", r_, setup=s_, bounds=f"products of degree {D} of factors of each degree", cost=D)
P2.add("small", small_degree, bounds="all polynomials of degree <= 1")
for D in (2, 3, 4, 5, 6):
    P2.add(f"irreducible/{D}", irreducible(D), bounds=f"all polynomials of degree {D}", cost=D)
for D in (2, 3, 4, 5, 6):
    P2.add(f"primitive/{D}", primitive(D), bounds=f"all polynomials of degree {D}", cost=D)
for D in (7, 8, 9):
    P2.add(f"irreducible/{D}", irreducible(D), bounds=f"all polynomials of degree {D}", cost=D * 3, tier="thorough")
for D in (7, 8):
    P2.add(f"primitive/{D}", primitive(D), bounds=f"all polynomials of degree {D}", cost=D * 3, tier="thorough")
P2.add("product/2x3", prime_product(2, 3), bounds="all products of a quadratic and a cubic", cost=4)
P2.add("product/3x3", prime_product(3, 3), bounds="all products of two cubics", cost=6)
P2.add("product/4x4", prime_product(4, 4), bounds="all products of two quartics", cost=30, tier="thorough")

# ------------------------------------------------------------------ C03
P3 = prop("C03")


def field_of(ctx, m, modulus):
    """The field under test: fixed modulus, or every modulus the constructor accepts."""
    if modulus != "any":
        return FiniteBifield(m) if modulus is None else FiniteBifield(m, modulus)
    mod = ctx.int("modulus", 0, 2 ** (m + 1) - 1)
    ok, F = ctx.attempt(ValueError, lambda: FiniteBifield(m, mod))
    ctx.assume(ok)
    return F


def elem(ctx, F, name):
    return F(ctx.int(name, 0, 2 ** F.degree - 1))


def field_axioms(m, modulus):
    def run(ctx):
        F = field_of(ctx, m, modulus)
        x, y, z = elem(ctx, F, "x"), elem(ctx, F, "y"), elem(ctx, F, "z")
        ctx.observe("xy", (x * y).value)
        ctx.check(x + y == y + x, "sum commutes")
        ctx.check(x - y == x + y, "difference")
        ctx.check(-x == x, "negation")
        ctx.check(x + F.zero == x, "zero")
        ctx.check(x * F.one == x, "one")
        ctx.check(x * F.zero == F.zero, "times zero")
        ctx.check(x + x == F.zero, "characteristic 2")
        ctx.check(x * y == y * x, "product commutes")
        ctx.check(x * (y + z) == x * y + x * z, "distributive")
        ctx.check((x * y) * z == x * (y * z), "product associates")
        ctx.check((x * y).value.value < F.order, "products stay in the field")
        ctx.check(F.order == 2 ** m, "order")
        ctx.check(0 * x == F.zero, "0*x")
        ctx.check(1 * x == x, "1*x")
        ctx.check(5 * x == x, "5*x")
        if (x * y) == F.zero:
            ctx.check((x == F.zero) | (y == F.zero), "no zero divisors")
        ctx.check((x + y) ** 2 == x ** 2 + y ** 2, "Frobenius")
        ctx.check(x ** (2 ** m) == x, "x^q == x")
    return run


def field_inverse(m, modulus):
    def run(ctx):
        F = field_of(ctx, m, modulus)
        x, y = elem(ctx, F, "x"), elem(ctx, F, "y")
        ctx.check(ctx.raises(ZeroDivisionError, lambda: F.zero.inverse()), "zero has no inverse")
        ctx.assume(x.value.value != 0)
        i = x.inverse()
        ctx.observe("inv", i.value)
        ctx.check(x * i == F.one, "x * inverse == 1")
        ctx.check(i.value.value < F.order, "inverse is reduced")
        ctx.check((y / x) * x == y, "division undoes product")
        ctx.check(x ** -1 == i, "power -1")
        ctx.check(x ** -2 == i * i, "power -2")
        ctx.check(x ** 0 == F.one, "power 0")
        ctx.check(x ** 3 == x * x * x, "power 3")
        ctx.check(x ** 6 == x * x * x * x * x * x, "power 6")
        ctx.check(x ** (2 ** m - 1) == F.one, "Fermat")
    return run


def field_log(m, modulus):
    def run(ctx):
        F = field_of(ctx, m, modulus)
        g, x = elem(ctx, F, "g"), elem(ctx, F, "x")
        ok, k = ctx.attempt(ValueError, lambda: x.logarithm(g))
        if ok:
            ctx.observe("log", k)
            ctx.check(g ** k == x, "base ** log == element")
            ctx.check(k < F.order, "log range")
            ctx.check(k >= 0, "log range")
        else:
            p, hit = F.one, False
            for i in range(F.order):
                hit = (p == x) | hit
                p = p * g
            ctx.check(hit == False, "no logarithm only when not a power")  # noqa: E712
    return run


def field_conj(m, modulus):
    def run(ctx):
        F = field_of(ctx, m, modulus)
        x = elem(ctx, F, "x")
        cs = x.conjugates()
        ctx.observe("n", len(cs))
        ctx.check(m % len(cs) == 0, "number of conjugates divides the degree")
        ctx.check(cs[0] == x, "first conjugate is the element")
        for i, c in enumerate(cs):
            ctx.check(c * c == cs[(i + 1) % len(cs)], "conjugates are closed under squaring")
            for d in cs[:i]:
                ctx.check(d != c, "conjugates are distinct")
        p = x.minimal_polynomial()
        ctx.observe("min", p)
        ctx.check(p.degree == len(cs), "degree of the minimal polynomial")
        ctx.check(p.evaluate(x) == F.zero, "minimal polynomial vanishes")
        for c in cs:
            ctx.check(p.evaluate(c) == F.zero, "minimal polynomial vanishes at the conjugates")
        q = BP(ctx.int("q", 1, 2 ** m - 1))
        if q.degree < p.degree:
            ctx.check(q.evaluate(x) != F.zero, "no smaller polynomial vanishes")
    return run


def field_conj_some(m, w):
    """Elements with few bits of a large field."""
    def run(ctx):
        F = FiniteBifield(m)
        x = F(ctx.int("x", 0, 2 ** w - 1))
        cs = x.conjugates()
        ctx.check(m % len(cs) == 0 and cs[0] == x, "number of conjugates divides the degree")
        for i, c in enumerate(cs):
            ctx.check(c * c == cs[(i + 1) % len(cs)], "conjugates are closed under squaring")
            for d in cs[:i]:
                ctx.check(d != c, "conjugates are distinct")
        p = x.minimal_polynomial()
        ctx.check(p.degree == len(cs), "degree of the minimal polynomial")
        for c in cs:
            ctx.check(p.evaluate(c) == F.zero, "minimal polynomial vanishes at the conjugates")
        if x != F.zero:
            ctx.check(x * x.inverse() == F.one, "inverse")
            y = x * x * x + F.one
            ctx.check((x * y) / x == y, "division undoes product")
            ctx.check(x ** (2 ** m - 1) == F.one, "order divides the order of the group")
    return run


def field_ctor(m):
    def run(ctx):
        mod = ctx.int("modulus", 0, 2 ** (m + 2) - 1)
        ok, F = ctx.attempt(ValueError, lambda: FiniteBifield(m, mod))
        want = False
        deg = (mod >> m) == 1
        red = False
        for d in range(2, 1 << (m // 2 + 1)):
            red = (BP(mod) % BP(d) == 0) | red
        ctx.check(ok == (deg & (red == False)), "modulus accepted iff irreducible of the right degree")  # noqa: E712
    return run


def mixing(ctx):
    F, G, H = FiniteBifield(3), FiniteBifield(4), FiniteBifield(3, 0b1101)
    x, y, z = elem(ctx, F, "x"), elem(ctx, G, "y"), elem(ctx, H, "z")
    for v in (y, z):
        ctx.check(ctx.raises(ValueError, lambda: x + v), "mixing fields is refused")
        ctx.check(ctx.raises(ValueError, lambda: x - v), "mixing fields is refused")
        ctx.check(ctx.raises(ValueError, lambda: x * v), "mixing fields is refused")
        ctx.check(ctx.raises(ValueError, lambda: x / v), "mixing fields is refused")
        ctx.check((x == v) == False, "elements of different fields differ")  # noqa: E712


for m, mod in ((1, None), (2, None), (3, None), (3, 0b1101), (4, None), (4, 0b11111)):
    tag = f"{m}" if mod is None else f"{m}.{mod:b}"
    P3.add(f"axioms/{tag}", field_axioms(m, mod), bounds=f"all triples of GF(2^{m}), modulus {mod or 'default'}", cost=m)
    P3.add(f"inverse/{tag}", field_inverse(m, mod), bounds=f"all pairs of GF(2^{m}), modulus {mod or 'default'}", cost=m)
    P3.add(f"conjugates/{tag}", field_conj(m, mod), bounds=f"all elements of GF(2^{m}), modulus {mod or 'default'}", cost=m)
    P3.add(f"log/{tag}", field_log(m, mod), bounds=f"all base/element pairs of GF(2^{m})", cost=m)
for m in (7, 8, 9, 10, 12):
    P3.add(f"conjugates/some{m}", field_conj_some(m, 2), bounds=f"elements 0, 1, X, X + 1 of GF(2^{m})", cost=m, tier="quick" if m < 9 else "thorough")
for m in (2, 3):
    P3.add(f"axioms/any{m}", field_axioms(m, "any"), bounds=f"all moduli of degree {m}, all triples", cost=2 * m)
    P3.add(f"inverse/any{m}", field_inverse(m, "any"), bounds=f"all moduli of degree {m}, all pairs", cost=3 * m)
    P3.add(f"conjugates/any{m}", field_conj(m, "any"), bounds=f"all moduli of degree {m}, all elements", cost=3 * m)
P3.add("axioms/5", field_axioms(5, None), bounds="all triples of GF(32)", cost=10, tier="thorough")
P3.add("inverse/5", field_inverse(5, None), bounds="all pairs of GF(32)", cost=5)
P3.add("inverse/6", field_inverse(6, None), bounds="all pairs of GF(64)", cost=10)
P3.add("conjugates/5", field_conj(5, None), bounds="all elements of GF(32)", cost=5, tier="thorough")
P3.add("conjugates/6", field_conj(6, None), bounds="all elements of GF(64)", cost=5, tier="thorough")
P3.add("inverse/8", field_inverse(8, None), bounds="all pairs of GF(256)", cost=30, tier="thorough")
P3.add("axioms/any4", field_axioms(4, "any"), bounds="all moduli of degree 4, all triples", cost=12, tier="thorough")
P3.add("inverse/any4", field_inverse(4, "any"), bounds="all moduli of degree 4, all pairs", cost=12, tier="thorough")
for m in (1, 2, 3, 4, 5):
    P3.add(f"ctor/{m}", field_ctor(m), bounds=f"all moduli below 2^{m + 2}", cost=m)
P3.add("mixing", mixing, bounds="GF(8) with two moduli and GF(16), all elements")

# ------------------------------------------------------------------ C04
P4 = prop("C04")


def frac(ctx, name, w):
    return Frac(ctx.int(name + "n", 0, 2 ** w - 1), ctx.int(name + "d", 1, 2 ** w - 1))


def same_value(x, n, d):
    """x == n/d as rational functions, by cross multiplication."""
    return x.numerator * d == x.denominator * n


def canon(ctx, x):
    ctx.check(x.denominator != BP(0), "denominator is nonzero")
    ctx.check(BP.gcd(x.numerator, x.denominator) == 1, "fraction in lowest terms")


def frac_ctor(w):
    def run(ctx):
        n, d, k = poly(ctx, "n", w), poly(ctx, "d", w), poly(ctx, "k", 2)
        ctx.assume(d.value != 0)
        x = Frac(n, d)
        ctx.observe("num", x.numerator)
        ctx.observe("den", x.denominator)
        canon(ctx, x)
        ctx.check(same_value(x, n, d), "value is kept")
        if k.value != 0:
            ctx.check(Frac(n * k, d * k) == x, "common factors do not matter")
        ctx.check(ctx.raises(ZeroDivisionError, lambda: Frac(n, 0)), "zero denominator is refused")
        ctx.check(Frac(n) == Frac(n, 1), "default denominator")
    return run


def frac_eq(w):
    def run(ctx):
        a, b, c, d = (poly(ctx, t, w) for t in "abcd")
        ctx.assume(b.value != 0)
        ctx.assume(d.value != 0)
        ctx.check((Frac(a, b) == Frac(c, d)) == (a * d == b * c), "equality is equality of rational functions")
    return run


def frac_ops(w):
    def run(ctx):
        x, y = frac(ctx, "x", w), frac(ctx, "y", w)
        xn, xd, yn, yd = x.numerator, x.denominator, y.numerator, y.denominator
        s = x + y
        ctx.observe("s", s.numerator)
        canon(ctx, s)
        ctx.check(same_value(s, xn * yd + yn * xd, xd * yd), "sum")
        ctx.check(x - y == s, "difference")
        p = x * y
        canon(ctx, p)
        ctx.check(same_value(p, xn * yn, xd * yd), "product")
        if yn.value != 0:
            q = x / y
            canon(ctx, q)
            ctx.check(q * y == x, "quotient")
            ctx.check(y.inverse() * y == Frac(1), "inverse")
            ctx.check(y ** -1 == y.inverse(), "power -1")
        else:
            ctx.check(ctx.raises(ZeroDivisionError, lambda: x / y), "division by zero is refused")
            ctx.check(ctx.raises(ZeroDivisionError, lambda: y.inverse()), "inverse of zero is refused")
        ctx.check(-x == x, "negation")
        ctx.check(x + x == Frac(0), "characteristic 2")
        ctx.check(0 * x == Frac(0), "0*x")
        ctx.check(1 * x == x, "1*x")
        ctx.check(x ** 0 == Frac(1), "power 0")
        ctx.check(x ** 2 == x * x, "power 2")
    return run


def frac_field(w):
    def run(ctx):
        x, y, z = frac(ctx, "x", w), frac(ctx, "y", w), frac(ctx, "z", w)
        ctx.check(x * (y + z) == x * y + x * z, "distributive")
        ctx.check((x * y) * z == x * (y * z), "product associates")
        ctx.check((x + y) + z == x + (y + z), "sum associates")
    return run


P4.add("ctor/4", frac_ctor(4), bounds="numerators and denominators of degree < 4", cost=5)
P4.add("eq/3", frac_eq(3), bounds="terms of degree < 3", cost=5)
P4.add("ops/2", frac_ops(2), bounds="terms of degree < 2", cost=5)
P4.add("ops/3", frac_ops(3), bounds="terms of degree < 3", cost=20, tier="thorough")
P4.add("field/2", frac_field(2), bounds="terms of degree < 2", cost=10)
P4.add("ctor/5", frac_ctor(5), bounds="numerators and denominators of degree < 5", cost=30, tier="thorough")

# ------------------------------------------------------------------ C05
P5 = prop("C05")


def b2i(w):
    def run(ctx):
        b = ctx.bits("b", w)
        lsb = komm.bits_to_int(b)
        ctx.observe("lsb", lsb)
        ctx.check(lsb == sum(b[i] * 2 ** i for i in range(w)), "least significant bit first")
        msb = komm.bits_to_int(b, "MSB-first")
        ctx.check(msb == sum(b[w - 1 - i] * 2 ** i for i in range(w)), "most significant bit first")
        ctx.check(komm.bits_to_int(b, "LSB-first") == lsb, "default order")
        ctx.eq(komm.int_to_bits(lsb, w), b, "round trip")
        ctx.eq(komm.int_to_bits(msb, w, "MSB-first"), b, "round trip, MSB first")
        n = ctx.int("n", 0, 2 ** w - 1)
        c = komm.int_to_bits(n, w + 1)
        ctx.check(len(c) == w + 1, "width")
        ctx.check(komm.bits_to_int(c) == n, "round trip from the integer")
        for i in range(w + 1):
            ctx.check(c[i] == (n >> i) & 1, "bits of the integer")
        ctx.eq(komm.int_to_bits(n, w, "MSB-first"), list(komm.int_to_bits(n, w))[::-1], "orders are reversals")
    return run


def b2i_array(rows, w):
    def run(ctx):
        b = ctx.bits("b", rows, w)
        v = komm.bits_to_int(b)
        ctx.eq(v, [sum(b[r, i] * 2 ** i for i in range(w)) for r in range(rows)], "rows convert independently")
        ctx.eq(komm.bits_to_int(b, "MSB-first"),
               [sum(b[r, w - 1 - i] * 2 ** i for i in range(w)) for r in range(rows)], "rows, MSB first")
        ctx.eq(komm.int_to_bits(v, w), b, "array round trip")
        n = ctx.ints("n", 4, 0, 2 ** w - 1).reshape(2, 2)
        o = komm.int_to_bits(n, w)
        ctx.check(tuple(o.shape) == (2, 2, w), "shape")
        ctx.eq(komm.bits_to_int(o), n, "integer array round trip")
        ctx.observe("v", v)
    return run


def b2i_big(w):
    def run(ctx):
        n = ctx.int("n", 0, 2 ** w - 1)
        ctx.check(komm.bits_to_int(komm.int_to_bits(n, w)) == n, "wide round trip")
    return run


for w in list(range(1, 18)) + [20, 24, 25, 31, 32, 33, 40, 48, 52]:
    P5.add(f"scalar/{w}", b2i(w), bounds=f"all {w}-bit vectors and integers", cost=w)
for r, w in ((3, 4), (1, 1), (2, 9), (5, 3), (2, 17), (1, 40)):
    P5.add(f"array/{r}x{w}", b2i_array(r, w), bounds=f"all {r}x{w} bit arrays, 2x2 arrays of {w}-bit integers", cost=w)
for w in (50, 63, 64, 65, 80):
    P5.add(f"wide/{w}", b2i_big(w), bounds=f"all {w}-bit integers", cost=w)
