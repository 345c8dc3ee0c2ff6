"""C13-C16: convolutional codes, their terminations, Viterbi decoding and state machines."""
import itertools

import numpy as np

import komm
from props.blocks import allzero, int_of, weight
from symex.reg import prop


def conv(cls, **kw):
    return getattr(komm, cls)(**kw)


def coefs(x, n):
    return [x >> i & 1 for i in range(n)]


# ---- specifications: the power series u(D) G(D), one list of n bits per step
def series_ff(P, q, U, nu):
    """Rational encoder p_ij / q_i: w_i = u_i / q_i, v_j = sum_i w_i p_ij."""
    k, n, T = len(P), len(P[0]), len(U)
    w = [[] for _ in range(k)]
    out = []
    for t in range(T):
        for i in range(k):
            x = U[t][i]
            for l in range(1, min(t, nu) + 1):
                x = x ^ (q[i][l] & w[i][t - l])
            w[i].append(x)
        row = []
        for j in range(n):
            y = 0
            for i in range(k):
                for l in range(min(t, nu) + 1):
                    y = y ^ (P[i][j][l] & w[i][t - l])
            row.append(y)
        out.append(row)
    return out


def series_high(h, U, nu):
    """Systematic, with h . v = 0."""
    n, T = len(h), len(U)
    out = []
    for t in range(T):
        y = 0
        for l in range(min(t, nu) + 1):
            for i in range(n - 1):
                y = y ^ (h[i][l] & U[t - l][i])
            if l:
                y = y ^ (h[n - 1][l] & out[t - l][n - 1])
        out.append(list(U[t]) + [y])
    return out


P13 = prop("C13")
P13.assumes += ["feedback polynomials (and the last entry of a check row) with constant term 1"]


def ints_of(xs):
    return [int_of(x) for x in xs]


class Kind:
    """A family of encoders with symbolic polynomials of degree at most nu."""

    def __init__(self, cls, k, n, nu, fb=False, fix=False):
        self.cls, self.k, self.n, self.nu, self.fb, self.fix_ = cls, k, n, nu, fb, fix

    def make(self, ctx):
        k, n, nu = self.k, self.n, self.nu
        top = 2 ** (nu + 1) - 1
        num = (lambda *a: ctx.fix(ctx.int(*a))) if self.fix_ else ctx.int
        if self.cls == "ConvolutionalCode":
            P = [[num(f"p{i}{j}", 0, top) for j in range(n)] for i in range(k)]
            q = [2 * num(f"q{i}", 0, top >> 1) + 1 if self.fb else 1 for i in range(k)]
            ff = ctx.array([x for r in P for x in r], "i").reshape((k, n))
            kw = {"feedforward_polynomials": ff}
            if self.fb:
                kw["feedback_polynomials"] = ctx.array(q, "i")
            code = komm.ConvolutionalCode(**kw)
            self.P, self.q = P, q
            Pc = [[coefs(x, nu + 1) for x in r] for r in P]
            qc = [coefs(x, nu + 1) for x in q]
            return code, lambda U: series_ff(Pc, qc, U, nu)
        if self.cls == "LowRateConvolutionalCode":
            g = [num(f"g{j}", 0, top) for j in range(n)]
            ok = False
            for x in g:
                ok = (x != 0) | ok
            ctx.assume(ok)
            self.P, self.q = [g], [1]
            code = komm.LowRateConvolutionalCode(ctx.array(g, "i"))
            Pc, qc = [[coefs(x, nu + 1) for x in g]], [coefs(1, nu + 1)]
            return code, lambda U: series_ff(Pc, qc, U, nu)
        h = [num(f"h{j}", 0, top) for j in range(n - 1)] + [2 * num(f"h{n - 1}", 0, top >> 1) + 1]
        self.h = h
        code = komm.HighRateConvolutionalCode(ctx.array(h, "i"))
        hc = [coefs(x, nu + 1) for x in h]
        return code, lambda U: series_high(hc, U, nu)


def steps(ctx, k, T, name="u"):
    u = ctx.bits(name, k * T)
    return u, [[int_of(u[t * k + i]) for i in range(k)] for t in range(T)]


def encode_series(kind, T):
    def run(ctx):
        code, spec = kind.make(ctx)
        ctx.check((code.num_input_bits, code.num_output_bits) == (kind.k, kind.n), "block sizes")
        u, U = steps(ctx, kind.k, T)
        v = code.encode(u)
        ctx.observe("v", v)
        ctx.eq(v, ctx.array([x for r in spec(U) for x in r], "i"), "encoding is u(D) G(D)")
        ctx.eq(u, ctx.array([x for r in U for x in r], "i"), "input is not modified")
    return run


def encode_state(kind, T):
    """Outputs and final states: additive, resumable, and those of the stated machine and matrices."""
    def run(ctx):
        code, _ = kind.make(ctx)
        s = code.degree
        k, n = kind.k, kind.n
        u, U = steps(ctx, k, T)
        s0 = ctx.bits("s", s)
        v, s1 = code.encode_with_state(u, s0)
        ctx.observe("v", v)
        ctx.observe("s1", s1)
        for cut in range(1, T):
            va, sa = code.encode_with_state(u[:cut * k], s0)
            vb, sb = code.encode_with_state(u[cut * k:], sa)
            ctx.eq(va, v[:cut * n], "prefix of the output")
            ctx.eq(vb, v[cut * n:], "encoding resumes from the final state")
            ctx.eq(sb, s1, "the final state does not depend on the cut")
        z, sz = code.encode_with_state(ctx.array([0] * (k * T), "i"), s0)
        w, sw = code.encode_with_state(u, ctx.array([0] * s, "i"))
        ctx.eq(code.encode(u), w, "encode starts from the zero state")
        ctx.eq(z ^ w, v, "output is linear")
        ctx.eq(sz ^ sw, s1, "final state is linear")
        A, B, C, D = code.state_space_representation()
        st = s0
        for t in range(T):
            ut = u[t * k:(t + 1) * k]
            ctx.eq((st @ C + ut @ D) % 2, v[t * n:(t + 1) * n], "output equation")
            st = (st @ A + ut @ B) % 2
        ctx.eq(st, s1, "state equation")
        ctx.check(ctx.raises(ValueError, lambda: code.encode_with_state(u, ctx.array([0] * (s + 1), "i"))), "state of another length is refused")
    return run


def machine(kind, T):
    """The finite-state machine produces the same outputs."""
    def run(ctx):
        code, _ = kind.make(ctx)
        s, k, n = code.degree, kind.k, kind.n
        fsm = code.finite_state_machine()
        ctx.check((fsm.num_states, fsm.num_input_symbols) == (2 ** s, 2 ** k), "sizes")
        u, U = steps(ctx, k, T)
        s0 = ctx.bits("s", s)
        v, s1 = code.encode_with_state(u, s0)
        st = sum((int_of(s0[i]) << i for i in range(s)), 0)
        xs = ctx.array([sum((b << i for i, b in enumerate(row)), 0) for row in U], "i")
        ys, sf = fsm.process(xs, st)
        ctx.observe("y", ys)
        for t in range(T):
            ctx.check(int_of(ys[t]) == sum((int_of(v[t * n + j]) << j for j in range(n)), 0), "machine output")
        ctx.check(sf == sum((int_of(s1[i]) << i for i in range(s)), 0), "machine state")
    return run


def transfer(kind):
    """Entries of the generator matrix."""
    def run(ctx):
        code, _ = kind.make(ctx)
        G = code.generator_matrix
        k, n = kind.k, kind.n
        BP = komm.BinaryPolynomial
        for i in range(k):
            for j in range(n):
                x = G[i, j]
                if kind.cls == "HighRateConvolutionalCode":
                    num, den = (BP(int(i == j)), BP(1)) if j < k else (BP(kind.h[i]), BP(kind.h[-1]))
                else:
                    num, den = BP(kind.P[i][j]), BP(kind.q[i])
                ctx.check((x.numerator * den).value == (num * x.denominator).value, "entry of the generator matrix")
        if kind.cls == "ConvolutionalCode":
            def deg(x):
                return max([l for l in range(kind.nu + 1) if x >> l & 1], default=-1)
            nus = [max(max(deg(x) for x in kind.P[i]), deg(kind.q[i])) for i in range(k)]
            ctx.check(code.constraint_lengths.tolist() == nus, "constraint lengths")
            ctx.check(code.overall_constraint_length == sum(nus) and code.degree == sum(nus), "overall constraint length")
            ctx.check(code.memory_order == max(nus), "memory order")
        elif kind.cls == "LowRateConvolutionalCode":
            nu = max(x.bit_length() for x in kind.P[0]) - 1
            ctx.check((code.constraint_lengths.tolist(), code.overall_constraint_length, code.degree, code.memory_order) == ([nu], nu, nu, nu), "constraint lengths")
        else:
            nu = max(x.bit_length() for x in kind.h) - 1
            ctx.check(code.degree == nu, "degree")
    return run


FF, LOW, HIGH = "ConvolutionalCode", "LowRateConvolutionalCode", "HighRateConvolutionalCode"
for kind, T, tier in [
        (Kind(FF, 1, 2, 2), 5, "quick"), (Kind(FF, 1, 2, 2, True), 5, "quick"), (Kind(FF, 2, 3, 1), 4, "quick"),
        (Kind(FF, 2, 3, 1, True), 4, "quick"), (Kind(FF, 1, 1, 3, True), 6, "quick"),
        (Kind(FF, 1, 3, 3, True), 7, "thorough"), (Kind(FF, 2, 2, 2, True), 5, "thorough"),
        (Kind(FF, 3, 4, 1, True), 4, "thorough"),
        (Kind(LOW, 1, 2, 3), 6, "quick"), (Kind(LOW, 1, 3, 2), 5, "quick"), (Kind(LOW, 1, 3, 4), 8, "thorough"),
        (Kind(HIGH, 1, 2, 2), 5, "quick"), (Kind(HIGH, 2, 3, 2), 5, "quick"), (Kind(HIGH, 3, 4, 3), 6, "thorough")]:
    nm = f"{ {FF: 'ff', LOW: 'low', HIGH: 'high'}[kind.cls]}/{kind.n},{kind.k},{kind.nu}{'fb' if kind.fb else ''}"
    b = f"all polynomials of degree <= {kind.nu}, all inputs of {T} blocks"
    P13.add(f"series/{nm}", encode_series(kind, T), bounds=b, tier=tier)
    P13.add(f"state/{nm}", encode_state(kind, min(T, 4)), bounds=b + ", all initial states", tier=tier)
    P13.add(f"machine/{nm}", machine(kind, 2), bounds=b + ", all initial states", tier=tier)
for kind in [Kind(FF, 1, 2, 2, True, True), Kind(FF, 2, 2, 1, True, True), Kind(LOW, 1, 2, 3, False, True), Kind(HIGH, 1, 2, 2, False, True),
             Kind(HIGH, 2, 3, 2, False, True)]:
    nm = f"{ {FF: 'ff', LOW: 'low', HIGH: 'high'}[kind.cls]}/{kind.n},{kind.k},{kind.nu}{'fb' if kind.fb else ''}"
    P13.add(f"transfer/{nm}", transfer(kind), bounds=f"all polynomials of degree <= {kind.nu}")


# ------------------------------------------------------------------ C14
P14 = prop("C14")
P14.assumes += ["feedback polynomials with constant term 1",
                "zero termination: the state is controllable within the memory order; tail-biting: for every message there is one cyclic path (both hold for the usual encoders; outside, no such code exists)"]


def deg(x):
    return x.bit_length() - 1


def rank2(rows):
    r, rows = 0, list(rows)
    while rows:
        p = rows.pop()
        if p:
            r += 1
            low = p & -p
            rows = [x ^ p if x & low else x for x in rows]
    return r


class Fixed(Kind):
    """Concrete polynomials, forked over every value."""

    def __init__(self, cls, k, n, nu, fb=False, only=None):
        super().__init__(cls, k, n, nu, fb, True)
        self.only = only

    def states(self):
        """Column form of the state map, from the specification's own realisation: list of (A, B) as bit functions."""

    def degree(self):
        if self.cls == FF:
            return sum(max(max(deg(x) for x in self.P[i]), deg(self.q[i])) for i in range(self.k))
        if self.cls == LOW:
            return max(deg(x) for x in self.P[0])
        return max(deg(x) for x in self.h)


def tmodes(kind, h, mode, part):
    def run(ctx):
        conv_code, spec = kind.make(ctx)
        if mode != "direct-truncation" and not suitable(conv_code, h, mode):
            return
        code = komm.TerminatedConvolutionalCode(conv_code, h, mode)
        part(ctx, kind, conv_code, spec, code, h, mode)
    return run


def suitable(conv_code, h, mode):
    """Does the termination exist (by the state matrices, whose meaning C13 fixes)?"""
    A, B, _, _ = [np.asarray(x) for x in conv_code.state_space_representation()]
    s = A.shape[0]
    if mode == "tail-biting":
        M = np.linalg.matrix_power(A, h) % 2 if s else A
        return rank2([int("".join(map(str, r)), 2) for r in (M + np.eye(s, dtype=int)) % 2]) == s if s else True
    M, rows = B, []
    for _ in range(conv_code.memory_order):
        rows += [int("".join(map(str, r)), 2) for r in M % 2] if s else []
        M = M @ A % 2
    return rank2(rows) == s


def t_encode(ctx, kind, cc, spec, code, h, mode):
    k0, n0 = kind.k, kind.n
    mu = cc.memory_order
    L = h + mu if mode == "zero-termination" else h
    ctx.check((code.dimension, code.length, code.redundancy) == (h * k0, L * n0, L * n0 - h * k0), "dimensions")
    u, U = steps(ctx, k0, h)
    v = code.encode(u)
    ctx.observe("v", v)
    ctx.check(v.shape == (L * n0,), "length of codewords")
    if mode == "direct-truncation":
        ctx.eq(v, ctx.array([x for r in spec(U) for x in r], "i"), "the first h blocks of the encoder output")
    elif mode == "zero-termination":
        ctx.eq(v[:h * n0], ctx.array([x for r in spec(U) for x in r], "i"), "starts as the encoder output")
        if kind.cls != HIGH and k0 == 1:
            # v_j = w p_j with w = u / q truncated to h terms, padded with zeros
            P, q, nu = kind.P[0], kind.q[0], kind.nu
            w = []
            for t in range(h):
                x = U[t][0]
                for l in range(1, min(t, nu) + 1):
                    if q >> l & 1:
                        x = x ^ w[t - l]
                w.append(x)
            for t in range(L):
                for j in range(n0):
                    y = 0
                    for l in range(nu + 1):
                        if P[j] >> l & 1 and 0 <= t - l < h:
                            y = y ^ w[t - l]
                    ctx.check(int_of(v[t * n0 + j]) == y, "driven to the zero state")
        tail = code.strategy.pre_process_input(u)
        ctx.check(tail.shape == (L * k0,), "length of the extended input")
        ctx.eq(tail[:h * k0], u, "the message comes first")
        w, s = cc.encode_with_state(tail, ctx.array([0] * cc.degree, "i"))
        ctx.eq(w, v, "the codeword is the encoding of the extended input")
        ctx.check(allzero(ctx, s), "ends in the zero state")
    else:
        s0 = code.strategy.initial_state(u)
        w, s1 = cc.encode_with_state(u, s0)
        ctx.eq(w, v, "the codeword is the encoding from the initial state")
        ctx.eq(s1, s0, "ends where it starts")
        if kind.cls != HIGH and not kind.fb:
            for t in range(h):
                for j in range(n0):
                    y = 0
                    for i in range(k0):
                        for l in range(kind.nu + 1):
                            if kind.P[i][j] >> l & 1:
                                y = y ^ U[(t - l) % h][i]
                    ctx.check(int_of(v[t * n0 + j]) == y, "cyclic convolution")


def t_block(ctx, kind, cc, spec, code, h, mode):
    """As a block code."""
    k, n = code.dimension, code.length
    G = code.generator_matrix
    rows = [int("".join(str(int(x)) for x in r), 2) for r in G]
    u = ctx.bits("u", k)
    v = code.encode(u)
    ctx.eq((u @ G) % 2, v, "codewords are u G")
    if rank2(rows) < k:
        return
    ctx.check(code.check_matrix.shape == (n - k, n), "shape of the check matrix")
    ctx.check(allzero(ctx, code.check(v)), "codewords have zero syndrome")
    ctx.eq(code.inverse_encode(v), u, "inverse encoding")
    r = ctx.bits("r", n)
    ok, x = ctx.attempt(ValueError, lambda: code.inverse_encode(r))
    if ok:
        ctx.eq(code.encode(x), r, "only codewords are inverted")
    else:
        ctx.check(allzero(ctx, code.check(r)) == False, "codewords are not refused")  # noqa: E712
    two = ctx.array([int_of(x) for x in u] + [int_of(x) for x in u][::-1], "i")
    vv = code.encode(two)
    ctx.eq(vv[:n], v, "first block")
    ctx.eq(vv[n:], code.encode(u[::-1]), "second block")


MODES = {"direct-truncation": "dt", "zero-termination": "zt", "tail-biting": "tb"}
for kind, hs, tier in [
        (Fixed(FF, 1, 2, 2), (1, 2, 4), "quick"), (Fixed(FF, 1, 2, 1, True), (1, 3), "quick"), (Fixed(FF, 1, 2, 2, True), (3,), "quick"),
        (Fixed(FF, 2, 3, 1), (2,), "thorough"), (Fixed(FF, 2, 2, 1), (2,), "quick"), (Fixed(LOW, 1, 2, 2), (1, 3), "quick"),
        (Fixed(HIGH, 1, 2, 2), (2, 3), "quick"), (Fixed(HIGH, 2, 3, 1), (2, 3), "quick"), (Fixed(HIGH, 2, 3, 2), (3,), "thorough")]:
    for h in hs:
        for mode, ab in MODES.items():
            nm = f"{ {FF: 'ff', LOW: 'low', HIGH: 'high'}[kind.cls]}/{kind.n},{kind.k},{kind.nu}{'fb' if kind.fb else ''}/h{h}/{ab}"
            b = f"all polynomials of degree <= {kind.nu}, all messages of {h} blocks"
            P14.add(f"encode/{nm}", tmodes(kind, h, mode, t_encode), bounds=b, tier=tier)
            if h == hs[-1]:
                P14.add(f"block/{nm}", tmodes(kind, h, mode, t_block), bounds=b + ", all words", tier=tier)


# ------------------------------------------------------------------ C15
P15 = prop("C15")

SMALL = {  # name: (class, arguments)
    "5,7": (FF, dict(feedforward_polynomials=[[5, 7]])),
    "1,3": (FF, dict(feedforward_polynomials=[[1, 3]])),
    "13,17": (FF, dict(feedforward_polynomials=[[0o13, 0o17]])),
    "7,5fb": (FF, dict(feedforward_polynomials=[[7, 5]], feedback_polynomials=[7])),
    "3,4,6": (FF, dict(feedforward_polynomials=[[3, 2, 3], [2, 1, 1]])),
    "low7,7,5": (LOW, dict(g_row=[7, 7, 5])),
    "high": (HIGH, dict(h_row=[3, 1, 3])),
    "memoryless": (FF, dict(feedforward_polynomials=[[1, 1]])),
    "uncoded": (FF, dict(feedforward_polynomials=[[1, 0, 1], [0, 1, 3]])),
}


def small(name):
    cls, kw = SMALL[name]
    return getattr(komm, cls)(**kw)


def all_words(code):
    return [(list(u), [int(x) for x in code.encode(np.array(u))]) for u in itertools.product([0, 1], repeat=code.dimension)]


def distances(words, r):
    return [weight([int_of(a) ^ b for a, b in zip(r, c)]) for _, c in words]


def trellis_words(cc, h, mode):
    """Every path of the trellis: the encodings of the inputs that end where they should."""
    k, s = cc.num_input_bits, cc.degree
    mu = cc.memory_order if mode == "zero-termination" else 0
    out = []
    for x in itertools.product([0, 1], repeat=k * (h + mu)):
        v, f = cc.encode_with_state(np.array(x), np.zeros(s, dtype=int))
        if mode == "direct-truncation" or not f.any():
            out.append((list(x[:k * h]), [int(b) for b in v]))
    return out


def viterbi_hard(name, h, mode, free=False):
    """free: the zero tail is not unique, so the trellis has more paths than the code has words."""
    def setup():
        cc = small(name)
        code = komm.TerminatedConvolutionalCode(cc, h, mode)
        return code, komm.ViterbiDecoder(code), all_words(code), trellis_words(cc, h, mode)

    def run(ctx, code, dec, words, trellis):
        r = ctx.bits("r", code.length)
        u = dec.decode(r)
        ctx.observe("u", u)
        ctx.check(u.shape == (code.dimension,), "one message per word")
        ctx.check(np.all((u == 0) | (u == 1)), "bits")
        us = [int_of(x) for x in u]
        ds = distances(words, r)
        mine = 0
        for (m, c), d in zip(words, ds):
            hit = True
            for a, b in zip(us, m):
                hit = (a == b) & hit
            mine = mine + d * hit
        good = True
        for d in ds:
            good = (mine <= d) & good
        dt = distances(trellis, r)
        ok = False
        for (m, c), d in zip(trellis, dt):
            hit = True
            for a, b in zip(us, m):
                hit = (a == b) & hit
            for o in dt:
                hit = (d <= o) & hit
            ok = hit | ok
        ctx.check(ok, "a path of least metric")
        if free:
            ctx.check_known(good, "no codeword is closer", "viterbi-free-tail", ok)
        else:
            ctx.check(good, "no codeword is closer")
    return setup, run


def viterbi_soft(name, h, mode):
    def setup():
        cc = small(name)
        code = komm.TerminatedConvolutionalCode(cc, h, mode)
        return code, komm.ViterbiDecoder(code, input_type="soft"), all_words(code)

    def run(ctx, code, dec, words):
        y = ctx.reals("y", code.length, lo=-8, hi=8)
        u = dec.decode(y)
        us = [int(ctx.fix(int_of(x))) for x in u]
        ctx.observe("u", u)
        ctx.check(len(us) == code.dimension and set(us) <= {0, 1}, "one message per word")
        mine = [c for m, c in words if m == us][0]
        for _, c in words:
            # metric of c: the sum of the samples where c is one (smaller is more likely)
            diff = 0
            for a, b, x in zip(mine, c, y):
                if a != b:
                    diff = diff + (x if a else -x)
            ctx.check(diff <= 0, "no codeword correlates better")
    return setup, run


def viterbi_batch(name, h, mode):
    def setup():
        cc = small(name)
        code = komm.TerminatedConvolutionalCode(cc, h, mode)
        return code, komm.ViterbiDecoder(code)

    def run(ctx, code, dec):
        n, k = code.length, code.dimension
        a, b = ctx.bits("a", n), ctx.bits("b", n)
        x, y = dec.decode(a), dec.decode(b)
        two = dec.decode(np.concatenate([a, b]))
        ctx.eq(two[:k], x, "first word")
        ctx.eq(two[k:], y, "second word")
        rows = dec.decode(np.stack([a, b]))
        ctx.eq(rows[0], x, "first row")
        ctx.eq(rows[1], y, "second row")
        ctx.check(ctx.raises(ValueError, lambda: dec.decode(a[:-1])), "partial words are refused")
    return setup, run


def tailbiting(ctx):
    code = komm.TerminatedConvolutionalCode(small("5,7"), 4, "tail-biting")
    ctx.check(ctx.raises(NotImplementedError, lambda: komm.ViterbiDecoder(code)), "tail-biting is refused")


def paths_from(fsm, s0, T):
    """All input sequences: (inputs, outputs)."""
    for xs in itertools.product(range(fsm.num_input_symbols), repeat=T):
        s, ys = s0, []
        for x in xs:
            ys.append(int(fsm.outputs[s, x]))
            s = int(fsm.transitions[s, x])
        yield xs, ys


def stream_best(name, tau, T, s0=0, soft=False, chunk=None):
    """Every decision lies on a path of least metric (the chunks do not matter)."""
    def setup():
        cc = small(name)
        fsm = cc.finite_state_machine()
        return cc, [list(paths_from(fsm, s0, t + 1)) for t in range(T)]

    def run(ctx, cc, paths):
        k, n = cc.num_input_bits, cc.num_output_bits
        dec = komm.ViterbiStreamDecoder(cc, traceback_length=tau, state=s0, input_type="soft" if soft else "hard")
        z = ctx.reals("z", n * T, lo=-8, hi=8) if soft else ctx.bits("z", n * T)
        if chunk is None:
            out = dec.decode(z)
        else:
            cut = [0] + list(chunk) + [T]
            out = np.concatenate([dec.decode(z[a * n:b * n]) for a, b in zip(cut, cut[1:])])
        if soft:
            out = ctx.fixed([int_of(x) for x in out])
        ctx.observe("out", out)
        ctx.check(out.shape == (k * T,), "k bits per block")
        for t in range(tau, T):
            ms, hits = [], []
            for xs, ys in paths[t]:
                m = 0
                for i, y in enumerate(ys):
                    for j in range(n):
                        zz = z[i * n + j]
                        if soft:
                            m = m + (zz if y >> j & 1 else 0)
                        else:
                            m = m + (int_of(zz) ^ (y >> j & 1))
                hit = True
                for b in range(k):
                    hit = (int_of(out[t * k + b]) == (xs[t - tau] >> b & 1)) & hit
                ms.append(m)
                hits.append(hit)
            if soft:
                good = False
                for m, hit in zip(ms, hits):
                    if hit:
                        least = True
                        for o in ms:
                            least = (m <= o) & least
                        good = least | good
            else:
                good = False
                for m, hit in zip(ms, hits):
                    least = hit
                    for o in ms:
                        least = (m <= o) & least
                    good = least | good
            ctx.check(good, "decision on a survivor of least metric")
    return setup, run


def stream_clean(name, tau, T, soft=False):
    """Without noise the input comes back, delayed by the traceback length."""
    def setup():
        return small(name),

    def run(ctx, cc):
        k, n, s = cc.num_input_bits, cc.num_output_bits, cc.degree
        s0 = ctx.fix(ctx.int("state", 0, 2 ** s - 1))
        u = ctx.bits("u", k * T)
        v, _ = cc.encode_with_state(u, np.array([s0 >> i & 1 for i in range(s)]))
        dec = komm.ViterbiStreamDecoder(cc, traceback_length=tau, state=s0, input_type="soft" if soft else "hard")
        out = dec.decode(v if not soft else 1 - 2 * v)
        ctx.observe("out", out)
        ctx.eq(out[k * tau:], u[:k * (T - tau)], "input delayed by the traceback length")
    return setup, run


def add15(name, f, *a, tier="quick", bounds="", **kw):
    setup, run = f(*a, **kw)
    P15.add(name, run, setup=setup, bounds=bounds, tier=tier)


for nm, h, mode, tier in [("5,7", 3, "dt", "quick"), ("5,7", 2, "zt", "quick"), ("5,7", 3, "zt", "thorough"), ("7,5fb", 3, "zt", "quick"), ("13,17", 2, "zt", "quick"),
                          ("1,3", 4, "zt", "quick"), ("3,4,6", 2, "dt", "quick"), ("low7,7,5", 2, "zt", "quick"), ("high", 2, "dt", "quick"), ("high", 2, "zt", "thorough"),
                          ("memoryless", 3, "zt", "quick"), ("memoryless", 3, "dt", "quick"), ("uncoded", 2, "dt", "quick"), ("uncoded", 2, "zt", "quick")]:
    full = {v: k for k, v in MODES.items()}[mode]
    add15(f"hard/{nm}/h{h}/{mode}", viterbi_hard, nm, h, full, free=(nm, mode) == ("uncoded", "zt"), tier=tier, bounds=f"code {nm}, {h} blocks, all received words")
for nm, h, mode, tier in [("1,3", 2, "zt", "quick"), ("1,3", 2, "dt", "quick"), ("5,7", 2, "dt", "quick"), ("5,7", 1, "zt", "quick"), ("7,5fb", 2, "zt", "thorough"), ("uncoded", 1, "dt", "quick"),
                          ("memoryless", 2, "zt", "quick"), ("high", 1, "zt", "thorough")]:
    full = {v: k for k, v in MODES.items()}[mode]
    add15(f"soft/{nm}/h{h}/{mode}", viterbi_soft, nm, h, full, tier=tier, bounds=f"code {nm}, {h} blocks, all sample vectors in [-8,8]")
for nm, h, mode in [("1,3", 2, "zero-termination"), ("5,7", 2, "direct-truncation"), ("high", 2, "direct-truncation")]:
    add15(f"batch/{nm}/{MODES[mode]}", viterbi_batch, nm, h, mode, bounds=f"code {nm}, {h} blocks, all pairs of words")
P15.add("tail-biting", tailbiting, bounds="-")
for nm, tau, T, tier in [("1,3", 1, 4, "quick"), ("1,3", 2, 4, "quick"), ("1,3", 2, 5, "thorough"), ("5,7", 2, 4, "quick"), ("5,7", 4, 6, "thorough"), ("7,5fb", 3, 4, "quick"), ("high", 1, 2, "quick"), ("uncoded", 1, 2, "quick"), ("memoryless", 1, 3, "quick")]:
    add15(f"stream/best/{nm}/{tau}/{T}", stream_best, nm, tau, T, tier=tier, bounds=f"code {nm}, traceback {tau}, all {T}-block words")
    add15(f"stream/chunks/{nm}/{tau}/{T}", stream_best, nm, tau, T, chunk=[1, T - 1] if T > 2 else [1], tier=tier, bounds=f"code {nm}, traceback {tau}, all {T}-block words in chunks")
add15("stream/best/5,7/1/state3", stream_best, "5,7", 1, 3, s0=3, bounds="code 5,7, traceback 1, all 3-block words, initial state 3")
for nm, tau, T in [("1,3", 1, 4), ("5,7", 1, 4), ("5,7", 3, 6), ("7,5fb", 2, 5), ("13,17", 2, 5), ("low7,7,5", 2, 5), ("high", 1, 3), ("3,4,6", 1, 3), ("uncoded", 1, 3)]:
    add15(f"stream/clean/{nm}/{tau}", stream_clean, nm, tau, T, bounds=f"code {nm}, traceback {tau}, all inputs of {T} blocks, all initial states")
    add15(f"stream/clean-soft/{nm}/{tau}", stream_clean, nm, tau, T, soft=True, bounds=f"code {nm}, traceback {tau}, all inputs of {T} blocks, all initial states")


# ------------------------------------------------------------------ C16
P16 = prop("C16")


def table(ctx, name, m, n, top):
    return ctx.ints(name, m * n, 0, top).reshape((m, n))


def at(rows, i, x=None):
    """rows[i] (or rows[i][x]) by cases."""
    r = 0
    for a, row in enumerate(rows):
        v = row if x is None else at(row, x)
        r = r + v * (i == a)
    return r


def plain_rows(t):
    return [[int_of(x) for x in r] for r in t]


def mealy_process(S, X, T):
    def run(ctx):
        t, o = table(ctx, "t", S, X, S - 1), table(ctx, "o", S, X, 3)
        m = komm.MealyMachine(t, o)
        ctx.check((m.num_states, m.num_input_symbols) == (S, X), "sizes")
        tr, out = plain_rows(t), plain_rows(o)
        big = 0
        for r in out:
            for y in r:
                big = y * (y > big) + big * (y <= big)
        ctx.check(m.num_output_symbols == big + 1, "number of outputs")
        x = ctx.ints("x", T, 0, X - 1)
        s = s0 = ctx.int("s", 0, S - 1)
        y, sf = m.process(x, s0)
        ctx.observe("y", y)
        ctx.check(y.shape == (T,), "one output per input")
        for i in range(T):
            ctx.check(int_of(y[i]) == at(out, s, int_of(x[i])), "output of the transition taken")
            s = at(tr, s, int_of(x[i]))
        ctx.check(sf == s, "final state")
        a, sa = m.process(x[:T // 2], s0)
        b, sb = m.process(x[T // 2:], sa)
        ctx.check(sb == sf, "processing resumes from the final state")
        ctx.eq(np.concatenate([a, b]), y, "outputs do not depend on the cut")
    return run


def moore_process(S, X, T):
    def run(ctx):
        t, o = table(ctx, "t", S, X, S - 1), ctx.ints("o", S, 0, 3)
        m = komm.MooreMachine(t, o)
        ctx.check((m.num_states, m.num_input_symbols) == (S, X), "sizes")
        tr, out = plain_rows(t), [int_of(y) for y in o]
        big = 0
        for y in out:
            big = y * (y > big) + big * (y <= big)
        ctx.check(m.num_output_symbols == big + 1, "number of outputs")
        x = ctx.ints("x", T, 0, X - 1)
        s = s0 = ctx.int("s", 0, S - 1)
        y, sf = m.process(x, s0)
        ctx.observe("y", y)
        ctx.check(y.shape == (T,), "one output per input")
        for i in range(T):
            s = at(tr, s, int_of(x[i]))
            ctx.check(int_of(y[i]) == at(out, s), "output of the state reached")
        ctx.check(sf == s, "final state")
    return run


def edges(S, X):
    def run(ctx):
        t, o = table(ctx, "t", S, X, S - 1), table(ctx, "o", S, X, 3)
        m = komm.MealyMachine(t, o)
        ie, oe = m.input_edges, m.output_edges
        ctx.observe("ie", ie)
        ctx.check((tuple(ie.shape), tuple(oe.shape)) == ((S, S), (S, S)), "shapes")
        tr, out = plain_rows(t), plain_rows(o)
        for s in range(S):
            for f in range(S):
                x, y = int_of(ie[s, f]), int_of(oe[s, f])
                none, ok = True, False
                for a in range(X):
                    hit = tr[s][a] == f
                    none = (tr[s][a] != f) & none
                    ok = (hit & (x == a) & (y == out[s][a])) | ok
                ctx.check(((x == -1) & (y == -1) & none) | ok, "edge labels")
    return run


def viterbi_general(S, X, T, init):
    """Arbitrary metrics for every step and edge."""
    def run(ctx):
        t = ctx.fixed([ctx.int(f"t{i}", 0, S - 1) for i in range(S * X)]).reshape((S, X))
        m = komm.MealyMachine(t, np.arange(S * X).reshape((S, X)))
        w = [[ctx.real(f"w{i}_{e}", -4, 4) for e in range(S * X)] for i in range(T)]
        inf = float("inf")
        if init == "given":
            w0 = [ctx.real(f"i{s}", -4, 4) for s in range(S)]
            xs, ms = m.viterbi(range(T), lambda y, z: w[int(z)][int(y)], ctx.array(w0, "f"))
        elif init == "default":
            w0 = [0] * S
            xs, ms = m.viterbi(range(T), lambda y, z: w[int(z)][int(y)])
        else:
            w0 = [0] + [inf] * (S - 1)
            xs, ms = m.viterbi(range(T), lambda y, z: w[int(z)][int(y)], np.array(w0, dtype=float))
        ctx.observe("m", ms)
        ctx.check((tuple(xs.shape), tuple(ms.shape)) == ((T, S), (S,)), "shapes")
        paths = [[] for _ in range(S)]
        for s in range(S):
            if w0[s] is inf:
                continue
            for x in itertools.product(range(X), repeat=T):
                c, q = w0[s], s
                for i, a in enumerate(x):
                    c = c + w[i][q * X + a]
                    q = int(t[q, a])
                paths[q].append((x, c))
        for f in range(S):
            if not paths[f]:
                ctx.check(bool(ms[f] == inf), "unreachable states have infinite metric")
                continue
            got = tuple(int(ctx.fix(int_of(xs[i, f]))) for i in range(T))
            ok = False
            for x, c in paths[f]:
                ctx.check(ms[f] <= c, "no path has a smaller metric")
                if x == got:
                    ok = (ms[f] == c) | ok
            ctx.check(ok, "the returned inputs attain the metric")
    return run


P16.add("mealy/process/3,2", mealy_process(3, 2, 4), bounds="all machines of 3 states, 2 inputs, outputs < 4; all inputs of length 4")
P16.add("mealy/process/4,3", mealy_process(4, 3, 5), bounds="all machines of 4 states, 3 inputs; all inputs of length 5", tier="thorough")
P16.add("moore/process/3,2", moore_process(3, 2, 4), bounds="all machines of 3 states, 2 inputs, outputs < 4; all inputs of length 4")
P16.add("moore/process/4,3", moore_process(4, 3, 5), bounds="all machines of 4 states, 3 inputs; all inputs of length 5", tier="thorough")
for T in (0, 1):
    P16.add(f"mealy/process/4,2/{T}", mealy_process(4, 2, T), bounds=f"all machines of 4 states, 2 inputs; all inputs of length {T}")
    P16.add(f"moore/process/4,2/{T}", moore_process(4, 2, T), bounds=f"all machines of 4 states, 2 inputs; all inputs of length {T}")
P16.add("mealy/edges/2,2", edges(2, 2), bounds="all machines of 2 states, 2 inputs")
P16.add("mealy/edges/3,2", edges(3, 2), bounds="all machines of 3 states, 2 inputs")
P16.add("mealy/edges/3,3", edges(3, 3), bounds="all machines of 3 states, 3 inputs", tier="thorough")
for init in ("given", "default", "zero"):
    P16.add(f"mealy/viterbi/2,2,2/{init}", viterbi_general(2, 2, 2, init), bounds="all machines of 2 states and 2 inputs, all edge metrics in [-4,4] for 2 steps")
P16.add("mealy/viterbi/2,2,3/zero", viterbi_general(2, 2, 3, "zero"), bounds="all machines of 2 states and 2 inputs, all edge metrics in [-4,4] for 3 steps", tier="thorough")
P16.add("mealy/viterbi/1,3,2/zero", viterbi_general(1, 3, 2, "zero"), bounds="one state, 3 parallel edges, all edge metrics in [-4,4] for 2 steps")


def zero_cycle(fsm):
    """Is there a cycle of zero-output transitions with a nonzero input?"""
    S, X = np.asarray(fsm.transitions).shape
    reach = [[False] * S for _ in range(S)]
    E = [(s, int(fsm.transitions[s, x]), x) for s in range(S) for x in range(X) if int(fsm.outputs[s, x]) == 0]
    for s, f, _ in E:
        reach[s][f] = True
    for m in range(S):
        for a in range(S):
            for b in range(S):
                reach[a][b] = reach[a][b] or (reach[a][m] and reach[m][b])
    return any(x and (s == f or reach[f][s]) for s, f, x in E)


def full_rank(kind):
    if kind.cls == HIGH:
        return True
    if kind.k == 1:
        return any(kind.P[0])
    P = kind.P
    def mul(a, b):
        r = 0
        for i in range(b.bit_length()):
            if b >> i & 1:
                r ^= a << i
        return r
    return any(mul(P[0][a], P[1][b]) ^ mul(P[0][b], P[1][a]) for a, b in itertools.combinations(range(kind.n), 2))


def catastrophic(kind):
    """No input of infinite weight is encoded into finitely many ones, exactly when so reported."""
    def run(ctx):
        code, _ = kind.make(ctx)
        if not full_rank(kind):
            ctx.check(ctx.raises(ValueError, lambda: code.is_catastrophic()), "rank-deficient encoders are refused")
            return
        c = code.is_catastrophic()
        ctx.observe("c", c)
        if c:
            ctx.check(zero_cycle(code.finite_state_machine()), "there is a cycle of zero outputs and nonzero inputs")
            return
        s, k = code.degree, kind.k
        T = 2 ** s
        # every cycle of at most T transitions; shorter ones are padded with a loop at the zero state only if they pass it
        for L in range(1, T + 1):
            u = ctx.bits(f"u{L}_", k * L)
            st = ctx.bits(f"s{L}_", s)
            v, f = code.encode_with_state(u, st)
            cyc = True
            for a, b in zip(f, st):
                cyc = (int_of(a) == int_of(b)) & cyc
            for x in v:
                cyc = (int_of(x) == 0) & cyc
            quiet = True
            for x in u:
                quiet = (int_of(x) == 0) & quiet
            ctx.check(quiet | (cyc == False), "cycles of zero outputs have zero inputs")  # noqa: E712
    return run


def least_path(fsm, top=40):
    """Least weight of a path from zero to zero with a nonzero output (breadth-first over weights)."""
    S, X = np.asarray(fsm.transitions).shape
    best = {}
    front = [(0, 0)]
    seen = set()
    while front:
        front.sort()
        w, s = front.pop(0)
        if (w, s) in seen or w > top:
            continue
        seen.add((w, s))
        if s == 0 and w > 0:
            return w
        for x in range(X):
            front.append((w + bin(int(fsm.outputs[s, x])).count("1"), int(fsm.transitions[s, x])))
    return None


def distance(kind, T):
    """Free distance of non-catastrophic encoders."""
    def run(ctx):
        code, _ = kind.make(ctx)
        if not full_rank(kind):
            return
        fsm = code.finite_state_machine()
        if zero_cycle(fsm):
            return
        d = code.free_distance()
        ctx.observe("d", d)
        u = ctx.bits("u", kind.k * T)
        s = code.degree
        v, f = code.encode_with_state(u, np.zeros(s, dtype=int))
        some, back = False, True
        for x in v:
            some = (int_of(x) == 1) | some
        for x in f:
            back = (int_of(x) == 0) & back
        ctx.check((weight(v) >= d) | (some == False) | (back == False), "no codeword is lighter")  # noqa: E712
        ctx.check(least_path(fsm) == d, "attained")
    return run


for kind, tier in [(Fixed(FF, 1, 2, 2), "quick"), (Fixed(FF, 1, 2, 1, True), "quick"), (Fixed(FF, 1, 2, 2, True), "quick"), (Fixed(FF, 2, 2, 1), "quick"),
                   (Fixed(LOW, 1, 2, 3), "quick"), (Fixed(LOW, 1, 3, 2), "quick"), (Fixed(HIGH, 1, 2, 2), "quick"), (Fixed(HIGH, 2, 3, 1), "quick"),
                   (Fixed(FF, 2, 2, 1, True), "thorough"), (Fixed(FF, 2, 3, 1), "thorough"), (Fixed(LOW, 1, 3, 3), "thorough"), (Fixed(HIGH, 2, 3, 2), "thorough")]:
    nm = f"{ {FF: 'ff', LOW: 'low', HIGH: 'high'}[kind.cls]}/{kind.n},{kind.k},{kind.nu}{'fb' if kind.fb else ''}"
    P16.add(f"catastrophic/{nm}", catastrophic(kind), bounds=f"all polynomials of degree <= {kind.nu}, all cycles of the state diagram", tier=tier)
    P16.add(f"distance/{nm}", distance(kind, 6 if kind.k == 1 else 4), bounds=f"all non-catastrophic encoders of degree <= {kind.nu}, all inputs of {6 if kind.k == 1 else 4} blocks", tier=tier)
