"""C29-C30: soft outputs are exact posteriors (sums of exponentials, symbolically)."""
import itertools

import numpy as np

import komm
from symex.reg import prop

from props.conv import small

P29 = prop("C29")
P30 = prop("C30")

P29.assumes += ["real arithmetic stands in for floating point; exp and log are the exact functions (no overflow, no rounding)",
                "the scaling by the largest exponent is taken at one of the exponents: any scaling must cancel"]
P30.assumes += list(P29.assumes)

MACHINES = [  # transitions, outputs
    ([[0]], [[0]]), ([[0, 0]], [[0, 1]]),
    ([[0, 1], [0, 1]], [[0, 1], [2, 3]]), ([[0, 1], [1, 0]], [[0, 1], [1, 0]]), ([[0, 0], [1, 0]], [[0, 1], [2, 0]]),
    ([[1, 1], [0, 0]], [[0, 1], [0, 1]]), ([[0, 1, 1], [1, 0, 0]], [[0, 1, 2], [2, 1, 0]]),
    ([[0, 2], [0, 2], [1, 3], [1, 3]], [[0, 3], [3, 0], [1, 2], [2, 1]]),
    ([[1, 2], [2, 0], [0, 1]], [[0, 1], [1, 2], [2, 0]]), ([[1], [2], [0]], [[0], [1], [0]]),
]


def forward_backward(which, L, kind):
    """Posteriors of the inputs, by summing over all paths."""
    def run(ctx):
        ctx.exact_logs()
        T, O = MACHINES[which]
        S, X, Y = len(T), len(T[0]), 1 + max(max(r) for r in O)
        z = ctx.reals("z", L, Y, lo=-3, hi=3)
        machine = komm.MealyMachine(T, O)
        kw, prior, first, last = {}, np.ones((L, X)), np.ones(S), np.ones(S)
        if kind in ("priors", "all"):
            prior = ctx.reals("p", L, X, lo=0.125, hi=2)
            kw["input_priors"] = prior
        if kind in ("ends", "all"):
            first = np.array([[1, 0, 2, 1][s] / 4 for s in range(S)])
            last = np.array([[1, 2, 0, 1][s] / 4 for s in range(S)])
            kw.update(initial_state_distribution=first, final_state_distribution=last)
        if kind == "ends2":
            first, last = ctx.reals("a", S, lo=0.125, hi=2), ctx.reals("b", S, lo=0.125, hi=2)
            kw.update(initial_state_distribution=first, final_state_distribution=last)
        got = machine.forward_backward(z, lambda y, obs: obs[y], **kw)
        total = [[0] * X for _ in range(L)]
        for s0 in range(S):
            for xs in itertools.product(range(X), repeat=L):
                s, e, w = s0, 0, first[s0]
                for t, x in enumerate(xs):
                    e = e + z[t][O[s][x]]
                    w = w * prior[t][x]
                    s = T[s][x]
                w = ctx.exp(e) * (w * last[s])
                for t, x in enumerate(xs):
                    total[t][x] = total[t][x] + w
        for t in range(L):
            den = sum(total[t][1:], total[t][0])
            for x in range(X):
                ctx.identity(got[t][x], total[t][x] / den, "posterior of an input")
    return run


def bcjr(name, h, mode):
    def setup():
        code = komm.TerminatedConvolutionalCode(small(name), h, mode)
        return code, [list(map(int, c)) for c in code.codewords()], [list(map(int, u)) for u in
                      itertools.product((0, 1), repeat=code.dimension)]

    def run(ctx, code, _, messages):
        ctx.exact_logs()
        n, k = code.length, code.dimension
        z = ctx.reals("z", n, lo=-4, hi=4)
        soft = komm.BCJRDecoder(code)
        got = soft.decode(z)
        up, down = [0] * k, [0] * k
        for u in messages:
            c = code.encode(u)
            e = 0
            for b, v in zip(c, z):
                e = e + (0.5 - int(b)) * v
            w = ctx.exp(e)
            for i, b in enumerate(u):
                if b:
                    down[i] = down[i] + w
                else:
                    up[i] = up[i] + w
        for i in range(k):
            ctx.identity(ctx.exp(got[i]), up[i] / down[i], "ratio of the sums over codewords")
        hard = komm.BCJRDecoder(code, output_type="hard").decode(z)
        ctx.eq(hard, [1 * (g < 0) for g in got], "hard output")
        two = soft.decode(ctx.array(list(z) + list(z)[::-1], "f"))
        for i in range(k):
            ctx.identity(ctx.exp(two[i]), up[i] / down[i], "block by block")
    return setup, run


def posteriors(make, M, prior, noise, blocks):
    def setup():
        return (make(),)

    def run(ctx, const):
        ctx.exact_logs()
        m = np.asarray(const.matrix)
        N, cx = m.shape[1], np.iscomplexobj(m)
        r = ctx.reals("r", blocks * N, lo=-2, hi=2)
        y = r
        if cx:
            im = ctx.reals("s", blocks * N, lo=-2, hi=2)
            y = ctx.array([a + 1j * b for a, b in zip(r, im)], "c")
        p = None
        if prior == "some":
            p = np.array([1 + (3 * i) % 4 for i in range(M)], dtype=float)
            while int(p.sum()) & int(p.sum() - 1):
                p[0] += 1
            p = p / p.sum()
        got = const.posteriors(y, noise, p) if p is not None else const.posteriors(y, noise)
        ctx.check(tuple(got.shape) == (blocks * M,), "shape")
        for b in range(blocks):
            ws = []
            for i in range(M):
                d = 0
                for j in range(N):
                    x = m[i][j]
                    v = r[b * N + j] - float(x.real)
                    d = d + v * v
                    if cx:
                        v = im[b * N + j] - float(x.imag)
                        d = d + v * v
                ws.append(ctx.exp(-d / (noise if cx else 2 * noise)) * (1 if p is None else float(p[i])))
            den = sum(ws[1:], ws[0])
            for i in range(M):
                ctx.identity(got[b * M + i], ws[i] / den, "posterior of a symbol")
        if blocks == 2:
            two = const.posteriors(y.reshape((2, N)), noise)
            ctx.check(tuple(two.shape) == (2, M), "shape of rows")
            for b in range(2):
                for i in range(M):
                    ctx.identity(two[b][i], got[b * M + i], "rows by themselves")
    return setup, run


def marginal(make, blocks):
    def setup():
        return (make(),)

    def run(ctx, lab):
        ctx.exact_logs()
        M, n = lab.cardinality, lab.num_bits
        w = ctx.reals("w", blocks * M, lo=0.0625, hi=4)
        got = lab.marginalize(w)
        ctx.check(tuple(got.shape) == (blocks * n,), "shape")
        for b in range(blocks):
            for j in range(n):
                s = [0, 0]
                for i in range(M):
                    v = int(lab.matrix[i][j])
                    s[v] = s[v] + w[b * M + i] * ctx.exp(0.0)
                ctx.identity(ctx.exp(got[b * n + j]), s[0] / s[1], "ratio of the marginals")
        if blocks == 2:
            two = lab.marginalize(w.reshape((2, M)))
            ctx.check(tuple(two.shape) == (2, n), "shape of rows")
            for b in range(2):
                for j in range(n):
                    ctx.identity(ctx.exp(two[b][j]), ctx.exp(got[b * n + j]), "rows by themselves")
    return setup, run


def demodulate(make, label, M, noise):
    """Posteriors and marginals in a row: soft demodulation."""
    def setup():
        return make(), label()

    def run(ctx, const, lab):
        ctx.exact_logs()
        m = np.asarray(const.matrix)
        cx = np.iscomplexobj(m)
        r = ctx.real("r", -2, 2)
        im = ctx.real("s", -2, 2) if cx else 0
        y = ctx.array([r + 1j * im], "c") if cx else ctx.array([r], "f")
        got = lab.marginalize(const.posteriors(y, noise))
        for j in range(lab.num_bits):
            s = [0, 0]
            for i in range(M):
                a, b = r - float(m[i][0].real), im - float(m[i][0].imag)
                v = int(lab.matrix[i][j])
                s[v] = s[v] + ctx.exp(-(a * a + b * b) / (noise if cx else 2 * noise))
            ctx.identity(ctx.exp(got[j]), s[0] / s[1], "ratio of the likelihoods")
    return setup, run


def add30(name, sr, **kw):
    P30.add(name, sr[1], setup=sr[0], **kw)


for i, (T, _) in enumerate(MACHINES):
    for kind in ("plain", "priors", "ends", "all", "ends2"):
        if kind == "all" and i == 9:
            continue
        for L in (1, 2, 3):
            P29.add(f"forward_backward/{i}/{kind}/{L}", forward_backward(i, L, kind), cost=L * len(T),
                    bounds=f"machine {i} ({len(T)} states), {L} steps, every metric of every output in every step, {kind}")
for nm, hs in (("1,3", (1, 2, 4)), ("5,7", (1, 2, 3)), ("13,17", (2,))):
    for h in hs:
        for mode in ("zero-termination", "direct-truncation"):
            s_, r_ = bcjr(nm, h, mode)
            P29.add(f"bcjr/{nm}/{h}/{mode[:4]}", r_, setup=s_, cost=5 * h, bounds=f"code {nm}, {h} blocks, {mode}, every vector of L-values")

CONST = [("pam2", lambda: komm.PAMConstellation(2, 2.0), 2), ("pam4", lambda: komm.PAMConstellation(4, 1.5), 4),
         ("ask3", lambda: komm.ASKConstellation(3, 2.0, 0.0), 3), ("qam4", lambda: komm.QAMConstellation((2, 2), (2.0, 2.0), 0.0), 4),
         ("qam8", lambda: komm.QAMConstellation((4, 2), (2.0, 1.0), 0.0), 8), ("cross", lambda: komm.CrossQAMConstellation(32, 2.0, 0.0), 32),
         ("orth2", lambda: komm.OrthogonalConstellation(2, 1.0), 2), ("orth4", lambda: komm.OrthogonalConstellation(4, 2.0), 4),
         ("biorth4", lambda: komm.BiorthogonalConstellation(4, 1.0), 4), ("one", lambda: komm.Constellation([[0.5]]), 1),
         ("plane", lambda: komm.Constellation([[0.0, 0.5], [1.0, -1.0], [0.25, 2.0]]), 3),
         ("cplane", lambda: komm.Constellation([[0.0, 0.5j], [1.0, -1.0 + 1j]]), 2)]
for nm, mk, M in CONST:
    for prior in (None, "some"):
        for noise in (0.5, 2.0):
            add30(f"posteriors/{nm}/{prior or 'equal'}/{noise}", posteriors(mk, M, prior, noise, 1), cost=M,
                    bounds=f"{nm}, {M} symbols, every received point, noise power {noise}")
    add30(f"posteriors/{nm}/blocks", posteriors(mk, M, None, 1.0, 2), cost=2 * M, bounds=f"{nm}, two received points")
LAB = [("nat1", lambda: komm.NaturalLabeling(1)), ("nat2", lambda: komm.NaturalLabeling(2)), ("nat3", lambda: komm.NaturalLabeling(3)),
       ("ref2", lambda: komm.ReflectedLabeling(2)), ("ref3", lambda: komm.ReflectedLabeling(3)),
       ("prod", lambda: komm.ProductLabeling(komm.ReflectedLabeling(1), komm.NaturalLabeling(2))),
       ("perm", lambda: komm.Labeling([[1, 0], [0, 1], [1, 1], [0, 0]]))]
for nm, mk in LAB:
    for blocks in (1, 2, 17, 40):
        add30(f"marginal/{nm}/{blocks}", marginal(mk, blocks), bounds=f"{nm}, every vector of {blocks} blocks of positive metrics", cost=2)
for nm, mk, lb, M in (("pam2", CONST[0][1], LAB[0][1], 2), ("pam4", CONST[1][1], LAB[3][1], 4), ("qam4", CONST[3][1], LAB[6][1], 4),
                      ("qam8", CONST[4][1], LAB[2][1], 8)):
    add30(f"demodulate/{nm}", demodulate(mk, lb, M, 0.5), bounds=f"{nm}, every received point", cost=5)
