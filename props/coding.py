"""C19 integer codes and word codes, C20 optimal codes, C21 Lempel-Ziv codes."""
import itertools

import numpy as np

import komm
from komm._lossless_coding.util import canonical_code
from symex.reg import prop

# ------------------------------------------------------------------ C19
P19 = prop("C19")


def lst(a):
    """The entries of an integer array, symbolic or not."""
    return [x if not isinstance(x, (np.generic,)) else x.item() for x in a]


def same_words(a, b):
    if len(a) != len(b):
        return False
    r = True
    for x, y in zip(a, b):
        r = r & (x == y)
    return r


def fib_words(top):
    """Zeckendorf: the words up to a length, by value, found from the definition."""
    f = [1, 2]
    while f[-1] <= top:
        f.append(f[-1] + f[-2])
    out = {}
    for k in range(1, len(f)):
        for bits in itertools.product([0, 1], repeat=k):
            if bits[-1] == 1 and all(a + b < 2 for a, b in zip(bits, bits[1:])):
                v = sum(x * y for x, y in zip(bits, f))
                out[v] = list(bits) + [1]
    return out


def int_roundtrip(name, top, n):
    low = 0 if name == "unary" else 1

    def setup():
        words = {v: [1] * v + [0] for v in range(top + 1)} if name == "unary" else fib_words(top)
        return (komm.UnaryCode() if name == "unary" else komm.FibonacciCode(), words)

    def run(ctx, code, words):
        x = ctx.ints("x", n, low, top)
        e = code.encode(x)
        vals = [ctx.fix(v) for v in x]
        ctx.eq(e, [b for v in vals for b in words[int(v)]], "the documented words, one after another")
        ctx.eq(code.decode(e), x, "decodes to the integers")
        ctx.check(len(code.encode([])) == 0, "nothing from nothing")
        ctx.check(len(code.decode([])) == 0, "nothing from nothing")
    return setup, run


def zeckendorf(v):
    f = [1, 2]
    while f[-1] <= v:
        f.append(f[-1] + f[-2])
    w = []
    for x in reversed(f[:-1]):
        w.append(1 if v >= x else 0)
        v -= x * w[-1]
    while w[0] == 0:
        del w[0]
    return w[::-1] + [1]


def fib_large(low, size):
    """A window of large integers."""
    def run(ctx):
        code = komm.FibonacciCode()
        x = ctx.int("x", 0, size - 1)
        v = low + int(ctx.fix(x))
        e = code.encode(ctx.array([v], "i"))
        ctx.eq(e, zeckendorf(v), "the documented word")
        ctx.eq(code.decode(e), [v], "decodes to the integer")
    return run


def fib_long(n):
    """Every word of n bits: the decoded integer is the sum of its Fibonacci numbers."""
    def run(ctx):
        code = komm.FibonacciCode()
        b = ctx.bits("b", n - 2)
        w = list(b) + [1]
        f = [1, 2]
        while len(f) < n:
            f.append(f[-1] + f[-2])
        for p, q in zip(w, w[1:]):
            ctx.assume((p & q) == 0)
        x = code.decode(ctx.array(w + [1], "i"))
        ctx.check(len(x) == 1, "one word")
        ctx.check(x[0] == sum(p * q for p, q in zip(w, f)), "the sum of the Fibonacci numbers")
    return run


def int_bits(name, n):
    """Every bit string: decoded exactly when it is made of words, and then encoding gives it back."""
    def setup():
        return (komm.UnaryCode() if name == "unary" else komm.FibonacciCode(),)

    def run(ctx, code):
        b = ctx.bits("b", n)
        ok, x = ctx.attempt(ValueError, lambda: code.decode(b))
        ctx.observe("accepted", ok)
        # complete: the string ends where a word ends
        if name == "unary":
            whole = b[n - 1] == 0
        else:
            inside, one, end = False, False, False
            for v in b:
                one_v = v == 1
                end = one & one_v
                one = one_v & (end == False)  # noqa: E712
            whole = end
        ctx.check(whole == ok, "accepted exactly when the last word is complete")
        if ok:
            ctx.eq(code.encode(x), b, "encoding gives the bits back")
    return setup, run


def int_invalid(name):
    def setup():
        return (komm.UnaryCode() if name == "unary" else komm.FibonacciCode(), 0 if name == "unary" else 1)

    def run(ctx, code, low):
        x = ctx.array([ctx.int(f"x{i}", -2, 3) for i in range(2)], "i")
        ok, e = ctx.attempt(ValueError, lambda: code.encode(x))
        ctx.check(((x[0] >= low) & (x[1] >= low)) == ok, "exactly the integers of the code are encoded")
        b = ctx.array([ctx.int(f"b{i}", -1, 2) for i in range(3)], "i")
        ok, x = ctx.attempt(ValueError, lambda: code.decode(b))
        if ok:
            for v in b:
                ctx.check((v == 0) | (v == 1), "only bits are decoded")
            ctx.eq(code.encode(x), b, "encoding gives the bits back")
    return setup, run


def oracle_prefix_free(words):
    r = True
    for a, b in itertools.permutations(range(len(words)), 2):
        if len(words[a]) <= len(words[b]):
            r = r & (same_words(words[a], words[b][:len(words[a])]) == False)  # noqa: E712
    return r


def oracle_parsable(words):
    """No two different sequences of words read the same: reachability of an empty
    remainder over the remainders (j, p) = words[j][p:]."""
    n = len(words)
    reach, bad = {}, False

    def lead(a, b):     # a is a prefix of b
        return same_words(a, b[:len(a)]) if len(a) <= len(b) else False
    for i, j in itertools.permutations(range(n), 2):
        c = lead(words[i], words[j])
        p = len(words[i])
        if p == len(words[j]):
            bad = bad | c
        elif p < len(words[j]):
            reach[j, p] = reach.get((j, p), False) | c
    states = [(j, p) for j in range(n) for p in range(1, len(words[j]))]
    for _ in range(len(states)):
        new = dict(reach)
        for j, p in states:
            r = reach.get((j, p), False)
            if r is False:
                continue
            rem = words[j][p:]
            for k in range(n):
                if len(words[k]) <= len(rem):
                    c = r & lead(words[k], rem)
                    if len(words[k]) == len(rem):
                        bad = bad | c
                    else:
                        s = (j, p + len(words[k]))
                        new[s] = new.get(s, False) | c
                else:
                    c = r & lead(rem, words[k])
                    s = (k, len(rem))
                    new[s] = new.get(s, False) | c
        reach = new
    return bad == False  # noqa: E712


def oracle_covering(words, card):
    """Every word as long as the longest starts with one of the words."""
    r = True
    for s in itertools.product(range(card), repeat=max(len(w) for w in words)):
        hit = False
        for w in words:
            hit = hit | same_words(w, s[:len(w)])
        r = r & hit
    return r


def symbolic_words(ctx, lens, card, lo=0):
    return [tuple(ctx.int(f"w{i}.{j}", lo, card - 1) for j in range(n)) for i, n in enumerate(lens)]


def fv_any(lens, card, n):
    """A fixed-to-variable code with any words of the given lengths."""
    def run(ctx):
        words = symbolic_words(ctx, lens, card)
        code = komm.FixedToVariableCode(len(lens), card, 1, {(i,): w for i, w in enumerate(words)})
        ctx.check(list(code.lengths) == list(lens), "lengths")
        ctx.check(abs(code.kraft_parameter() - sum(card ** -float(x) for x in lens)) < 1e-12, "Kraft sum")
        ud, pf = code.is_uniquely_decodable(), code.is_prefix_free()
        ctx.observe("properties", [ud, pf])
        ctx.check(oracle_parsable(words) == ud, "uniquely decodable exactly when no two messages read the same")
        ctx.check(oracle_prefix_free(words) == pf, "prefix free exactly when no word starts another")
        x = ctx.ints("x", n, 0, len(lens) - 1)
        ok, e = ctx.attempt(ValueError, lambda: code.encode(x))
        ctx.check(ok == ud, "encodes exactly when uniquely decodable")
        if not ok:
            ctx.check(ctx.raises(ValueError, lambda: code.decode([0])), "decoding refused")
            return
        ctx.eq(e, [b for v in x for b in words[int(ctx.fix(v))]], "concatenated words")
        if pf:
            ctx.eq(code.decode(e), x, "decodes to the message")
        else:
            ctx.check(ctx.raises(NotImplementedError, lambda: code.decode([0])), "decoding not offered")
    return run


def fv_constructor(block):
    """The direct constructor accepts a mapping exactly when it is one from all source blocks
    to words over the target alphabet that can be told apart at all."""
    def run(ctx):
        card = ctx.fix(ctx.int("target", 1, 3))
        src = ctx.fix(ctx.int("source", 1, 3))
        k = ctx.fix(ctx.int("block", 0, 2))
        keys = [tuple(ctx.int(f"k{i}.{j}", -1, 2) for j in range(block)) for i in range(4)]
        distinct = True
        for a in range(4):
            for b in range(a):
                distinct = distinct & (same_words(keys[a], keys[b]) == False)  # noqa: E712
        ctx.assume(distinct)
        words = [tuple(ctx.int(f"w{i}", -1, 3) for _ in range(1)) for i in range(4)]
        ok, code = ctx.attempt(ValueError, lambda: komm.FixedToVariableCode(src, card, k, dict(zip(keys, words))))
        ctx.observe("accepted", ok)
        good = card >= 2 and src >= 2 and k >= 1 and src ** k == 4 and k == block
        if good:
            for q in keys:
                for v in q:
                    good = good & (v >= 0) & (v < src)
            for (v,) in words:
                good = good & (v >= 0) & (v < card)
        ctx.check(good == ok, "accepted exactly when it maps every block to a word")
    return run


def empty_words(lens):
    """Words must not be empty: two messages of such a code can read the same."""
    def run(ctx):
        words = symbolic_words(ctx, lens, 2)
        ok, _ = ctx.attempt(ValueError, lambda: komm.FixedToVariableCode(
            len(lens), 2, 1, {(i,): w for i, w in enumerate(words)}))
        ctx.check(ok == (min(lens) > 0), "encoding mapping with an empty word refused")
        dom = list(itertools.product([0, 1], repeat=2))
        ok, _ = ctx.attempt(ValueError, lambda: komm.VariableToFixedCode(2, 2, 2, dict(zip(dom, words))))
        ctx.check(ok == (min(lens) > 0), "decoding mapping with an empty word refused")
        ok, _ = ctx.attempt(ValueError, lambda: komm.FixedToVariableCode.from_codewords(words))
        ones = sum(x for w in words for x in w)
        ctx.check(((ones > 0) == ok) | (min(lens) == 0), "list of non-empty words accepted")
        ctx.check((min(lens) > 0) | (ok == False), "list with an empty word refused")  # noqa: E712
    return run


def fv_mapping(src, k, words, n, card=2):
    """Words fixed, any message: and any received string."""
    def setup():
        return (komm.FixedToVariableCode.from_codewords(words, source_cardinality=src), words)

    def run(ctx, code, words):
        blocks = list(itertools.product(range(src), repeat=k))
        ctx.check((code.source_cardinality, code.target_cardinality, code.source_block_size, code.size) ==
                  (src, card, k, len(words)), "sizes")
        ctx.check(list(code.enc_mapping.items()) == list(zip(blocks, words)), "mapping, blocks in order")
        x = ctx.ints("x", n * k, 0, src - 1)
        e = code.encode(x)
        vals = [int(ctx.fix(v)) for v in x]
        want = [b for t in range(n) for b in words[blocks.index(tuple(vals[t * k:t * k + k]))]]
        ctx.eq(e, want, "blocks are replaced by words")
        ctx.eq(code.decode(e), x, "decodes to the message")
        for m in range(1, k):
            ctx.check(ctx.raises(ValueError, lambda: code.encode(x[:m])), "incomplete blocks refused")
    return setup, run


def fv_received(src, k, words, n, lo=0, hi=1):
    def setup():
        return (komm.FixedToVariableCode.from_codewords(words, source_cardinality=src),)

    def run(ctx, code):
        b = ctx.array([ctx.int(f"b{i}", lo, hi) for i in range(n)], "i")
        ok, x = ctx.attempt(ValueError, lambda: code.decode(b))
        ctx.observe("accepted", ok)
        # ends[i]: the first i symbols are words
        ends = [True] + [False] * n
        for i in range(n):
            for w in words:
                if i + len(w) <= n:
                    ends[i + len(w)] = ends[i + len(w)] | (ends[i] & same_words(w, b[i:i + len(w)]))
        ctx.check(ends[n] == ok, "decoded exactly when it is a sequence of words")
        if ok:
            ctx.eq(code.encode(x), b, "encoding gives it back")
    return setup, run


def fv_symbols(src, k, words):
    def setup():
        return (komm.FixedToVariableCode.from_codewords(words, source_cardinality=src),)

    def run(ctx, code):
        x = ctx.array([ctx.int(f"x{i}", -1, src) for i in range(2 * k)], "i")
        ok, e = ctx.attempt(ValueError, lambda: code.encode(x))
        good = True
        for v in x:
            good = good & (v >= 0) & (v < src)
        ctx.check(good == ok, "exactly the symbols of the source are encoded")
    return setup, run


def vf_any(lens, card, n, target=2):
    """A variable-to-fixed code with any source words of the given lengths."""
    def run(ctx):
        words = symbolic_words(ctx, lens, card)
        size = next(m for m in itertools.count(1) if target ** m >= len(lens))
        dom = list(itertools.product(range(target), repeat=size))[:len(lens)]
        code = komm.VariableToFixedCode(target, card, size, dict(zip(dom, words)))
        cov, ue, pf = code.is_fully_covering(), code.is_uniquely_encodable(), code.is_prefix_free()
        ctx.observe("properties", [cov, ue, pf])
        ctx.check(oracle_covering(words, card) == cov, "covering exactly when every long message starts with a word")
        ctx.check(oracle_parsable(words) == ue, "uniquely encodable exactly when no two parses read the same")
        ctx.check(oracle_prefix_free(words) == pf, "prefix free exactly when no word starts another")
        x = ctx.ints("x", n, 0, card - 1)
        if not (cov and ue):
            ctx.check(ctx.raises(ValueError, lambda: code.encode(x)), "encoding refused")
            ctx.check(ctx.raises(ValueError, lambda: code.decode([0] * size)), "decoding refused")
        elif not pf:
            ctx.check(ctx.raises(NotImplementedError, lambda: code.encode(x)), "encoding not offered")
        else:
            e = code.encode(x)
            ctx.check(len(e) % size == 0, "whole blocks")
            d = code.decode(e)
            ctx.check(len(d) >= n, "at least the message")
            ctx.eq(d[:n], x, "the message, possibly completed")
            ctx.check(len(d) - n < max(lens), "completed by less than a word")
    return run


def vf_fixed(words, n, target=2):
    def setup():
        return (komm.VariableToFixedCode.from_sourcewords(words, target_cardinality=target), words)

    def run(ctx, code, words):
        card = max(max(w) for w in words) + 1
        size = code.target_block_size
        ctx.check(target ** size >= len(words) > target ** (size - 1) or size == 1, "shortest blocks that suffice")
        dom = list(itertools.product(range(target), repeat=size))
        ctx.check(list(code.dec_mapping.items()) == list(zip(dom, words)), "mapping, blocks in order")
        x = ctx.ints("x", n, 0, card - 1)
        e = code.encode(x)
        d = code.decode(e)
        ctx.eq(d[:n], x, "the message, possibly completed")
        # as many blocks as a parse has words
        vals, i, want = [int(ctx.fix(v)) for v in x], 0, []
        while i < n:
            j = next(j for j, w in enumerate(words) if list(w[:n - i]) == vals[i:i + len(w)])
            want += dom[j]
            i += len(words[j])
        ctx.eq(e, want, "the blocks of the parse")
        y = ctx.array([ctx.int(f"y{i}", 0, target - 1) for i in range(2 * size)], "i")
        ok, s = ctx.attempt(ValueError, lambda: code.decode(y))
        known = True
        for t in range(2):
            v = 0
            for b in y[t * size:(t + 1) * size]:
                v = v * target + b
            known = known & (v < len(words))
        ctx.check(known == ok, "exactly the blocks in use are decoded")
        if ok:
            ctx.eq(code.encode(s), y, "encoding gives the blocks back")
        ctx.check(size == 1 or ctx.raises(ValueError, lambda: code.decode([0] * (size + 1))), "incomplete blocks refused")
        bad = ctx.array([ctx.int("z", -1, card)], "i")
        ok, _ = ctx.attempt(ValueError, lambda: code.encode(bad))
        ctx.check(((bad[0] >= 0) & (bad[0] < card)) == ok, "exactly the symbols of the source are encoded")
    return setup, run


def canonical(n, top, base):
    """Canonical codes from any lengths."""
    def run(ctx):
        ls = ctx.ints("l", n, -1, top)
        ok, words = ctx.attempt(ValueError, lambda: canonical_code(ls, base))
        ls = [int(ctx.fix(v)) for v in ls]
        good = min(ls) >= 0 and sum(float(base) ** -x for x in ls if x > 0) <= 1
        ctx.check(ok == good, "accepted exactly when the Kraft sum allows it")
        if not ok:
            return
        ctx.check([len(w) for w in words] == ls, "lengths as asked")
        ctx.check(all(0 <= s < base for w in words for s in w), "symbols in range")
        used = [w for w in words if w]
        for a, b in itertools.permutations(used, 2):
            ctx.check(a != b[:len(a)], "prefix free")
        order = sorted(range(n), key=lambda i: (ls[i], i))
        order = [words[i] for i in order if ls[i]]
        ctx.check(all(a < b for a, b in zip(order, order[1:])), "in order of length and index")
        if order:
            ctx.check(not any(order[0]), "starting at zero")
    return run


def from_lengths(n, top, src, card):
    def run(ctx):
        ls = ctx.ints("l", n, 0, top)
        ok, code = ctx.attempt(ValueError, lambda: komm.FixedToVariableCode.from_lengths(
            ls, source_cardinality=src, target_cardinality=card))
        ls = [int(ctx.fix(v)) for v in ls]
        k = next((k for k in range(1, 5) if src ** k == n), None)
        good = k is not None and min(ls) >= 1 and sum(float(card) ** -x for x in ls) <= 1
        ctx.check(ok == good, "accepted exactly when a code with these lengths exists")
        if ok:
            ctx.check(list(code.lengths) == ls and code.source_block_size == k, "lengths in order")
            ctx.check(bool(code.is_prefix_free()) and bool(code.is_uniquely_decodable()), "prefix free")
    return run


def rates(kind):
    def run(ctx):
        p = ctx.reals("p", 2, lo=0, hi=1)
        ctx.assume(sum(p) == 1)
        if kind == "fv":
            words = [(0,), (1, 0), (1, 1, 0), (1, 1, 1)]
            code = komm.FixedToVariableCode.from_codewords(words, source_cardinality=2)
            want = sum(len(w) * p[a] * p[b] for w, (a, b) in zip(words, itertools.product(range(2), repeat=2))) / 2
            ctx.check(abs(code.rate(p) - want) < 1e-9, "expected word length per symbol")
        else:
            words = [(0, 0, 0), (0, 0, 1), (0, 1), (1,)]
            code = komm.VariableToFixedCode.from_sourcewords(words)
            m = sum(len(w) * int_prod([p[s] for s in w]) for w in words)
            ctx.check(abs(code.rate(p) * m - 2) < 1e-9, "block size over expected source word length")
    return run


def int_prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


for nm, top, n in (("unary", 8, 1), ("unary", 3, 3), ("fibonacci", 34, 1), ("fibonacci", 8, 2), ("fibonacci", 3, 3)):
    s, r = int_roundtrip(nm, top, n)
    P19.add(f"integers/{nm}/{top}x{n}", r, setup=s, bounds=f"every {n} integers up to {top}", cost=2)
for low, size in ((85, 8), (984, 6), (10943, 4), (46364, 8), (121390, 4), (2 ** 31 - 2, 4), (10 ** 12, 4)):
    P19.add(f"integers/fibonacci/{low}+{size}", fib_large(low, size), bounds=f"{size} integers from {low} on", cost=2)
for n in (6, 12, 14):
    P19.add(f"long/fibonacci/{n}", fib_long(n), bounds=f"every word of {n} bits", cost=3)
for nm in ("unary", "fibonacci"):
    for n in (1, 2, 3, 5, 8, 11):
        s, r = int_bits(nm, n)
        P19.add(f"bits/{nm}/{n}", r, setup=s, bounds=f"every {n} bits", cost=n, tier="thorough" if n > 8 else "quick")
    s, r = int_invalid(nm)
    P19.add(f"invalid/{nm}", r, setup=s, bounds="integers in [-2, 3], symbols in [-1, 2]", cost=2)
for lens, card, n in (((1, 1), 2, 3), ((1, 2), 2, 3), ((1, 2, 2), 2, 2), ((2, 2, 2), 2, 2), ((1, 1, 2), 3, 2),
                      ((1, 2, 3), 2, 2), ((1, 3), 2, 3), ((2, 3), 2, 3), ((3, 3), 2, 2), ((2, 4), 2, 2)):
    P19.add(f"words/{card}/{''.join(map(str, lens))}", fv_any(lens, card, n),
            bounds=f"all words of lengths {lens} over {card} symbols, every message of {n}", cost=sum(lens) * 2)
for lens, card, n in (((1, 2, 2, 3), 2, 1), ((2, 2, 3, 3), 2, 1), ((1, 3, 3), 2, 2), ((2, 3, 3), 2, 1), ((3, 5), 2, 1)):
    P19.add(f"words/{card}/{''.join(map(str, lens))}", fv_any(lens, card, n), tier="thorough",
            bounds=f"all words of lengths {lens} over {card} symbols, every message of {n}", cost=60)
for lens in ((1, 2), (0, 1), (1, 0), (0, 2, 1), (2, 0, 2)):
    P19.add(f"empty/{''.join(map(str, lens))}", empty_words(lens), bounds=f"all words of lengths {lens}", cost=2)
for b in (1, 2):
    P19.add(f"mapping/{b}", fv_constructor(b), bounds="four keys with symbols in [-1, 2], target words in [-1, 3]", cost=8)
FV = [(2, 1, [(0,), (1,)], 3), (2, 2, [(0,), (1, 0), (1, 1, 0), (1, 1, 1)], 2), (4, 1, [(1, 1), (0, 1), (1, 0), (0, 0)], 2),
      (3, 1, [(0,), (1, 0), (1, 1)], 3), (3, 1, [(1,), (0, 1), (0, 0, 1)], 3), (2, 3, [tuple(map(int, f"{i:03b}"[::-1]))
                                                                                     for i in range(8)], 2)]
for t, (src, k, w, n) in enumerate(FV):
    s, r = fv_mapping(src, k, w, n)
    P19.add(f"encode/{t}", r, setup=s, bounds=f"every message of {n} blocks", cost=4)
    s, r = fv_received(src, k, w, 6)
    P19.add(f"received/{t}", r, setup=s, bounds="every 6 bits", cost=4)
    s, r = fv_received(src, k, w, 3, -1, 2)
    P19.add(f"received/bad/{t}", r, setup=s, bounds="every 3 symbols in [-1, 2]", cost=4)
    s, r = fv_symbols(src, k, w)
    P19.add(f"symbols/{t}", r, setup=s, bounds="symbols in [-1, cardinality]", cost=4)
s, r = fv_mapping(3, 1, [(0,), (1,), (2,)], 2, card=3)
P19.add("encode/ternary", r, setup=s, bounds="every message of 2 blocks", cost=4)
for lens, card, n in (((1, 1), 2, 3), ((1, 2, 2), 2, 3), ((2, 2, 1), 2, 3), ((2, 2, 2, 2), 2, 3), ((1, 1, 1), 3, 2), ((1, 2), 2, 2)):
    P19.add(f"sourcewords/{card}/{''.join(map(str, lens))}", vf_any(lens, card, n),
            bounds=f"all source words of lengths {lens} over {card} symbols, every message of {n}", cost=sum(lens) * 3)
for lens, card, n in (((1, 2, 3, 3), 2, 4), ((3, 3, 2, 1), 2, 3), ((1, 1, 2, 2, 2), 3, 2), ((1, 2, 2, 1), 2, 3)):
    P19.add(f"sourcewords/{card}/{''.join(map(str, lens))}", vf_any(lens, card, n), tier="thorough",
            bounds=f"all source words of lengths {lens} over {card} symbols, every message of {n}", cost=60)
for t, (w, n, tg) in enumerate(([[(0, 0, 0), (0, 0, 1), (0, 1), (1,)], 5, 2], [[(0,), (1,), (2,)], 3, 2], [[(1,), (0, 0), (0, 1)], 4, 2],
                                [[(0, 0), (0, 1), (0, 2), (1,), (2,)], 3, 3], [[(0, 0), (0, 1), (1, 0), (1, 1)], 5, 2],
                                [[(0,), (1,)], 3, 3])):
    s, r = vf_fixed(w, n, tg)
    P19.add(f"parse/{t}", r, setup=s, bounds=f"every message of {n} symbols, every two blocks", cost=6)
for n, top, base in ((1, 3, 2), (2, 3, 2), (3, 3, 2), (4, 3, 2), (3, 3, 3)):
    P19.add(f"canonical/{n}.{top}.{base}", canonical(n, top, base), bounds=f"every {n} lengths in [-1, {top}]", cost=n * 3)
P19.add("canonical/5.4.2", canonical(5, 4, 2), bounds="every 5 lengths in [-1, 4]", cost=90, tier="thorough")
for n, top, src, card in ((2, 3, 2, 2), (4, 3, 2, 2), (3, 3, 3, 2), (3, 2, 2, 2), (3, 2, 3, 3), (4, 2, 4, 2)):
    P19.add(f"from-lengths/{n}.{top}.{src}.{card}", from_lengths(n, top, src, card), bounds=f"every {n} lengths up to {top}", cost=n * 2)
P19.add("rate/fv", rates("fv"), bounds="every binary source", cost=2)
P19.add("rate/vf", rates("vf"), bounds="every binary source", cost=2)

# ------------------------------------------------------------------ C20
P20 = prop("C20")
P20.assumes += ["exact real arithmetic: rounding can only swap symbols whose probabilities agree to 1e-9"]


def pmf_of(ctx, n, positive=False, at=None):
    """Any probabilities: all but one free, the other what is left."""
    q = list(ctx.reals("p", n - 1, lo=0, hi=1))
    last = 1 - sum(q)
    ctx.assume(last >= 0)
    q = q + [last] if at is None else q[:at] + [last] + q[at:]
    if positive:
        for v in q:
            ctx.assume(v > 1 / 64)
    return ctx.array(q, "f")


def profiles(n):
    """The lengths of the full binary trees with n leaves, in every order."""
    def rec(m):
        if m == 1:
            return {(0,)}
        return {tuple(sorted(x + 1 for x in a + b)) for k in range(1, m) for a in rec(k) for b in rec(m - k)}
    return sorted({q for m in rec(n) for q in itertools.permutations(m)})


def words_ok(ctx, code, n, k):
    """A prefix-free code whose lengths fill the Kraft inequality."""
    words = list(code.codewords)
    ctx.check(len(words) == n ** k and list(code.enc_mapping.keys()) == list(itertools.product(range(n), repeat=k)),
              "a word for every block")
    ctx.check(all(len(w) > 0 and set(w) <= {0, 1} for w in words), "non-empty binary words")
    for a, b in itertools.permutations(words, 2):
        ctx.check(a != b[:len(a)], "prefix free")
    ctx.check(bool(code.is_prefix_free()) and bool(code.is_uniquely_decodable()), "and says so")
    return words


def message(ctx, code, n, k):
    """Decoding undoes encoding (larger prefix-free codes: C19)."""
    if n ** k > 3:
        return
    x = ctx.ints("x", 2 * k, 0, n - 1)
    ctx.eq(code.decode(code.encode(x)), x, "decodes to the message")


def blocks_of(p, k):
    return [int_prod([p[s] for s in b]) for b in itertools.product(range(len(p)), repeat=k)]


def huffman(n, k, policy, assignment):
    def setup():
        return (profiles(n ** k),)

    def run(ctx, others):
        p = pmf_of(ctx, n)
        code = komm.HuffmanCode(p, k, policy=policy, assignment=assignment)
        words = words_ok(ctx, code, n, k)
        ls = [len(w) for w in words]
        ctx.check(list(code.lengths) == ls, "lengths")
        ctx.check(sum(2.0 ** -x for x in ls) == 1, "no word to spare")
        q = blocks_of(p, k)
        for m in others:
            if m != tuple(ls):
                d = sum((b - a) * v for a, b, v in zip(ls, m, q) if a != b)
                ctx.check(d >= 0, "no prefix-free code is shorter on average")
                if policy == "high":
                    v2 = sum((b * b - a * a) * v for a, b, v in zip(ls, m, q) if a != b)
                    ctx.check((d > 0) | (v2 >= 0), "the least variance among the shortest")
        if assignment == "canonical":
            ctx.check(words == canonical_code(ls), "canonical words")
        elif policy == "high":
            ctx.check(sum(w == (1,) * len(w) for w in words) == 1, "tree words")
        message(ctx, code, n, k)
    return setup, run


def huffman_tree_bits(n):
    """Bit 1 goes to the less probable of the nodes merged."""
    def run(ctx):
        p = pmf_of(ctx, n)
        words = list(komm.HuffmanCode(p).codewords)
        nodes = {w[:j] for w in words for j in range(len(w))}
        for t in nodes:
            s = [sum(v for v, w in zip(p, words) if w[:len(t) + 1] == t + (b,)) for b in (0, 1)]
            ctx.check(s[1] <= s[0], "bit 1 marks the less probable side")
    return run


def shannon(n, k):
    def run(ctx):
        p = pmf_of(ctx, n, positive=True)
        code = komm.ShannonCode(p, k)
        words = words_ok(ctx, code, n, k)
        for w, v in zip(words, blocks_of(p, k)):
            m = len(w)
            ctx.check(v >= 2.0 ** -m, "long enough")
            if m > 1:
                ctx.check(v < 2.0 ** (1 - m), "and no longer")
        ctx.check(words == canonical_code([len(w) for w in words]), "canonical words")
        message(ctx, code, n, k)
    return run


def shannon_dyadic(ctx):
    """Powers of two, where the length is at the edge of its bracket."""
    k = ctx.fix(ctx.int("k", 1, 45))
    p = [2.0 ** -k, 1 - 2.0 ** -k] if ctx.fix(ctx.bit("two")) else [2.0 ** -k] * 2 + [1 - 2.0 ** (1 - k)] * (k > 1)
    code = komm.ShannonCode(p)
    words = list(code.codewords)
    for w, v in zip(words, p):
        ctx.check(2.0 ** -len(w) <= v, "long enough")
        ctx.check(len(w) == 1 or v < 2.0 ** (1 - len(w)), "and no longer")
    ctx.check(sum(2.0 ** -len(w) for w in words) <= 1, "Kraft's inequality")


def shannon_zero(n):
    def run(ctx):
        p = pmf_of(ctx, n)
        for v in p:
            ctx.assume((v == 0) | (v > 1 / 64))
        ok, _ = ctx.attempt(ValueError, lambda: komm.ShannonCode(p))
        good = True
        for v in p:
            good = good & (v > 0)
        ctx.check(good == ok, "zero probabilities refused")
    return run


def fano(n, k):
    """Each group of symbols, most probable first, is split where the halves differ least."""
    def run(ctx):
        p = pmf_of(ctx, n)
        q = blocks_of(p, k)
        code = komm.FanoCode(p, k)
        words = words_ok(ctx, code, n, k)
        ls = [len(w) for w in words]
        ctx.check(sum(2.0 ** -x for x in ls) == 1, "no word to spare")
        ctx.check(words == canonical_code(ls), "canonical words")
        # an order by probability, and the splits, that explain the lengths
        order = list(range(len(q)))
        for i in range(len(order)):
            for j in range(len(order) - 1 - i):
                a, b = order[j], order[j + 1]
                if q[b] > q[a]:
                    order[j], order[j + 1] = b, a

        def cost(lo, m, hi):
            return abs(sum(q[t] for t in order[lo:m]) - sum(q[t] for t in order[m:hi]))

        def check(lo, hi, depth):
            if hi - lo == 1:
                return ls[order[lo]] == depth
            ok = False
            for m in range(lo + 1, hi):
                c = True
                for m2 in range(lo + 1, hi):
                    if m2 != m:
                        c = c & (cost(lo, m, hi) <= cost(lo, m2, hi))
                if c is False:
                    continue
                ok = ok | (c & check(lo, m, depth + 1) & check(m, hi, depth + 1))
            return ok
        tie = False
        for a, b in zip(order, order[1:]):
            tie = tie | (q[a] == q[b])
        ctx.check(tie | check(0, len(q), 0), "even splits")
        message(ctx, code, n, k)
    return run


def tunstall(S, n, at=None):
    def run(ctx):
        p = pmf_of(ctx, S, at=at)
        code = komm.TunstallCode(p, n) if n else komm.TunstallCode(p)
        m = code.target_block_size
        if n is None:
            ctx.check(2 ** m >= S > 2 ** (m - 1), "shortest blocks that suffice")
        else:
            ctx.check(m == n, "block size")
        words = list(code.sourcewords)
        ctx.check(len(words) + S - 1 > 2 ** m >= len(words), "no room for another node")
        ctx.check(list(code.dec_mapping.keys()) == list(itertools.product([0, 1], repeat=m))[:len(words)], "blocks in order")
        ctx.check(words == sorted(words), "words in order")
        nodes = {w[:j] for w in words for j in range(len(w))}
        ctx.check(len(words) == 1 + len(nodes) * (S - 1) and
                  all(t + (s,) in nodes or t + (s,) in words for t in nodes for s in range(S)), "the leaves of a full tree")

        def prob(w):
            return int_prod([p[s] for s in w])
        for t in nodes:
            for w in words:
                if w[:len(t)] != t:
                    ctx.check(prob(t) >= prob(w), "only the most probable words are extended")
        ctx.check(bool(code.is_prefix_free()) and bool(code.is_fully_covering()) and bool(code.is_uniquely_encodable()),
                  "prefix free and covering")
        if len(words) > 4:
            return
        x = ctx.ints("x", 3, 0, S - 1)
        d = code.decode(code.encode(x))
        ctx.eq(d[:3], x, "the message, possibly completed")
    return run


def bad_params(cls, **kw):
    def run(ctx):
        p = ctx.reals("p", 2, lo=-1, hi=2)
        if cls is komm.ShannonCode:
            for v in p:
                ctx.assume((v <= 0) | (v > 1 / 4))
        ok, _ = ctx.attempt(ValueError, lambda: cls(p, **kw))
        s = p[0] + p[1]
        good = (p[0] >= 0) & (p[1] >= 0) & (abs(s - 1) < 1e-5)
        off = (p[0] < 0) | (p[1] < 0) | (abs(s - 1) > 2e-5)
        if cls is komm.ShannonCode:
            good = good & (p[0] > 1 / 4) & (p[1] > 1 / 4)
            off = off | (p[0] == 0) | (p[1] == 0)
        ctx.check((good == False) | ok, "distributions accepted")  # noqa: E712
        ctx.check((off == False) | (not ok), "anything else refused")  # noqa: E712
        for bad in ([[0.5, 0.5]], [[0.5], [0.5]]):
            ctx.check(ctx.raises(ValueError, lambda: cls(bad, **kw)), "one dimension")
        ctx.check(ctx.raises(ValueError, lambda: cls([0.5, 0.5], 0)), "block size of zero refused")
    return run


for n, k, tier in ((2, 1, "quick"), (3, 1, "quick"), (4, 1, "quick"), (2, 2, "quick"), (5, 1, "thorough")):
    for pol in ("high", "low"):
        for asg in ("tree", "canonical"):
            s, r = huffman(n, k, pol, asg)
            t = tier if (n, k) != (4, 1) or (pol, asg) == ("high", "tree") else "thorough"
            P20.add(f"huffman/{n}^{k}/{pol}/{asg}", r, setup=s, bounds=f"every pmf on {n} symbols, blocks of {k}", cost=n ** k * 10,
                    tier=t)
for n in (2, 3, 4):
    P20.add(f"huffman/bits/{n}", huffman_tree_bits(n), bounds=f"every pmf on {n} symbols", cost=n)
for n, k in ((2, 1), (3, 1), (2, 2)):
    P20.add(f"shannon/{n}^{k}", shannon(n, k), bounds=f"every pmf on {n} symbols with probabilities above 1/64, blocks of {k}",
            cost=n ** k * 8)
P20.add("shannon/dyadic", shannon_dyadic, bounds="(2^-k, 1 - 2^-k) and (2^-k, 2^-k, 1 - 2^(1-k)), every k up to 45")
P20.add("shannon/4^1", shannon(4, 1), bounds="every pmf on 4 symbols with probabilities above 1/64", cost=90, tier="thorough")
P20.add("shannon/zero", shannon_zero(3), bounds="every pmf on 3 symbols, zero or above 1/64", cost=3)
for n, k in ((2, 1), (3, 1), (4, 1), (2, 2)):
    P20.add(f"fano/{n}^{k}", fano(n, k), bounds=f"every pmf on {n} symbols, blocks of {k}", cost=n ** k * 8)
for S_, n in ((2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, None), (3, None), (4, None), (5, None), (4, 3)):
    P20.add(f"tunstall/{S_}/{n}", tunstall(S_, n), bounds=f"every pmf on {S_} symbols", cost=60 if n == 3 else 8,
            tier="thorough" if (S_, n) == (3, 3) else "quick")
for cls, kw in ((komm.HuffmanCode, {}), (komm.FanoCode, {}), (komm.ShannonCode, {}), (komm.TunstallCode, {})):
    P20.add(f"pmf/{cls.__name__}", bad_params(cls, **kw), bounds="two numbers in [-1, 2]", cost=2)

# ------------------------------------------------------------------ C21
P21 = prop("C21")


def width(n, base):
    k = 0
    while base ** k < n:
        k += 1
    return k


def in_range(xs, low, high):
    r = True
    for x in xs:
        r = r & (x >= low) & (x < high)
    return r


def lz_window(cls, S, L, card, target, n, own):
    """LZ77 and LZSS on every source and every initial search buffer."""
    def run(ctx):
        kw = dict(search_size=S, lookahead_size=L, source_cardinality=card, target_cardinality=target)
        buf = ctx.ints("b", S, 0, card - 1) if own else [0] * S
        code = cls(**kw, search_buffer=buf) if own else cls(**kw)
        x = ctx.ints("x", n, 0, card - 1)
        tokens = code.source_to_tokens(x)
        all_ = list(buf) + list(x)
        i = S
        for t in tokens:
            if cls is komm.LempelZiv77Code:
                p, l, s = t
                ctx.check(in_range([p], 0, S) & in_range([l], 0, L) & in_range([s], 0, card), "token in range")
                start, l = i - S + p, int(ctx.fix(l))
                i += l + 1
                ctx.check(all_[i - 1] == s, "symbol after the match")
                longest = min(L - 1, S + n - (i - l - 1) - 1)
            elif int(ctx.fix(t[0])) == 1:
                _, p, l = t
                ctx.check(in_range([p], 1, S + 1) & in_range([l], 1, L + 1), "token in range")
                start, l = i - p, int(ctx.fix(l))
                i += l
                longest = min(L, S + n - (i - l))
            else:
                ctx.check(all_[i] == t[1], "literal symbol")
                i += 1
                continue
            at = i - l - (cls is komm.LempelZiv77Code)
            # the match is one, and no earlier start in the window matches further
            hit = False
            for q in range(at - S, at):
                ok = start == q
                for j in range(l):
                    ok = ok & (all_[q + j] == all_[at + j])
                hit = hit | ok
            ctx.check((l == 0) | hit, "the match")
            if l < longest:
                for q in range(at - S, at):
                    ctx.check(same_words(all_[q:q + l + 1], all_[at:at + l + 1]) == False, "the longest")  # noqa: E712
        ctx.check(i == S + n, "tokens cover the source")
        ctx.eq(code.tokens_to_source(tokens), x, "source from tokens")
        y = code.tokens_to_target(tokens)
        ctx.check(in_range(lst(y), 0, target), "target symbols")
        ctx.eq(code.encode(x), y, "encode")
        ctx.eq(code.decode(y), x, "decode")
    return run


def lz_tokens(cls, S, L, card, target, kinds):
    """Any list of tokens survives the target format."""
    def run(ctx):
        code = cls(search_size=S, lookahead_size=L, source_cardinality=card, target_cardinality=target)
        tokens, size = [], 0
        w = (width(S, target), width(L, target), width(card, target))
        for i, k in enumerate(kinds):
            if cls is komm.LempelZiv77Code:
                tokens.append((ctx.int(f"p{i}", 0, S - 1), ctx.int(f"l{i}", 0, L - 1), ctx.int(f"x{i}", 0, card - 1)))
                size += sum(w)
            elif k:
                tokens.append((1, ctx.int(f"p{i}", 1, S), ctx.int(f"l{i}", 1, L)))
                size += 1 + w[0] + w[1]
            else:
                tokens.append((0, ctx.int(f"x{i}", 0, card - 1)))
                size += 1 + w[2]
        y = code.tokens_to_target(tokens)
        ctx.check(len(y) == size, "fixed-size fields")
        got = code.target_to_tokens(y)
        ctx.check(len(got) == len(tokens), "as many tokens")
        for a, b in zip(got, tokens):
            ctx.check(len(a) == len(b) and same_words(a, b), "the tokens")
    return run


def lz_big(cls, card):
    """Alphabets larger than a byte."""
    def run(ctx):
        code = cls(search_size=2, lookahead_size=2, source_cardinality=card)
        x = ctx.ints("x", 3, 0, card - 1)
        ctx.eq(code.decode(code.encode(x)), x, "decode")
    return run


def lz78(card, target, n):
    def run(ctx):
        code = komm.LempelZiv78Code(card, target)
        x = ctx.ints("x", n, 0, card - 1)
        tokens = code.source_to_tokens(x)
        phrases, i = [[]], 0
        for t, (p, s) in enumerate(tokens):
            p = int(ctx.fix(p))
            ctx.check(0 <= p <= t, "pointer to an earlier phrase")
            w = phrases[p]
            ctx.check(same_words(w, list(x[i:i + len(w)])), "the phrase")
            i += len(w)
            if t == len(tokens) - 1 and i == n:
                ctx.check(s == -1, "no symbol at the end")
                continue
            ctx.check(s == x[i], "symbol after it")
            i += 1
            w = w + [s]
            for v in phrases:
                ctx.check(len(v) != len(w) or same_words(v, w) == False, "a new phrase")  # noqa: E712
            phrases.append(w)
        ctx.check(i == n, "tokens cover the source")
        ctx.eq(code.tokens_to_source(tokens), x, "source from tokens")
        y = code.tokens_to_target(tokens)
        size = sum(width(t + 1, target) + width(card, target) for t in range(len(tokens)))
        if tokens:
            size -= width(card, target) * (int(ctx.fix(tokens[-1][1])) == -1)
        ctx.check(len(y) == size, "fields as wide as needed")
        ctx.check(in_range(lst(y), 0, target), "target symbols")
        got = code.target_to_tokens(y)
        ctx.check(len(got) == len(tokens) and all(same_words(a, b) is not False for a, b in zip(got, tokens)), "tokens from target")
        ctx.eq(code.encode(x), y, "encode")
        ctx.eq(code.decode(y), x, "decode")
    return run


def lzw(card, target, n):
    def run(ctx):
        code = komm.LempelZivWelchCode(card, target)
        x = ctx.ints("x", n, 0, card - 1)
        y = code.encode(x)
        ctx.check(in_range(lst(y), 0, target), "target symbols")
        ctx.eq(code.decode(y), x, "decode")
        # the textbook algorithm
        xs = [int(ctx.fix(v)) for v in x]
        table, want, i = [(s,) for s in range(card)], [], 0
        while i < n:
            w = max((w for w in table if tuple(xs[i:i + len(w)]) == w), key=len)
            want.append((table.index(w), width(len(table), target)))
            i += len(w)
            table.append(w + tuple(xs[i:i + 1]))
        out = []
        for v, k in want:
            out += [v // target ** j % target for j in reversed(range(k))]
        ctx.eq(y, out, "phrase numbers")
    return run


def lz_invalid(make, card, n):
    def run(ctx):
        x = ctx.ints("x", n, -1, card)
        ok, _ = ctx.attempt(ValueError, lambda: make().encode(x))
        ctx.check(in_range(x, 0, card) == ok, "symbols outside the alphabet are refused")
    return run


def lz_params(cls):
    def run(ctx):
        kw = {"source_cardinality": ctx.int("c", 0, 3), "target_cardinality": ctx.int("t", 0, 3)}
        good = (kw["source_cardinality"] >= 2) & (kw["target_cardinality"] >= 2)
        if cls in (komm.LempelZiv77Code, komm.LempelZivSSCode):
            kw |= {"search_size": ctx.int("s", 0, 2), "lookahead_size": ctx.int("l", 0, 2)}
            good = good & (kw["search_size"] >= 1) & (kw["lookahead_size"] >= 1)
        ok, _ = ctx.attempt(ValueError, lambda: cls(**{k: int(ctx.fix(v)) for k, v in kw.items()}))
        ctx.check(good == ok, "parameters in range")
    return run


for cls, nm in ((komm.LempelZiv77Code, "lz77"), (komm.LempelZivSSCode, "lzss")):
    for S_, L_, card, tg, n, own, tier in ((1, 1, 2, 2, 3, True, "quick"), (2, 2, 2, 2, 4, True, "quick"), (3, 4, 2, 2, 5, True, "quick"),
                                           (4, 3, 3, 3, 4, True, "quick"), (4, 4, 2, 2, 6, False, "quick"), (2, 5, 2, 2, 6, False, "quick"),
                                           (3, 2, 4, 2, 4, False, "quick"), (5, 8, 2, 2, 8, False, "quick"), (8, 4, 2, 2, 8, False, "quick"),
                                           (4, 4, 3, 2, 6, False, "quick"), (4, 4, 2, 2, 6, True, "quick"),
                                           (8, 8, 2, 2, 12, False, "thorough"), (7, 16, 2, 2, 12, False, "thorough"),
                                           (5, 4, 3, 3, 9, False, "thorough"), (6, 5, 2, 2, 8, True, "thorough")):
        P21.add(f"{nm}/{S_}.{L_}.{card}.{tg}.{n}{'/buffer' if own else ''}", lz_window(cls, S_, L_, card, tg, n, own), tier=tier,
                bounds=f"every source of {n} symbols" + (", every search buffer" if own else ""), cost=2 ** n)
    for t, (S_, L_, card, tg) in enumerate(((1, 1, 2, 2), (5, 3, 3, 2), (9, 4, 10, 3), (8, 16, 256, 2), (125, 5, 7, 5), (36, 216, 6, 6))):
        P21.add(f"{nm}/tokens/{t}", lz_tokens(cls, S_, L_, card, tg, (0, 1, 1, 0)), bounds="every four tokens", cost=4)
    P21.add(f"{nm}/big/1000", lz_big(cls, 1000), bounds="every source of 3 symbols below 1000", cost=4)
    P21.add(f"{nm}/invalid", lz_invalid(lambda cls=cls: cls(search_size=2, lookahead_size=2, source_cardinality=3), 3, 2),
            bounds="two symbols in [-1, 3]", cost=2)
    P21.add(f"{nm}/parameters", lz_params(cls), bounds="sizes in [0, 2], cardinalities in [0, 3]", cost=2)
for f, nm, cls in ((lz78, "lz78", komm.LempelZiv78Code), (lzw, "lzw", komm.LempelZivWelchCode)):
    for card, tg, n, tier in ((2, 2, 0, "quick"), (2, 2, 1, "quick"), (2, 2, 4, "quick"), (2, 2, 7, "quick"), (3, 2, 4, "quick"),
                              (3, 3, 4, "quick"), (2, 3, 6, "quick"), (4, 2, 3, "quick"), (3, 4, 3, "quick"),
                              (2, 2, 9, "quick"), (3, 2, 6, "quick"), (2, 2, 14, "thorough"), (3, 2, 8, "thorough"), (5, 2, 5, "thorough")):
        P21.add(f"{nm}/{card}.{tg}.{n}", f(card, tg, n), bounds=f"every source of {n} symbols", cost=card ** n, tier=tier)
    P21.add(f"{nm}/invalid", lz_invalid(lambda cls=cls: cls(3, 2), 3, 2), bounds="two symbols in [-1, 3]", cost=2)
    P21.add(f"{nm}/parameters", lz_params(cls), bounds="cardinalities in [0, 3]", cost=2)
