"""XOR/AND graph with GF(2)-affine normal form, and its translation to z3.

A *Bit* is a frozenset of atom numbers, read as their XOR.  Atom 0 is the
constant 1.  Every other atom is an input variable, an AND of two Bits, an
opaque XOR (used to cut very wide sums), or a z3 Boolean term over reals.
Two structurally equal Bits are the same function; the converse is decided by
the solver.
"""
import z3

ZERO = frozenset()
ONE = frozenset((0,))
Z3X = z3.Real("x!")
MAXXOR = 40


class Universe:
    def __init__(self):
        self.kind = [("one",)]
        self.isvar = [True]
        self.andmemo = {}
        self.xormemo = {}
        self.z3memo = {}
        self.prodmemo = {}
        self.absof = {}
        self.names = {}
        self.defined = [True]
        self.lits = [None]
        self.xordef = {}
        self.has_real = False
        self.solver = None
        self.nclauses = 0
        self.xr = []
        self.cones = {}

    # ---- construction
    def _new(self, kind, isvar):
        self.kind.append(kind)
        self.isvar.append(isvar)
        self.defined.append(False)
        self.lits.append(None)
        return len(self.kind) - 1

    def var(self, name):
        if name in self.names:
            return self.names[name]
        n = self._new(("var", name), True)
        b = frozenset((n,))
        self.names[name] = b
        return b

    def product(self, e):
        """0: linear, 1: multiplies unknowns, 2: multiplies unknowns and has conditionals."""
        memo, todo = self.prodmemo, [e]
        while todo:
            x = todo[-1]
            k = x.get_id()
            if k in memo:
                todo.pop()
                continue
            cs = x.children()
            new = [c for c in cs if c.get_id() not in memo]
            if new:
                todo.extend(new)
                continue
            r = 0
            ite = z3.is_app_of(x, z3.Z3_OP_ITE)
            for c in cs:
                r |= memo[c.get_id()][0]
            if ite:
                r |= 2
            if (z3.is_mul(x) and sum(not z3.is_rational_value(c) for c in cs) > 1) or z3.is_app_of(x, z3.Z3_OP_POWER):
                r |= 1
            memo[k] = (r, x)
            todo.pop()
        return memo[e.get_id()][0]

    def expand(self, e):
        """Sum of monomials, when e multiplies unknowns."""
        return z3.simplify(e, som=True) if self.product(e) == 1 else e

    def from_z3(self, e):
        e = z3.simplify(e)
        if (z3.is_le(e) or z3.is_ge(e) or z3.is_lt(e) or z3.is_gt(e) or z3.is_eq(e)) and z3.is_real(e.arg(0)) \
                and self.product(e) == 1:
            # squares cancel when squared distances are compared
            d = z3.simplify(e.arg(0) - e.arg(1), som=True)
            e = z3.simplify(z3.substitute(e.decl()(Z3X, z3.RealVal(0)), (Z3X, d)))
        if z3.is_true(e):
            return ONE
        if z3.is_false(e):
            return ZERO
        if z3.is_not(e):
            return self.from_z3(e.arg(0)) ^ ONE
        k = e.get_id()
        r = self.z3memo.get(k)
        if r is None:
            self.has_real = True
            n = self._new(("z3", e), True)
            r = self.z3memo[k] = frozenset((n,))
        return r


U = Universe()


def reset():
    global U
    U = Universe()
    return U


def xor(a, b):
    r = a ^ b
    if len(r) > MAXXOR:
        u = U
        iv = u.isvar
        nl = [i for i in r if not iv[i]]
        if len(nl) > 8:
            key = frozenset(nl)
            n = u.xormemo.get(key)
            if n is None:
                n = u.xormemo[key] = u._new(("xor", key), False)
            r = (r - key) ^ frozenset((n,))
    return r


def not_(a):
    return a ^ ONE


def and_(a, b):
    if a is b or a == b:
        return a
    if not a or not b:
        return ZERO
    if a == ONE:
        return b
    if b == ONE:
        return a
    if (len(a) - len(b)) in (1, -1) and (a ^ b) == ONE:
        return ZERO
    key = frozenset((a, b))
    u = U
    r = u.andmemo.get(key)
    if r is None:
        # one-level absorption: a & (a & c) = a & c ; a & ~(a&c) = a & ~c
        for x, y in ((a, b), (b, a)):
            if len(y) <= 2 and len(y) - (0 in y) == 1:
                (n,) = y - ONE
                k = u.kind[n]
                if k[0] == "and":
                    p, q = k[1], k[2]
                    neg = 0 in y
                    if p == x or q == x:
                        o = q if p == x else p
                        r = and_(x, o ^ ONE) if neg else y
                        break
                    nx = x ^ ONE
                    if p == nx or q == nx:
                        r = x if neg else ZERO
                        break
                    if neg and len(x) == 1:
                        # (u & v) & ~(~u & w) = u & v
                        (xn,) = x
                        kx = u.kind[xn]
                        if kx[0] == "and" and (kx[1] ^ ONE in (p, q) or kx[2] ^ ONE in (p, q)):
                            r = x
                            break
        if r is None:
            n = u._new(("and", a, b), False)
            r = frozenset((n,))
        u.andmemo[key] = r
    return r


def or_(a, b):
    return and_(a ^ ONE, b ^ ONE) ^ ONE


def mux(c, a, b):
    if a == b:
        return a
    if c == ONE:
        return a
    if not c:
        return b
    if not b:
        return and_(c, a)
    if not a:
        return and_(c ^ ONE, b)
    if a == ONE:
        return or_(c, b)
    if b == ONE:
        return or_(c ^ ONE, a)
    return xor(b, and_(c, xor(a, b)))


def and_all(xs):
    xs = list(xs)
    while len(xs) > 1:
        xs = [and_(xs[i], xs[i + 1]) if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
    return xs[0] if xs else ONE


def or_all(xs):
    return and_all([x ^ ONE for x in xs]) ^ ONE


# ---- evaluation under a model {atom: 0/1} (z3 atoms looked up with f)
def evaluate(bit, env, memo):
    v = 0
    for n in bit:
        v ^= _eval_atom(n, env, memo)
    return v


def _eval_atom(n, env, memo):
    if n == 0:
        return 1
    r = memo.get(n)
    if r is not None:
        return r
    stack = [n]
    kind = U.kind
    while stack:
        m = stack[-1]
        if m in memo or m == 0:
            stack.pop()
            continue
        k = kind[m]
        if k[0] in ("var", "z3"):
            memo[m] = env(m, k)
            stack.pop()
            continue
        todo = []
        if k[0] == "and":
            sets = (k[1], k[2])
        else:
            sets = (k[1],)
        for s in sets:
            for x in s:
                if x and x not in memo:
                    todo.append(x)
        if todo:
            stack.extend(todo)
            continue
        vals = []
        for s in sets:
            v = 0
            for x in s:
                v ^= memo[x] if x else 1
            vals.append(v)
        memo[m] = vals[0] & vals[1] if k[0] == "and" else vals[0]
        stack.pop()
    return memo[n]


def cone(a):
    """Number of ANDs below the atom (as a tree), capped."""
    if U.isvar[a]:
        return 0
    c = U.cones.get(a)
    if c is None:
        k = U.kind[a]
        c = 1
        for s in (k[1:3] if k[0] == "and" else k[1:2]):
            for x in s:
                if c > 300:
                    break
                c += cone(x) if a - x < 10000 or x in U.cones or U.isvar[x] else 301
        U.cones[a] = c
    return c


# ---- CNF generation
class CNF:
    """Incremental CNF of the cone of the Bits asked for. Literals are ints."""

    def __init__(self):
        self.lit = {}          # atom -> dimacs var
        self.n = 0
        self.clauses = []
        self.xmemo = {}
        self.vars = []         # (dimacs var, atom) for var / z3 atoms

    def fresh(self):
        self.n += 1
        return self.n

    def atom(self, n):
        """Literal of atom n; defines its cone, iteratively."""
        r = self.lit.get(n)
        if r is not None:
            return r
        stack = [n]
        kind = U.kind
        lit = self.lit
        while stack:
            m = stack[-1]
            if m in lit:
                stack.pop()
                continue
            k = kind[m]
            if k[0] in ("var", "z3"):
                lit[m] = self.fresh()
                self.vars.append((lit[m], m))
                stack.pop()
                continue
            sets = (k[1], k[2]) if k[0] == "and" else (k[1],)
            todo = [x for s in sets for x in s if x and x not in lit]
            if todo:
                stack.extend(todo)
                continue
            ls = [self._xor(s) for s in sets]
            if k[0] == "and":
                v = self.fresh()
                a, b = ls
                self.clauses += ((-v, a), (-v, b), (v, -a, -b))
                lit[m] = v
            else:
                lit[m] = ls[0]
            stack.pop()
        return lit[n]

    def _xor(self, s):
        """Literal of a Bit whose atoms are all defined."""
        neg = 0 in s
        atoms = sorted(x for x in s if x)
        if not atoms:
            raise ValueError("constant bit")
        acc = self.lit[atoms[0]]
        for x in atoms[1:]:
            b = self.lit[x]
            key = (acc, b)
            v = self.xmemo.get(key)
            if v is None:
                v = self.fresh()
                a = acc
                self.clauses += ((-v, a, b), (-v, -a, -b), (v, -a, b), (v, a, -b))
                self.xmemo[key] = v
            acc = v
        return -acc if neg else acc

    def bit(self, s):
        for x in s:
            if x:
                self.atom(x)
        return self._xor(s)
