"""Path exploration by re-execution; the solver decides branches and assertions."""
import os
import random
import subprocess
import tempfile
import time

import z3
from z3 import z3core

from . import bits as B


class PathEnd(BaseException):
    """The current path is finished (assumption unsatisfiable)."""


class Restart(BaseException):
    """A merge site turned out not to be mergeable: redo the path without it."""


class Budget(BaseException):
    """Limits exceeded: the exploration is incomplete."""


class Violation(BaseException):
    pass


class SolverUnknown(BaseException):
    pass


def _boolvar(i):
    c = z3.main_ctx()
    return z3.BoolRef(z3core.Z3_mk_const(c.ref(), z3core.Z3_mk_int_symbol(c.ref(), i), z3.BoolSort().ast), c)


_free = {}


def free(e):
    """Names of the unknowns of a term, and whether it speaks of integers."""
    k = e.get_id()
    r = _free.get(k)
    if r is None:
        if z3.is_const(e):
            names = frozenset([e.decl().name()]) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
            r = (names, z3.is_int(e))
        else:
            cs = [free(c) for c in e.children()]
            r = (frozenset().union(*[c[0] for c in cs]), z3.is_int(e) or any(c[1] for c in cs))
        _free[k] = r + (e,)
    return r[0], r[1]


class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.checks = 0
        self.discharged = 0
        self.trivial = 0
        self.solver_s = 0.0
        self.merges = 0
        self.clauses = 0
        self.atoms = 0
        self.kissat = 0
        self.linear = 0


def reduce(basis, b):
    while b:
        r = basis.get(max(b))
        if r is None:
            return b
        b = b ^ r
    return b


def leaves(b, out, depth=0):
    """Conjuncts of the Bit."""
    if len(b) == 1 and depth < 200 and len(out) < 300:
        (a,) = b
        k = B.U.kind[a]
        if k[0] == "and":
            leaves(k[1], out, depth + 1)
            leaves(k[2], out, depth + 1)
            return
    out.append(b)


def extend(basis, clauses, bits_):
    """Adds the equations b = 1; True when they are contradictory.  An AND known
    to be false becomes a clause: not all of its conjuncts are 1."""
    kind = B.U.kind
    work = list(bits_)
    while True:
        while work:
            b = work.pop()
            if len(b) == 1:
                (a,) = b
                if a and kind[a][0] == "and":
                    work += kind[a][1:3]
            r = reduce(basis, b ^ B.ONE)
            if not r:
                continue
            if r == B.ONE:
                return True
            p = max(r)
            basis[p] = r
            if len(r) == 1 or len(r) == 2 and 0 in r:
                # the atom is fixed
                k = kind[p]
                if k[0] == "and":
                    if 0 in r:
                        work += k[1:3]
                    else:
                        ls = []
                        leaves(k[1], ls)
                        leaves(k[2], ls)
                        clauses.append(ls)
                elif k[0] == "xor":
                    work.append(k[1] if 0 in r else k[1] ^ B.ONE)
        keep = []
        for ls in clauses:
            left = []
            for x in ls:
                r = reduce(basis, x)
                if not r:
                    break
                if r != B.ONE:
                    left.append(r)
            else:
                if not left:
                    return True
                if len(left) == 1:
                    work.append(left[0] ^ B.ONE)
                else:
                    keep.append(left)
        clauses[:] = keep
        if not work:
            return False


class Engine:
    def __init__(self, time_limit=600.0, query_ms=60000, max_paths=10**7, use_lra=False):
        B.reset()
        self.cnf = B.CNF()
        self.nsent = 0
        self.solver = None
        self.real_solver = False
        self.lits = {}
        self.stats = Stats()
        self.t_end = time.time() + time_limit
        self.query_ms = query_ms
        self.normal_forms = False  # expand what is compared through abs()
        self.exact_logs = False  # exponentials as polynomials (gexp)
        self.hasty = False  # give up on a query early
        self.max_paths = max_paths
        self.nomerge = set()
        self.violations = []
        self.active = False
        self.pc = []
        self.guards = []
        self.last_bl = None
        self.lin = ([], {}, [], False)
        self.lin_tries = 0
        self.linrng = random.Random(1)
        self.covered = set()
        self.real_vars = {}
        self.extra = []         # z3 axioms
        self.model_env = None
        self.model_memo = None
        self.seen_axioms = set()
        self.use_lra = use_lra
        self.known = []
        self.fork_returns = False
        self.settle_signs = False

    # ---------------------------------------------------------------- solver
    def _mk_solver(self):
        if self.real_solver:
            s = z3.Solver()
        else:
            s = z3.SolverFor("QF_FD")
        s.set("timeout", self.query_ms)
        s.set("random_seed", 1)
        self.solver = s
        self.nsent = 0
        self.nvars_sent = 0
        self.nax = 0

    def _sync(self):
        if self.solver is None or (B.U.has_real and not self.real_solver):
            self.real_solver = B.U.has_real
            self._mk_solver()
        c = self.cnf
        if self.nsent < len(c.clauses):
            new = c.clauses[self.nsent:]
            if len(new) * 4 < c.n:
                # the DIMACS reader costs time proportional to the number of variables
                for cl in new:
                    self._add_clause(cl)
                txt = None
            else:
                txt = [f"p cnf {c.n} {len(new)}\n"]
                txt += [" ".join(map(str, cl)) + " 0\n" for cl in new]
                self.solver.from_string("".join(txt))
            self.nsent = len(c.clauses)
        if self.real_solver:
            for v, atom in c.vars[self.nvars_sent:]:
                k = B.U.kind[atom]
                if k[0] == "z3":
                    self.solver.add(_boolvar(v) == k[1])
            self.nvars_sent = len(c.vars)
            for ax in self.extra[self.nax:]:
                self.solver.add(ax)
            self.nax = len(self.extra)

    def _add_clause(self, cl):
        ctx = self.solver.ctx.ref()
        lits = [self._z3lit(l) for l in cl]
        if len(lits) == 1:
            z3.Z3_solver_assert(ctx, self.solver.solver, lits[0].ast)
            return
        arr = (z3.Ast * len(lits))(*[l.ast for l in lits])
        z3.Z3_solver_assert(ctx, self.solver.solver, z3.Z3_mk_or(ctx, len(lits), arr))

    def add_axiom(self, e):
        k = e.get_id()
        if k not in self.seen_axioms:
            self.seen_axioms.add(k)
            self.extra.append(e)
            B.U.has_real = True

    def _z3lit(self, l):
        r = self.lits.get(l)
        if r is None:
            v = _boolvar(abs(l))
            r = self.lits[l] = v if l > 0 else z3.Not(v)
        return r

    def sat(self, bits_, want_model=True):
        """Is the conjunction of the Bits satisfiable?  Sets self.model_* if so."""
        if time.time() > self.t_end:
            raise Budget("time limit")
        t0 = time.time()
        for b in bits_:
            if not b:
                return False
        if not B.U.has_real:
            r = self._linear(bits_)
            if r is not None:
                self.stats.solver_s += time.time() - t0
                self.stats.queries += 1
                self.stats.linear += 1
                if r:
                    self.stats.sat += 1
                else:
                    self.stats.unsat += 1
                return r
        lits = [self.cnf.bit(b) for b in bits_ if b != B.ONE]
        self._sync()
        if self.hasty:
            self.solver.set("timeout", 3000)
        r = self.solver.check(*[self._z3lit(l) for l in lits])
        if self.hasty:
            self.solver.set("timeout", self.query_ms)
        self.stats.queries += 1
        if r == z3.unknown and not self.real_solver:
            r = self._kissat(lits)
            if isinstance(r, dict):
                self.stats.solver_s += time.time() - t0
                self.stats.sat += 1
                self._set_env(r)
                return True
            if r is False:
                self.stats.solver_s += time.time() - t0
                self.stats.unsat += 1
                return False
        solver, local = self.solver, self.cnf
        if r == z3.unknown and self.real_solver and not self.hasty:
            # products of unknowns: a complete procedure, from scratch
            solver, local = self._fresh(bits_)
            r = solver.check()
            if r == z3.unknown:  # a loaded machine: the first solver again, with patience
                solver, local = self.solver, self.cnf
                solver.set("timeout", 60000)
                r = solver.check(*[self._z3lit(l) for l in lits])
                solver.set("timeout", self.query_ms)
        self.stats.solver_s += time.time() - t0
        if r == z3.unsat:
            self.stats.unsat += 1
            return False
        if r == z3.unknown:
            raise SolverUnknown(self.solver.reason_unknown())
        self.stats.sat += 1
        if want_model:
            m = solver.model()
            vals = {}
            for v, atom in local.vars:
                if B.U.kind[atom][0] == "var":
                    vals[atom] = 1 if z3.is_true(m.eval(_boolvar(v))) else 0
            self._set_env(vals, m)
        return True

    def _fresh(self, bits_):
        """A solver that has only what these Bits mention."""
        cnf = B.CNF()
        lits = [cnf.bit(b) for b in bits_ if b != B.ONE]
        defs = [(_boolvar(v), B.U.kind[atom][1]) for v, atom in cnf.vars if B.U.kind[atom][0] == "z3"]
        use = set()
        for _, e in defs:
            use |= free(e)[0]
        axioms, more = [], True
        left = list(self.extra)
        while more:
            more = False
            for ax in left[:]:
                names, ints = free(ax)
                if not ints or names & use:
                    left.remove(ax)
                    axioms.append(ax)
                    if ints and not names <= use:
                        use |= names
                        more = True
        mixed = any(free(e)[1] for e in axioms) or any(free(e)[1] for _, e in defs)
        solver = z3.Solver() if mixed else z3.SolverFor("QF_NRA")
        solver.set("timeout", 60000)
        solver.set("random_seed", 1)
        for v, e in defs:
            solver.add(v == e)
        solver.add(axioms)
        for cl in cnf.clauses:
            solver.add(z3.Or([_boolvar(l) if l > 0 else z3.Not(_boolvar(-l)) for l in cl]))
        for l in lits:
            solver.add(_boolvar(l) if l > 0 else z3.Not(_boolvar(-l)))
        return solver, cnf

    # Gaussian elimination over GF(2), with ANDs as opaque unknowns: refutes, or
    # proposes a model that is then evaluated.  None: left to the SAT solver.
    def _linear(self, bits_):
        if not bits_:
            return None
        # given up on when it rarely settles anything
        self.lin_tries += 1
        if self.lin_tries > 60 and self.stats.linear * 3 < self.lin_tries and self.lin_tries % 50:
            return None
        base = bits_[:-1]
        known, basis, clauses, bad = self.lin
        n = len(known)
        if n > len(base) or known != base[:n]:
            basis, clauses, bad, n = {}, [], False, 0
        if n < len(base) or not n:
            basis, clauses = dict(basis), list(clauses)
            bad = bad or extend(basis, clauses, base[n:])
            self.lin = (list(base), basis, clauses, bad)
        if bad:
            return False
        self.lin_nodes = 12
        return self._split(dict(basis), list(clauses), bits_[-1:], bits_, 3)

    def _split(self, basis, clauses, new, bits_, depth):
        if extend(basis, clauses, new):
            return False
        if self._guess(basis, bits_):
            return True
        self.lin_nodes -= 1
        if depth == 0 or self.lin_nodes < 0:
            return None
        kind = B.U.kind
        best = None
        for r in basis.values():
            if 2 <= len(r) <= 4 and (best is None or len(r) < best[0]):
                for a in r:
                    if a and kind[a][0] == "and" and not (len(r) == 2 and 0 in r):
                        best = (len(r), frozenset((a,)))
        if best is None:
            if not clauses:
                return None
            best = (0, min(clauses, key=len)[0])
        res = False
        for b in (best[1], best[1] ^ B.ONE):
            r = self._split(dict(basis), list(clauses), [b], bits_, depth - 1)
            if r:
                return True
            if r is None:
                res = None
        return res

    def _guess(self, basis, bits_):
        """A random point of the affine space, if it happens to be a model."""
        left = 300
        for r in basis.values():
            for a in r:
                left -= B.cone(a)
                if left < 0:
                    return False
        rng = self.linrng
        vals = {}

        def env(a, k):
            v = vals.get(a)
            if v is None:
                row = basis.get(a)
                v = B.evaluate(row - {a}, env, memo) if row is not None else rng.getrandbits(1)
                vals[a] = v
            return v
        memo = {}
        try:
            if all(B.evaluate(b, env, memo) for b in bits_):
                self.model_env, self.model_z3, self.model_memo = env, None, memo
                return True
        except RecursionError:
            pass
        return False

    def _set_env(self, vals, m=None):
        def env(n, k):
            if k[0] == "var":
                return vals.get(n, 0)
            if m is None:
                raise RuntimeError("no model for real atom")
            r = m.eval(k[1], model_completion=True)
            if z3.is_true(r):
                return 1
            if z3.is_false(r):
                return 0
            raise SolverUnknown(f"model does not fix {k[1]}")
        self.model_env = env
        self.model_z3 = m
        self.model_memo = {}

    def _kissat(self, lits):
        left = self.t_end - time.time()
        if left < 1:
            raise Budget("time limit")
        self.stats.kissat += 1
        with tempfile.NamedTemporaryFile("w", suffix=".cnf", delete=False) as f:
            f.write(f"p cnf {self.cnf.n} {len(self.cnf.clauses) + len(lits)}\n")
            f.writelines(" ".join(map(str, cl)) + " 0\n" for cl in self.cnf.clauses)
            f.writelines(f"{l} 0\n" for l in lits)
        try:
            p = subprocess.run(["kissat", "-q", f.name], capture_output=True, text=True, timeout=left)
        except subprocess.TimeoutExpired:
            raise Budget("time limit in kissat")
        except OSError:
            return None
        finally:
            os.unlink(f.name)
        if p.returncode == 20:
            return False
        if p.returncode == 10:
            val = {}
            for line in p.stdout.splitlines():
                if line.startswith("v "):
                    for t in line.split()[1:]:
                        t = int(t)
                        val[abs(t)] = 1 if t > 0 else 0
            return {atom: val.get(v, 0) for v, atom in self.cnf.vars if B.U.kind[atom][0] == "var"}
        return None

    def ev(self, bit):
        """Value of a Bit under the current model."""
        return B.evaluate(bit, self.model_env, self.model_memo)

    # ---------------------------------------------------------------- paths
    def explore(self, fn):
        """Run fn() on every feasible path.  fn must be deterministic."""
        work = [([], None)]
        while work:
            prefix = work.pop()
            if self.stats.paths >= self.max_paths:
                raise Budget("path limit")
            if time.time() > self.t_end:
                raise Budget("time limit")
            self.prefix, model = prefix
            self.transc = {}
            self.trail = []
            self.newwork = []
            self.pc = []
            self.pcset = set()
            self.guards = []
            if model is not None:
                self.model_env, self.model_z3 = model
                self.model_memo = {}
            else:
                self.model_env = lambda n, k: 0
                self.model_z3 = None
                self.model_memo = {}
                if B.U.has_real:
                    self.sat([])
            self.active = True
            try:
                fn()
                self.stats.paths += 1
            except PathEnd:
                pass
            except Restart:
                self.active = False
                # a site changed from merging to forking: prefixes recorded so far
                # no longer line up, so the exploration starts over
                self.restarts = getattr(self, "restarts", 0) + 1
                self.stats.paths = 0
                self.on_restart()
                self.newwork = []
                work = [([], None)]
                continue
            finally:
                self.active = False
            work.extend(self.newwork)
        self.stats.clauses = len(self.cnf.clauses)
        self.stats.atoms = len(B.U.kind)

    def on_restart(self):
        pass

    def _push(self, b):
        if b not in self.pcset:
            self.pcset.add(b)
            self.pc.append(b)

    def cond(self):
        return self.pc + self.guards

    def decide(self, b):
        """Python truth value of a Bit on this path; forks when both are feasible."""
        if not b:
            return False
        if b == B.ONE:
            return True
        if b in self.pcset:
            return True
        nb = b ^ B.ONE
        if nb in self.pcset:
            return False
        if self.guards:
            return self._decide_guarded(b, nb)
        i = len(self.trail)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trail.append(v)
            self._push(b if v else nb)
            return v
        if time.time() > self.t_end:
            raise Budget("time limit")
        v = bool(self.ev_pc(b))
        env, mz = self.model_env, self.model_z3
        memo = self.model_memo
        other = self.sat(self.pc + [nb if v else b])
        if other:
            self.newwork.append((self.trail + [not v], (self.model_env, self.model_z3)))
            self.model_env, self.model_z3, self.model_memo = env, mz, memo
            self.stats.decisions += 1
            self.trail.append(v)
        else:
            # forced: record so that re-execution needs no solver
            self.trail.append(v)
        self._push(b if v else nb)
        return v

    def forced(self, b):
        """True or False where this path settles b (which is then learnt), else None."""
        if not b or b == B.ONE:
            return bool(b)
        nb = b ^ B.ONE
        if b in self.pcset:
            return True
        if nb in self.pcset:
            return False
        if self.guards:
            return None
        i = len(self.trail)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            if time.time() > self.t_end:
                raise Budget("time limit")
            v = bool(self.ev_pc(b))
            keep = (self.model_env, self.model_z3, self.model_memo)
            if self.sat(self.pc + [nb if v else b]):
                v = None
            self.model_env, self.model_z3, self.model_memo = keep
        self.trail.append(v)
        if v is not None:
            self._push(b if v else nb)
        return v

    def decide_value(self, e):
        """Forks on 'e == n' for a feasible n; the n chosen is kept in the trail so
        that re-execution asks the same question.  Returns n, or None for '!='."""
        from fractions import Fraction
        if self.guards:
            raise Restart_site(self)
        i = len(self.trail)
        if i < len(self.prefix):
            n, v = self.prefix[i]
            self.trail.append((n, v))
            b = B.U.from_z3(e == z3.RealVal(str(n)))
            self._push(b if v else b ^ B.ONE)
            return n if v else None
        if self.model_z3 is None:
            B.U.has_real = True
            if not self.sat(self.pc):
                raise PathEnd()
        r = self.model_z3.eval(e, model_completion=True)
        if z3.is_rational_value(r):
            n = r.as_fraction()
        elif z3.is_int_value(r):
            n = Fraction(r.as_long())
        else:
            raise SolverUnknown("irrational value in model")
        b = B.U.from_z3(e == z3.RealVal(str(n)))
        if b == B.ONE:
            self.trail.append((n, True))
            return n
        env = (self.model_env, self.model_z3, self.model_memo)
        if self.sat(self.pc + [b ^ B.ONE]):
            self.newwork.append((self.trail + [(n, False)], (self.model_env, self.model_z3)))
            self.model_env, self.model_z3, self.model_memo = env
            self.stats.decisions += 1
        self.trail.append((n, True))
        self._push(b)
        return n

    def ev_pc(self, b):
        """Value of b under a model of the path condition."""
        try:
            return self.ev(b)
        except RuntimeError:
            if not self.sat(self.pc):
                raise PathEnd()
            return self.ev(b)

    def _decide_guarded(self, b, nb):
        for g in self.guards:
            if g == b:
                return True
            if g == nb:
                return False
        env = (self.model_env, self.model_z3, self.model_memo)
        try:
            f1 = self.sat(self.cond() + [b], want_model=False)
            f0 = self.sat(self.cond() + [nb], want_model=False)
        finally:
            self.model_env, self.model_z3, self.model_memo = env
        if f1 and not f0:
            return True
        if f0 and not f1:
            return False
        # both (or neither: dead guarded code) possible: this region cannot be merged
        raise Restart_site(self)

    def feasible(self, b):
        """Is b possible here?  (no fork)"""
        if not b:
            return False
        if b == B.ONE or b in self.pcset:
            return True
        if (b ^ B.ONE) in self.pcset:
            return False
        if not self.guards:
            if self.ev_pc(b):
                return True
        env = (self.model_env, self.model_z3, self.model_memo)
        try:
            return self.sat(self.cond() + [b], want_model=False)
        finally:
            self.model_env, self.model_z3, self.model_memo = env

    def assume(self, b):
        if b == B.ONE:
            return
        if self.guards:
            raise Restart_site(self)
        if not b:
            raise PathEnd()
        i = len(self.trail)
        if i < len(self.prefix):
            self.trail.append(True)
            self._push(b)
            return
        if not self.ev_pc(b):
            if not self.sat(self.pc + [b]):
                raise PathEnd()
        self.trail.append(True)
        self._push(b)

    def check(self, b):
        """True if b holds for every input of this path; else leaves a model."""
        self.stats.checks += 1
        if b == B.ONE:
            self.stats.trivial += 1
            self.stats.discharged += 1
            return True
        nb = b ^ B.ONE
        if nb and nb in self.pcset:
            if not self.sat(self.pc):
                raise PathEnd()
            return False
        env = (self.model_env, self.model_z3, self.model_memo)
        if self.sat(self.pc + [nb]):
            return False
        self.model_env, self.model_z3, self.model_memo = env
        self.stats.discharged += 1
        return True


E = None


def Restart_site(eng):
    site = eng.site_stack[-1] if eng.site_stack else None
    if site is None:
        raise RuntimeError("guarded decision outside a merge site")
    eng.nomerge.add(site)
    return Restart(site)


def new_engine(**kw):
    global E
    E = Engine(**kw)
    E.site_stack = []
    return E
