"""Explores one instance of a property symbolically."""
import copy
import os
import random
import sys
import time
import traceback

from . import bits as B
from . import core
from . import rt
from . import sym as S
from .core import Budget, PathEnd, Restart, SolverUnknown
from .ctx import SymCtx

FUNCS = set()


def start_monitor():
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, "symex")
    except ValueError:
        return

    def started(code, off):
        f = code.co_filename
        if "/komm/" in f and core.E is not None and core.E.active:
            FUNCS.add(f.split("/src/komm/")[-1].removesuffix(".py") + ":" + code.co_qualname.replace(".<locals>", ""))
            return mon.DISABLE
        if "/komm/" not in f:
            return mon.DISABLE
    mon.register_callback(4, mon.events.PY_START, started)
    mon.set_events(4, mon.events.PY_START)


class InstanceRun:
    def __init__(self, inst, known_ids=(), time_limit=300.0, max_witness=6):
        self.inst = inst
        self.known_ids = set(known_ids)
        self.time_limit = time_limit
        self.max_witness = max_witness
        self.concrete_inputs = False
        self.reset()

    def reset(self):
        self.reals = {}
        self.violations = []
        self.vlabels = set()
        self.labels = {}
        self.witnesses = []
        self.npaths = 0
        self.known_hits = {}
        self.path_had_violation = False

    # --------------------------------------------------------------- checks
    def check(self, ctx, b, label):
        e = core.E
        self.labels[label] = self.labels.get(label, 0) + 1
        if self.tries_exc:
            return
        if e.check(b):
            return
        # model of the violation is current
        if label not in self.vlabels:
            self.vlabels.add(label)
            a = self.assignment(ctx, extra=[b ^ B.ONE])
            self.violations.append({"label": label, "assignment": a})
            self.hurry()
        # continue where the check holds
        e.assume(b)

    def hurry(self):
        """A violation is at hand: finish soon."""
        e = core.E
        e.t_end = min(e.t_end, time.time() + 30)
        e.query_ms = min(e.query_ms, 10000)

    def known_hit(self, ctx, b, label, kid):
        e = core.E
        if kid in self.known_hits or not e.sat(e.pc + [b ^ B.ONE]):
            return
        self.known_hits[kid] = {"label": label, "assignment": self.assignment(ctx, extra=[b ^ B.ONE])}
        e.sat(e.pc)

    def assignment(self, ctx, extra=()):
        """Input values of the current model (reals nudged to short dyadics)."""
        import z3
        e = core.E
        if self.reals:
            self.dyadic(extra)
        out = {}
        for n, d in ctx.decl.items():
            if d[0] == "int":
                lo, hi = d[1], d[2]
                if lo == hi:
                    out[n] = lo
                    continue
                w = 0
                v = 0
                while f"{n}.{w}" in B.U.names:
                    v |= e.ev(B.U.names[f"{n}.{w}"]) << w
                    w += 1
                if f"{n}.s" in B.U.names and e.ev(B.U.names[f"{n}.s"]):
                    v -= 1 << w
                out[n] = v
            elif d[0] == "bool":
                out[n] = e.ev(B.U.names[f"{n}.0"])
            else:
                if e.model_z3 is None:
                    e.sat(e.pc + list(extra))
                v = e.model_z3.eval(self.reals[n], model_completion=True)
                if z3.is_algebraic_value(v):
                    self.irrational = True
                    v = v.approx(30)
                q = S.num(v)
                out[n] = str(q) if q is not None else "0"
        return out

    def dyadic(self, extra):
        """Prefer a model whose real inputs are multiples of 2**-k."""
        import z3
        e = core.E
        env = (e.model_env, e.model_z3, e.model_memo)
        for k in (4, 10):
            try:
                cons = [B.U.from_z3(z3.IsInt(r * (1 << k))) for r in self.reals.values()]
                cons += [B.U.from_z3(z3.And(r <= 64, r >= -64)) for r in self.reals.values()]
                e.hasty = True
                if e.sat(e.pc + list(extra) + cons):
                    return
            except (SolverUnknown, Budget):
                pass
            finally:
                e.hasty = False
            e.model_env, e.model_z3, e.model_memo = env

    # ----------------------------------------------------------------- run
    def execute(self):
        t0 = time.time()
        res = {"instance": self.inst.name, "bounds": self.inst.bounds}
        for attempt in range(2):
            e = core.new_engine(time_limit=self.time_limit, query_ms=self.inst.query_ms)
            e.fork_returns = self.inst.fork_returns
            e.on_restart = self.reset
            S.reset_ranges()
            self.reset()
            rng = random.Random(1)
            try:
                objs = self.inst.setup() if self.inst.setup else ()
            except Exception as exc:
                label = f"exception:{type(exc).__name__}"
                self.labels[label] = 1
                self.violations.append({"label": label, "assignment": {},
                                        "trace": "".join(traceback.format_exception(exc))[-3000:]})
                err = None
                break
            objs = objs if isinstance(objs, tuple) else (objs,)
            self.engine_errors = []

            def once():
                ctx = SymCtx(self)
                self.tries_exc = False
                before = len(self.violations)
                try:
                    mine = copy.deepcopy(objs)
                    self.inst.run(ctx, *mine)
                except NotImplementedError as exc:
                    raise EngineLimit("".join(traceback.format_exception(exc)[-4:]))
                except Exception as exc:
                    label = f"exception:{type(exc).__name__}"
                    self.labels[label] = self.labels.get(label, 0) + 1
                    e.guards.clear()
                    e.site_stack.clear()
                    if os.environ.get("SYMEX_DEBUG"):
                        traceback.print_exception(exc)
                    if label not in self.vlabels:
                        self.vlabels.add(label)
                        if not e.sat(e.pc):
                            raise PathEnd()
                        a = self.assignment(ctx)
                        self.violations.append({"label": label, "assignment": a,
                                                "trace": "".join(traceback.format_exception(exc))[-3000:]})
                        self.hurry()
                    return
                self.npaths += 1
                if len(self.violations) == before:
                    n = self.npaths
                    if len(self.witnesses) < self.max_witness:
                        self.keep(ctx)
                        for _ in range(3):
                            if len(self.witnesses) < self.max_witness and self.randomise(rng):
                                self.keep(ctx)
                    else:
                        j = rng.randrange(n)
                        if j < self.max_witness:
                            self.randomise(rng)
                            self.keep(ctx, j)
            err = None
            try:
                e.explore(once)
            except EngineLimit as x:
                err = "engine: " + str(x)
            except Budget as x:
                err = "budget: " + str(x)
            except SolverUnknown as x:
                err = "solver unknown: " + str(x)
            except RecursionError as x:
                err = "recursion"
            if err and err.startswith("engine") and attempt == 0:
                # unsupported operation on a symbolic value: fork on the inputs instead
                self.concrete_inputs = True
                continue
            break
        res.update(paths=self.npaths, violations=self.violations, labels=self.labels, witnesses=self.witnesses, known_hits=self.known_hits,
                   error=err, concrete_inputs=self.concrete_inputs, seconds=time.time() - t0,
                   stats=dict(e.stats.__dict__), nomerge=sorted(map(str, e.nomerge)),
                   restarts=getattr(e, "restarts", 0))
        return res

    def randomise(self, rng):
        """Replaces the current model by a random one of the same path, if one is
        found by drawing inputs and evaluating the path condition."""
        e = core.E
        if self.reals or B.U.has_real:
            return False
        old = (e.model_env, e.model_z3, e.model_memo)
        for _ in range(12):
            vals = {}

            def env(n, k, vals=vals):
                if n not in vals:
                    vals[n] = rng.getrandbits(1)
                return vals[n]
            e.model_env, e.model_memo = env, {}
            if all(e.ev(b) for b in e.pc):
                return True
        e.model_env, e.model_z3, e.model_memo = old
        return False

    def pin(self):
        """A full model for the current input values: the arithmetic terms observed
        may not have been part of any query yet."""
        import z3
        e = core.E
        pins = [b if e.ev(b) else b ^ B.ONE for b in B.U.names.values()]
        pins += [B.U.from_z3(r == e.model_z3.eval(r, model_completion=True)) for r in self.reals.values()]
        e.sat(e.pc + pins)

    def keep(self, ctx, j=None):
        """One more input to validate (none where the model has no rational values)."""
        self.irrational = False
        try:
            w = self.witness(ctx)
        except SolverUnknown:
            return
        if self.irrational:
            return
        if j is None:
            self.witnesses.append(w)
        else:
            self.witnesses[j] = w

    def witness(self, ctx):
        e = core.E
        if self.reals:
            env = (e.model_env, e.model_z3, e.model_memo)
            a = self.assignment(ctx)
        else:
            a = self.assignment(ctx)
        if B.U.has_real:
            self.pin()
        obs = [[l, ctx.ev(v)] for l, v in ctx.obs]
        return {"assignment": a, "obs": obs}


class EngineLimit(BaseException):
    pass
